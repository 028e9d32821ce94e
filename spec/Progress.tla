------------------------------ MODULE Progress ------------------------------
(* Layout makes progress and comes to an end.                               *)
(*                                                                          *)
(* Events                                                                   *)
(*   def [atoms, silent]  silent: the number of lines that show nothing     *)
(*         (a page may hold just them); atoms: the pieces of the content (a *)
(*         word, an image, each part of a group), each [h, low, room,       *)
(*         full, exact]: it needs no more than h (to the point if exact) and *)
(*         no less than low, and gets at                                   *)
(*         least room and no more than full on an empty page                *)
(*   page [new]  a page, and the atoms painted on it                        *)
(*   end [how, pages]  done: the building came to its end; error: it was    *)
(*         given up with an error that says so; crash: with another one;    *)
(*         endless: it was stopped from outside, as it went on and on       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Clause(holds, name) == IF holds THEN {} ELSE {name}
\* pages without anything new before it must have been given up
Patience == 60

\* it fits an empty page, with something to spare for the rounding; it does not
Fits(a) == IF a.exact THEN a.h <= a.room ELSE a.h * 10 <= a.room * 9
TooBig(a) == a.low > a.full + a.full \div 50 + 2000
AllFit(d) == \A i \in DOMAIN d.atoms : Fits(d.atoms[i])
NoneEver(d) == \E i \in DOMAIN d.atoms : TooBig(d.atoms[i])
Ever(d) == { i \in DOMAIN d.atoms : ~TooBig(d.atoms[i]) }

StInit(trace) == [def |-> trace[1], seen |-> {}, barren |-> 0, bad |-> 0, pages |-> 0]
Rang(s) == { s[i] : i \in DOMAIN s }
StBad(st, e) ==
  CASE e.ev = "page" -> Clause(Rang(e.new) \cap st.seen = {} /\ Cardinality(Rang(e.new)) = Len(e.new), "OncePainted")
    [] e.ev = "end" ->
         Clause(e.how # "endless", "ComesToAnEnd")
         \cup Clause(e.how # "crash", "Refusal")
         \cup Clause(e.how # "error" \/ ~AllFit(st.def), "FitsAndIsPlaced")
         \cup Clause(e.how # "done" \/ ~NoneEver(st.def), "TooBigIsRefused")
         \cup Clause(e.how # "done" \/ st.seen = DOMAIN st.def.atoms, "NothingDropped")
         \* every page but the last takes something
         \cup Clause(e.how # "done" \/ st.bad <= st.def.silent, "EveryPageTakesSomething")
         \cup Clause(e.how # "error" \/ (st.bad <= Patience /\ st.pages <= Len(st.def.atoms) + Patience), "SoonGivenUp")
    [] e.ev = "malformed" -> {"Readable"}
    [] OTHER -> {}
\* bad: pages before the last without anything new
StStep(st, e) ==
  IF e.ev # "page" THEN st
  ELSE [st EXCEPT !.seen = @ \cup Rang(e.new), !.pages = @ + 1, !.bad = @ + st.barren, !.barren = IF e.new = <<>> THEN 1 ELSE 0]
StHit(st, e) ==
  IF e.ev # "end" THEN {}
  ELSE {e.how} \cup (IF AllFit(st.def) THEN {"everything fits"} ELSE IF NoneEver(st.def) THEN {"something never fits"} ELSE {"it may not fit"})
       \cup (IF st.pages > 1 /\ e.how = "done" THEN {"several pages"} ELSE {})
       \cup (IF \E i \in Ever(st.def) : i \in st.seen /\ e.how = "error" THEN {"given up after some"} ELSE {})
=============================================================================
