------------------------------ MODULE PageTree ------------------------------
(* C03: the page tree and the geometry of pages.                            *)
(*                                                                          *)
(* State: the page setup in force [w, h, rot], the pages added so far       *)
(* (their sizes, in order), and the position of a walk of a written tree.   *)
(* Events, the history of calls and the walk of every file written:         *)
(*   setup [size, rot]  size = <<>> (kept) or <<w, h>>; rot = "", "y", "n"  *)
(*   add   [size, rot]  one page, with its own size and rotation or not     *)
(*   walk               a file is written and its tree is walked from root  *)
(*   node  [id, parent, count, nkids]  (parent = 0: none declared)          *)
(*   page  [id, parent, name, box]     name: which added page this is       *)
(*   up                 the walk leaves the last open node                  *)
(*   done               the walk is over                                    *)
(* Sizes are in milli-points.                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Clause(holds, name) == IF holds THEN {} ELSE {name}

\* t: [w, h, rot] given to the constructor
PtInit(trace) == [w |-> trace[1].size[1], h |-> trace[1].size[2], rot |-> trace[1].rot = "y",
                  pages |-> <<>>, stack |-> <<>>, found |-> <<>>, seen |-> {}, walks |-> 0]

Rot(st, r) == IF r = "" THEN st.rot ELSE r = "y"
PageOf(st, e) == LET w == IF e.size = <<>> THEN st.w ELSE e.size[1]
                     h == IF e.size = <<>> THEN st.h ELSE e.size[2]
                 IN  IF Rot(st, e.rot) THEN <<h, w>> ELSE <<w, h>>

Near(a, b) == a - b <= 2 /\ b - a <= 2

Enter(st, e) ==
  Clause(e.parent = (IF st.stack = <<>> THEN 0 ELSE st.stack[Len(st.stack)].id), "ParentListsNode")
  \cup Clause(e.id \notin st.seen, "NodeListedOnce")

PtBad(st, e) ==
  CASE e.ev = "node" -> Enter(st, e)
    [] e.ev = "page" ->
         Enter(st, e)
         \cup Clause(st.stack # <<>>, "PagesBelowRoot")
         \cup Clause(e.name = Len(st.found) + 1, "PagesInOrder")
         \cup Clause(Len(st.found) < Len(st.pages), "NoPageThatWasNotAdded")
         \cup (IF e.name \in DOMAIN st.pages
               THEN LET b == st.pages[e.name]
                    IN  Clause(e.box[1] = 0 /\ e.box[2] = 0 /\ Near(e.box[3], b[1]) /\ Near(e.box[4], b[2]), "SizeInForceWhenAdded")
               ELSE {})
    [] e.ev = "up" -> LET n == st.stack[Len(st.stack)]
                      IN  Clause(n.count = Len(st.found) - n.before, "CountIsPagesBelow")
    [] e.ev = "done" -> Clause(Len(st.found) = Len(st.pages), "EveryPageInTree")
                        \cup Clause(st.stack = <<>>, "WalkComplete")
    [] e.ev = "malformed" -> {"WellFormed_" \o e.rule}
    [] OTHER -> {}

PtStep(st, e) ==
  CASE e.ev = "setup" -> [st EXCEPT !.w = IF e.size = <<>> THEN @ ELSE e.size[1],
                                    !.h = IF e.size = <<>> THEN @ ELSE e.size[2],
                                    !.rot = Rot(st, e.rot)]
    [] e.ev = "add" -> [st EXCEPT !.pages = Append(@, PageOf(st, e))]
    [] e.ev = "walk" -> [st EXCEPT !.stack = <<>>, !.found = <<>>, !.seen = {}, !.walks = @ + 1]
    [] e.ev = "node" -> [st EXCEPT !.stack = Append(@, [id |-> e.id, count |-> e.count, before |-> Len(st.found)]),
                                   !.seen = @ \cup {e.id}]
    [] e.ev = "page" -> [st EXCEPT !.found = Append(@, e.name), !.seen = @ \cup {e.id}]
    [] e.ev = "up" -> [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
    [] OTHER -> st

PtHit(st, e) ==
  CASE e.ev = "add" /\ e.size # <<>> -> {"page with its own size"}
    [] e.ev = "add" /\ e.rot = "n" /\ st.rot -> {"page not rotated in a rotated setup"}
    [] e.ev = "setup" -> {"setup changed"}
    [] e.ev = "node" /\ Len(st.stack) = 2 -> {"tree of three levels"}
    [] e.ev = "walk" /\ st.walks > 0 -> {"written again"}
    [] OTHER -> {}
=============================================================================
