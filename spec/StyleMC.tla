------------------------------- MODULE StyleMC -------------------------------
(* Exhaustive design model of the cascade: a walk through a tree of         *)
(* elements, with the style of the elements around kept on a stack, paints  *)
(* a word before, inside and after every element.  The specification        *)
(* accepts it, and rejects it when an outer setting wins (outer), the style *)
(* applies before the style string (order), the style of an element stays   *)
(* in effect after it (leak), an element with a style forgets those around  *)
(* it (drop), nothing is switched off (sticky) or the size an element had   *)
(* around it is what its rise refers to (rise).  Every tree is a scenario.  *)
EXTENDS Style, Json

CONSTANTS Menu, Depth, Faults
\* settings of an element: string, style
Num(n) == [form |-> "num", v |-> <<n>>]
S(x) ==
  CASE x = "-" -> << <<>>, <<>> >>
    [] x = "bold" -> << <<[a |-> "b", v |-> TRUE]>>, <<>> >>
    [] x = "thin" -> << <<>>, <<[a |-> "b", v |-> FALSE]>> >>
    [] x = "both" -> << <<[a |-> "s", v |-> 12000], [a |-> "c", v |-> Num(300)]>>, <<[a |-> "s", v |-> 9000]>> >>
    [] x = "rise" -> << <<[a |-> "r", v |-> 500]>>, <<[a |-> "s", v |-> 8000]>> >>
    [] x = "line" -> << <<[a |-> "u", v |-> TRUE]>>, <<[a |-> "c", v |-> [form |-> "name", v |-> "red"]]>> >>
    [] x = "back" -> << <<>>, <<[a |-> "bg", v |-> [form |-> "hex", v |-> <<1, 2, 3>>]]>> >>
    [] x = "none" -> << <<[a |-> "bg", v |-> [form |-> "none", v |-> <<>>]], [a |-> "u", v |-> FALSE]>>, <<>> >>
VARIABLES fault, tree, pos, stack, out, done
vars == <<fault, tree, pos, stack, out, done>>
\* a tree: a chain of elements, each with a word before and a word after the next, and then a last element
RECURSIVE Chains(_)
Chains(n) == IF n = 0 THEN {<<>>} ELSE { <<x>> \o q : x \in Menu, q \in Chains(n - 1) }
Init == /\ fault \in Faults
        /\ tree \in UNION { Chains(n) : n \in 1..Depth }
        /\ pos = 1 /\ stack = <<Default>> /\ out = <<>> /\ done = FALSE
N == Len(tree)
\* words: k before the element inside k, for k in 1..N; then on the way out
Style1(st, k) ==
  LET s == S(tree[k])
      keep(q) == IF fault = "sticky" THEN SelectSeq(q, LAMBDA x : IF x.a \in {"b", "i", "u"} THEN x.v ELSE TRUE) ELSE q
      inherited == IF fault = "drop" /\ s[2] # <<>> THEN Default ELSE st
      new == IF fault = "order" THEN Apply(Apply(inherited, s[2]), s[1]) ELSE Apply(Apply(inherited, keep(s[1])), keep(s[2]))
  IN  IF fault = "outer" THEN [ a \in DOMAIN Default |-> IF st[a] # Default[a] THEN st[a] ELSE new[a] ] ELSE new
Look(k, st, outer) ==
  [ev |-> "tok", k |-> k, looks |-> << [font |-> FontOf(st), size |-> st.s, c |-> Rgb(st.c), rise |-> (st.r * ((IF fault = "rise" THEN outer ELSE st).s \div 10)) \div 100] >>,
   under |-> IF st.u THEN << Rgb(st.c) >> ELSE <<>>, back |-> Rgb(st.bg)]
Enter == /\ ~done /\ pos <= N
         /\ LET st == Style1(stack[1], pos)
            IN  /\ stack' = <<st>> \o stack
                /\ out' = Append(out, Look(pos, st, stack[1]))
         /\ pos' = pos + 1
         /\ UNCHANGED <<fault, tree, done>>
Leave == /\ ~done /\ pos > N /\ Len(stack) > 2
         /\ LET st == IF fault = "leak" THEN stack[1] ELSE stack[2]
            IN  /\ stack' = <<st>> \o Tail(Tail(stack))
                /\ out' = Append(out, Look(pos, st, stack[IF Len(stack) > 2 THEN 3 ELSE 2]))
         /\ pos' = pos + 1
         /\ UNCHANGED <<fault, tree, done>>
End == ~done /\ pos > N /\ Len(stack) <= 2 /\ done' = TRUE /\ UNCHANGED <<fault, tree, pos, stack, out>>
Next == Enter \/ Leave \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Def == [nodes |-> [ k \in 1..N |-> [up |-> k - 1, sets |-> S(tree[k])[1] \o S(tree[k])[2]] ] \o <<>>,
        toks |-> [ k \in 1..(2 * N - 1) |-> IF k <= N THEN k ELSE 2 * N - k ] \o <<>>, marks |-> <<>>]
RECURSIVE BadOf(_, _)
BadOf(st, es) == IF es = <<>> THEN {} ELSE StBad(st, es[1]) \cup BadOf(StStep(st, es[1]), Tail(es))
Verdict == BadOf(StInit(<<Def>>), Append(out, [ev |-> "end"]))
\* what is painted is not what is asked
Hurt == \E k \in DOMAIN out : LET w == StyleOf(Def.nodes, Def.toks[k])
                              IN  out[k].looks[1].font # FontOf(w) \/ out[k].looks[1].size # w.s \/ out[k].looks[1].c # Rgb(w.c)
                                  \/ out[k].looks[1].rise # (w.r * (w.s \div 10)) \div 100 \/ (out[k].under # <<>>) # w.u \/ out[k].back # Rgb(w.bg)
Accepted == (done /\ fault = "none") => Verdict = {} /\ ~Hurt
Sharp == (done /\ Hurt) => Verdict # {}
Ends == <>done
Emit == (done /\ (fault = "none" \/ Hurt)) => PrintT("@SCENARIO " \o ToJson([fault |-> fault, tree |-> tree]))
=============================================================================
