------------------------------- MODULE Links --------------------------------
(* Link areas of the pages of a file.                                       *)
(* Events                                                                   *)
(*   page [messy]    a page starts; messy: words are painted over words     *)
(*   tok [x1, x2, y, b, on, px, t, some, all]  a word painted on the page, in   *)
(*         the order of painting: its extent, baseline with and without its *)
(*         rise, whether it goes on on the line of the word before, and the *)
(*         right end of the                                                 *)
(*         word before it on its line (x1 if there is none), the targets it *)
(*         is linked to, and the targets that some, and that all of the     *)
(*         white space before it is linked to                               *)
(*   annot [t, obj, x1, x2, y1, y2]  a link annotation: target, object that *)
(*         holds the target if it is a uri (0: none)                        *)
(*   endpage                                                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Clause(holds, name) == IF holds THEN {} ELSE {name}
Tol == 40
LkInit(trace) == [toks |-> <<>>, annots |-> <<>>, messy |-> FALSE, uris |-> <<>>]
Has(s, t) == \E i \in DOMAIN s : s[i] = t
MaxX(S) == CHOOSE x \in S : \A o \in S : o <= x

On(a, k) == a.y1 <= k.y + Tol /\ k.y - Tol <= a.y2
\* lo..hi is covered by the areas A of the line
RECURSIVE Covers(_, _, _)
Covers(A, lo, hi) == IF lo >= hi - Tol THEN TRUE
                     ELSE LET R == { a.x2 : a \in { b \in A : b.x1 <= lo + Tol /\ b.x2 > lo + Tol } }
                          IN  IF R = {} THEN FALSE ELSE Covers(A, MaxX(R), hi)

\* word i goes on on the line of word i - 1
SameLine(T, i) == i > 1 /\ T[i].on
LeftLimit(T, i, t) == IF Has(T[i].some, t) THEN T[i].px ELSE T[i].x1
RightLimit(T, i, t) == IF i < Len(T) /\ SameLine(T, i + 1) /\ Has(T[i + 1].some, t) THEN T[i + 1].x1 ELSE T[i].x2

\* an area starts at the start of a linked word and ends at the end of one, with only linked words between
Explained(T, a) ==
  \E i \in DOMAIN T :
     /\ Has(T[i].t, a.t) /\ On(a, T[i])
     /\ a.x1 >= LeftLimit(T, i, a.t) - Tol /\ a.x1 <= T[i].x1 + Tol
     /\ \E j \in i..Len(T) :
           /\ Has(T[j].t, a.t) /\ T[j].b = T[i].b
           /\ a.x2 >= T[j].x2 - Tol /\ a.x2 <= RightLimit(T, j, a.t) + Tol
           /\ \A k \in i..j : Has(T[k].t, a.t) /\ (k > i => SameLine(T, k))

LkBad(st, e) ==
  CASE e.ev = "endpage" ->
         LET T == st.toks
             A == { st.annots[k] : k \in DOMAIN st.annots }
             Of(t, k) == { a \in A : a.t = t /\ On(a, k) }
             Twice(i, t) == { k \in DOMAIN st.annots : LET a == st.annots[k]
                                                       IN a.t = t /\ On(a, T[i]) /\ a.x1 <= T[i].x1 + Tol /\ a.x2 >= T[i].x2 - Tol }
         IN  Clause(\A i \in DOMAIN T : \A m \in DOMAIN T[i].t :
                      LET t == T[i].t[m]
                      IN  /\ Covers(Of(t, T[i]), T[i].x1, T[i].x2)
                          /\ (SameLine(T, i) /\ Has(T[i].all, t) /\ Has(T[i - 1].t, t))
                             => Covers(Of(t, T[i]) \cup Of(t, T[i - 1]), T[i].px, T[i].x1), "EveryLinkedWordIsCovered")
             \cup Clause(\A k \in DOMAIN st.annots : Explained(T, st.annots[k]), "NoOtherLinkAreas")
             \cup Clause(st.messy \/ \A i \in DOMAIN T : \A m \in DOMAIN T[i].t : Cardinality(Twice(i, T[i].t[m])) <= 1, "EachAreaOnce")
    [] e.ev = "annot" ->
         Clause(e.obj = 0 \/ (\A k \in DOMAIN st.uris : st.uris[k][1] = e.t => st.uris[k][2] = e.obj), "UriStoredOnce")
    [] e.ev = "malformed" -> {"WellFormed_" \o e.rule}
    [] OTHER -> {}

LkStep(st, e) ==
  CASE e.ev = "page" -> [st EXCEPT !.toks = <<>>, !.annots = <<>>, !.messy = e.messy]
    [] e.ev = "tok" -> [st EXCEPT !.toks = Append(@, e)]
    [] e.ev = "annot" -> [st EXCEPT !.annots = Append(@, e),
                                    !.uris = IF e.obj = 0 \/ Has(@, <<e.t, e.obj>>) THEN @ ELSE Append(@, <<e.t, e.obj>>)]
    [] OTHER -> st

LkHit(st, e) ==
  CASE e.ev = "tok" -> (IF Len(e.t) > 1 THEN {"link in a link"} ELSE {})
                       \cup (IF e.t # <<>> /\ st.toks # <<>> /\ Has(st.toks[Len(st.toks)].t, e.t[1])
                             THEN (IF st.toks[Len(st.toks)].b = e.b THEN {"link of two words"} ELSE {"link over two lines"}) ELSE {})
    [] e.ev = "annot" /\ e.obj # 0 /\ Has(st.uris, <<e.t, e.obj>>) -> {"uri used again"}
    [] e.ev = "annot" /\ e.obj = 0 -> {"link to a label"}
    [] OTHER -> {}
=============================================================================
