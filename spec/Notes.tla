------------------------------- MODULE Notes --------------------------------
(* Footnotes: every mark on a page has its number there, and the page       *)
(* carries the notes of its marks under its content.                        *)
(*                                                                          *)
(* Events                                                                   *)
(*   def [toks, notes, area, cols, tall] toks, in source order: par, el     *)
(*         (paragraph, element of its section), sec, loose (may be moved as *)
(*         a whole), note (0 or the note marked there); notes: number of    *)
(*         words of each; area [x1, x2, top, bot]; cols: left edges of the  *)
(*         columns of each section; tall: no notes of a page, with a group, *)
(*         are higher                                                      *)
(*   page [toks, marks, words, labels, other]  toks, sorted by k: x1, x2,   *)
(*         top, bot; marks: k (the word marked), text; words (of notes):    *)
(*         n, i, x1, x2, top, bot; labels: n (the note beside it), text,    *)
(*         bot; other:                                                      *)
(*         number of words that are nothing of these                        *)
(*   refused   building stopped as the notes of a page leave no room        *)
(*   end                                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Clause(holds, name) == IF holds THEN {} ELSE {name}
Tol == 60
RECURSIVE SetMax(_, _)
SetMax(S, z) == IF S = {} THEN z ELSE LET x == CHOOSE y \in S : TRUE IN SetMax(S \ {x}, IF x > z THEN x ELSE z)
Figure(d) == CASE d = 0 -> "0" [] d = 1 -> "1" [] d = 2 -> "2" [] d = 3 -> "3" [] d = 4 -> "4" [] d = 5 -> "5" [] d = 6 -> "6" [] d = 7 -> "7" [] d = 8 -> "8" [] OTHER -> "9"
RECURSIVE Number(_)
Number(n) == IF n < 10 THEN Figure(n) ELSE Number(n \div 10) \o Figure(n % 10)

NtInit(trace) == [d |-> trace[1], p |-> 0, seen |-> {}, sec |-> 0, refused |-> FALSE]
NtStep(st, e) ==
  CASE e.ev = "page" -> [st EXCEPT !.p = @ + 1, !.seen = @ \cup { e.toks[i].k : i \in DOMAIN e.toks }]
    [] e.ev = "refused" -> [st EXCEPT !.refused = TRUE]
    [] OTHER -> st

\* k is painted on an earlier page than j < k, where it may not be
Before(d, j, k) == d.toks[j].par = d.toks[k].par \/ (d.toks[j].el # d.toks[k].el /\ ~d.toks[j].loose /\ ~d.toks[k].loose)
\* reading order of words on a page: columns from left to right, lines from top to bottom
ColOf(d, t) == LET C == d.cols[d.toks[t.k].sec] IN Cardinality({ i \in DOMAIN C : C[i] <= t.x1 + Tol })
Reads(d, a, b) == \/ ColOf(d, a) < ColOf(d, b)
                  \/ ColOf(d, a) = ColOf(d, b) /\ (a.bot > b.bot + Tol \/ ((a.bot - b.bot <= Tol /\ b.bot - a.bot <= Tol) /\ a.x1 <= b.x1))
TokAt(e, k) == e.toks[CHOOSE i \in DOMAIN e.toks : e.toks[i].k = k]
\* marks are numbered column after column, in the order of the source where nothing may overtake there, else of reading
Loose(d, e) == \E i \in DOMAIN e.marks : d.toks[e.marks[i].k].loose
Ahead(d, e, m, n) == LET a == TokAt(e, m.k)
                         b == TokAt(e, n.k)
                     IN  IF ColOf(d, a) # ColOf(d, b) THEN ColOf(d, a) < ColOf(d, b) ELSE IF Loose(d, e) THEN m.k # n.k /\ Reads(d, a, b) ELSE m.k < n.k
Rank(d, e, m) == 1 + Cardinality({ i \in DOMAIN e.marks : Ahead(d, e, e.marks[i], m) })
NoteAt(d, e, r) == { d.toks[m.k].note : m \in { e.marks[i] : i \in { j \in DOMAIN e.marks : Rank(d, e, e.marks[j]) = r } } }

NtBad(st, e) ==
  CASE e.ev = "malformed" -> {"WellFormed_" \o e.rule}
    [] e.ev = "refused" -> Clause(st.d.tall >= st.d.area.top - st.d.area.bot - 60000, "NotesThatFitAreNotRefused")
    [] e.ev = "end" -> IF st.refused THEN {} ELSE Clause(st.seen = DOMAIN st.d.toks, "ContentNotLost")
    [] e.ev = "page" ->
         LET d == st.d
             T == e.toks
             W == e.words
             K == { T[i].k : i \in DOMAIN T }
             here == { d.toks[T[i].k].note : i \in DOMAIN T } \ {0}
             notes == { W[i].n : i \in DOMAIN W }
             marked == { e.marks[i].k : i \in DOMAIN e.marks }
         IN  Clause(e.other = 0, "NothingElse")
             \cup Clause(K \cap st.seen = {} /\ \A i \in 1..(Len(T) - 1) : T[i].k < T[i + 1].k, "ContentNotRepeated")
             \cup Clause(T # <<>> => \A j \in { q \in st.seen : q > T[1].k } : \A k \in K : ~(k < j /\ Before(d, k, j)), "ContentInOrder")
             \cup Clause(\A i \in 1..(Len(T) - 1) : d.toks[T[i].k].par = d.toks[T[i + 1].k].par => Reads(d, T[i], T[i + 1]), "ContentInOrderOnThePage")
             \cup Clause(\A i \in DOMAIN T : T[i].top <= d.area.top + Tol /\ T[i].bot >= d.area.bot - Tol, "ContentInsideTheMargins")
             \* every word that has a note is marked, and no other
             \cup Clause(marked = { k \in K : d.toks[k].note # 0 } /\ Len(e.marks) = Cardinality(marked), "MarksAtTheirWords")
             \cup (IF \E i \in DOMAIN e.marks : e.marks[i].k \notin K THEN {} ELSE
                   Clause(\A i \in DOMAIN e.marks : e.marks[i].text = Number(Rank(d, e, e.marks[i])), "MarksNumberedInOrder")
                   \cup Clause(\A r \in 1..Len(e.labels) : NoteAt(d, e, r) = {e.labels[r].n} /\ e.labels[r].text = Number(r), "NotesNumberedInOrder"))
             \cup Clause(notes = here, "NotesOfTheMarksOfThePage")
             \cup Clause({ e.labels[i].n : i \in DOMAIN e.labels } = here /\ Len(e.labels) = Cardinality(here), "OneNumberForEachNote")
             \cup Clause(/\ Cardinality({ i \in DOMAIN W : W[i].i = 1 }) = Cardinality(notes)
                         /\ W # <<>> => W[1].i = 1 /\ W[Len(W)].i = d.notes[W[Len(W)].n]
                         /\ \A i \in 1..(Len(W) - 1) : IF W[i].n = W[i + 1].n THEN W[i + 1].i = W[i].i + 1 ELSE W[i + 1].i = 1 /\ W[i].i = d.notes[W[i].n], "NotesComplete")
             \cup Clause(\A i \in 1..(Len(W) - 1) : W[i].bot > W[i + 1].bot + Tol \/ (W[i].bot >= W[i + 1].bot - Tol /\ W[i].x2 <= W[i + 1].x1 + Tol
                                                                                   /\ W[i].n = W[i + 1].n), "WordsOfNotesInOrder")
             \cup Clause(\A i, j \in DOMAIN e.labels : (i < j) => e.labels[i].bot > e.labels[j].bot + Tol, "NotesUnderEachOther")
             \cup Clause(\A i \in DOMAIN W : W[i].x1 >= d.area.x1 - Tol /\ W[i].x2 <= d.area.x2 + Tol /\ W[i].bot >= d.area.bot - Tol, "NotesInsideTheMargins")
             \cup Clause((W # <<>> /\ T # <<>>) => SetMax({ W[i].top : i \in DOMAIN W }, 0 - 1000000000) <= 0 - SetMax({ 0 - T[i].bot : i \in DOMAIN T }, 0 - 1000000000) + Tol, "NotesUnderTheContent")
    [] OTHER -> {}

NtHit(st, e) ==
  IF e.ev = "refused" THEN {"refused"}
  ELSE IF e.ev # "page" THEN {}
  ELSE LET d == st.d
           N == Len(e.labels)
       IN  (IF N = 0 THEN {"page without notes"} ELSE {"page with notes"})
           \cup (IF N > 9 THEN {"more than nine notes"} ELSE {})
           \cup (IF N > 0 /\ st.p > 0 THEN {"notes on a later page"} ELSE {})
           \cup (IF \E i \in DOMAIN e.labels : e.labels[i].n > 1 /\ i = 1 THEN {"numbers start again"} ELSE {})
           \cup (IF \E i, j \in DOMAIN e.words : e.words[i].n = e.words[j].n /\ e.words[i].bot > e.words[j].bot + Tol THEN {"note of several lines"} ELSE {})
           \cup (IF \E i, j \in DOMAIN e.toks : ColOf(d, e.toks[i]) # ColOf(d, e.toks[j]) /\ d.toks[e.toks[i].k].note # 0 THEN {"marks in columns"} ELSE {})
           \cup (IF \E i \in DOMAIN e.marks : d.toks[e.marks[i].k].loose THEN {"mark in a group"} ELSE {})
           \cup (IF \E i \in DOMAIN e.marks : d.toks[e.marks[i].k].table THEN {"mark in a table"} ELSE {})
           \cup (IF N > 0 /\ \E k \in DOMAIN d.toks : k \notin (st.seen \cup { e.toks[i].k : i \in DOMAIN e.toks })
                                                     /\ \E i \in DOMAIN e.toks : d.toks[e.toks[i].k].par = d.toks[k].par /\ e.toks[i].k < k
                 THEN {"paragraph goes on after a page with notes"} ELSE {})
=============================================================================
