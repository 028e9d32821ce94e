------------------------------- MODULE NotesMC ------------------------------
(* Exhaustive design model of footnotes: paragraphs of four lines with      *)
(* notes, put on pages by a process that fills a page with content, makes   *)
(* room for the notes marked there, and fills it again until the marks are  *)
(* the ones it made room for.  Its pages are accepted by the clauses of     *)
(* Notes.tla, and rejected when it prints the notes of the first filling    *)
(* (first), makes no room (over), makes room and goes on from the first     *)
(* filling (lose) or from the start of the page (again), numbers marks      *)
(* through the document (count), keeps the numbers of the first filling     *)
(* (stale), or puts the notes in another order (order).  Each definition is *)
(* a scenario.                                                              *)
EXTENDS Notes, TLC, Json

CONSTANTS Kinds, MaxPars, Columns, Faults
Line == 12210
Gap == 5000
High == 120000
Width == 360000
Room == 10000
\* lines with a note: <<line, words of the note>>; notes of more than 30 words take two lines
NotesOf(q) == CASE q = "a" -> <<>> [] q = "b" -> << <<1, 2>> >> [] q = "c" -> << <<4, 9>> >> [] q = "d" -> << <<2, 1>>, <<3, 3>> >>
NoteHigh(n) == (IF n > 8 THEN 2 * Line ELSE Line) + 3000
VARIABLES fault, pars, k, p, n, out, done, hurt
vars == <<fault, pars, k, p, n, out, done, hurt>>
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, m) == IF m = 0 THEN {<<>>} ELSE SeqsUpTo(S, m - 1) \cup { Append(q, x) : q \in SeqsUpTo(S, m - 1), x \in S }
Total == 4 * Len(pars)
ParOf(i) == 1 + ((i - 1) \div 4)
LineOf(i) == 1 + ((i - 1) % 4)
NoteAtLine(i) == { j \in DOMAIN NotesOf(pars[ParOf(i)]) : NotesOf(pars[ParOf(i)])[j][1] = LineOf(i) }
Marked(i) == NoteAtLine(i) # {}
WordsAt(i) == NotesOf(pars[ParOf(i)])[CHOOSE j \in NoteAtLine(i) : TRUE][2]
RECURSIVE NotesTo(_)
NotesTo(m) == IF m = 0 THEN 0 ELSE Len(NotesOf(pars[m])) + NotesTo(m - 1)
NoteNo(i) == NotesTo(ParOf(i) - 1) + Cardinality({ j \in DOMAIN NotesOf(pars[ParOf(i)]) : NotesOf(pars[ParOf(i)])[j][1] <= LineOf(i) })
Def == [toks |-> [ i \in 1..Total |-> [par |-> ParOf(i), el |-> ParOf(i), sec |-> 1, loose |-> FALSE, table |-> FALSE, note |-> IF Marked(i) THEN NoteNo(i) ELSE 0] ] \o <<>>,
        notes |-> LET M == SelectSeq([ i \in 1..Total |-> i ], Marked) IN [ i \in DOMAIN M |-> WordsAt(M[i]) ] \o <<>>,
        area |-> [x1 |-> 0, x2 |-> Width, top |-> High, bot |-> 0], cols |-> << IF Columns = 2 THEN <<0, 190000>> ELSE <<0>> >>, tall |-> 0]
Init == /\ fault \in Faults
        /\ pars \in SeqsUpTo(Kinds, MaxPars) \ {<<>>}
        /\ k = 0 /\ p = 0 /\ n = 0 /\ out = <<>> /\ done = FALSE /\ hurt = FALSE

\* places of the lines from i on in a column of height h: how many fit
RECURSIVE Fill(_, _)
Fill(i, y) == IF i > Total \/ y < Line THEN <<>>
              ELSE <<y>> \o Fill(i + 1, y - Line - (IF LineOf(i) = 4 THEN Gap ELSE 0))
Column(i, h) == LET f == Fill(i, h) IN [ j \in DOMAIN f |-> [k |-> i + j - 1, y |-> f[j] + (High - h)] ] \o <<>>
Page(i, h) == LET c == Column(i, h)
                  a == [ j \in DOMAIN c |-> [k |-> c[j].k, y |-> c[j].y, x |-> 0] ] \o <<>>
                  d == Column(i + Len(c), h)
              IN  IF Columns = 1 THEN a ELSE a \o [ j \in DOMAIN d |-> [k |-> d[j].k, y |-> d[j].y, x |-> 190000] ]
MarkedIn(f) == SelectSeq([ j \in DOMAIN f |-> f[j].k ], Marked)
RECURSIVE Need(_)
Need(q) == IF q = <<>> THEN 0 ELSE NoteHigh(WordsAt(q[1])) + Need(Tail(q))
\* the filling whose marks are the ones there is room for
RECURSIVE Settle(_, _, _)
Settle(i, room, marks) == LET f == Page(i, High - room - Room)
                              m == MarkedIn(f)
                          IN  IF Len(m) <= Len(marks) /\ SubSeq(marks, 1, Len(m)) = m THEN [f |-> f, room |-> room]
                              ELSE Settle(i, (IF Need(m) > room THEN Need(m) ELSE room + 1000), m)
Add ==
  /\ ~done /\ k < Total
  /\ LET first == Page(k + 1, High)
         m1 == MarkedIn(first)
         s == IF m1 = <<>> \/ fault = "over" THEN [f |-> first, room |-> Need(m1)] ELSE Settle(k + 1, Need(m1), m1)
         f == s.f
         m == MarkedIn(f)
         shown == IF fault = "first" THEN m1 ELSE m
         base == IF fault = "count" THEN n ELSE 0
         noteY(r) == s.room - Need(SubSeq(shown, 1, r - 1))
         order == [ r \in DOMAIN shown |-> IF fault = "order" THEN Len(shown) + 1 - r ELSE r ] \o <<>>
         nos == [ r \in DOMAIN shown |-> NoteNo(shown[order[r]]) ] \o <<>>
         words(r) == [ w \in 1..WordsAt(shown[order[r]]) |->
                        [n |-> nos[r], i |-> w, x1 |-> 10000 + 40000 * ((w - 1) % 8), x2 |-> 40000 + 40000 * ((w - 1) % 8),
                         top |-> noteY(r) - Line * ((w - 1) \div 8) - 1000, bot |-> noteY(r) - Line * ((w - 1) \div 8) - 11000] ]
         flat[r \in 0..Len(shown)] == IF r = 0 THEN <<>> ELSE flat[r - 1] \o words(r)
         e == [ev |-> "page", other |-> 0,
               toks |-> [ j \in DOMAIN f |-> [k |-> f[j].k, x1 |-> f[j].x, x2 |-> f[j].x + 40000, top |-> f[j].y - 1000, bot |-> f[j].y - 11000] ] \o <<>>,
               marks |-> [ j \in DOMAIN m |-> [k |-> m[j], text |-> Number(base + (IF fault = "stale" THEN 1 + Cardinality({ i \in 1..(m[j] - 1) : Marked(i) /\ ParOf(i) = ParOf(m[j]) }) ELSE j))] ] \o <<>>,
               words |-> flat[Len(shown)],
               labels |-> [ r \in DOMAIN shown |-> [n |-> nos[r], text |-> Number(base + r), bot |-> noteY(r) - 11000] ] \o <<>>]
         next == f[Len(f)].k
         skip == fault = "lose" /\ Len(first) > Len(f)
         back == fault = "again" /\ p > 0 /\ m1 # <<>> /\ Len(f) > 1
     IN  /\ f # <<>>
         /\ out' = Append(out, e)
         /\ k' = IF skip THEN first[Len(first)].k ELSE IF back /\ ~hurt THEN next - 1 ELSE next
         /\ n' = n + Len(m)
         /\ p' = p + 1
         /\ hurt' = (hurt \/ skip \/ (back /\ k' < Total) \/ (fault = "first" /\ m1 # m) \/ (fault = "over" /\ m # <<>> /\ \E j \in DOMAIN f : f[j].y - 11000 < s.room - 1100)
                          \/ (fault = "count" /\ n > 0 /\ m # <<>>) \/ (fault = "stale" /\ \E j \in DOMAIN e.marks : e.marks[j].text # Number(j))
                          \/ (fault = "order" /\ Len(m) > 1))
  /\ UNCHANGED <<fault, pars, done>>
End == ~done /\ k = Total /\ done' = TRUE /\ UNCHANGED <<fault, pars, k, p, n, out, hurt>>
Next == Add \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE BadOf(_, _)
BadOf(st, es) == IF es = <<>> THEN {} ELSE NtBad(st, es[1]) \cup BadOf(NtStep(st, es[1]), Tail(es))
Verdict == BadOf(NtInit(<<Def>>), Append(out, [ev |-> "end"]))
Accepted == (done /\ fault = "none") => Verdict = {}
Sharp == (done /\ hurt /\ fault # "none") => Verdict # {}
Ends == <>done
Emit == (done /\ (fault = "none" \/ hurt)) => PrintT("@SCENARIO " \o ToJson([fault |-> fault, pars |-> pars, cols |-> Columns]))
=============================================================================
