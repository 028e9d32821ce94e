------------------------------ MODULE GroupMC -------------------------------
(* Exhaustive design model of a group: lines and images after some lines of *)
(* text in a column.  It is put there with its images as they are, or with  *)
(* smaller ones that make it fit, or else moves on as a whole.  What it     *)
(* paints is accepted by the clauses for groups of Flow.tla, and rejected   *)
(* when the group is split (split), its images are smaller than they may be *)
(* (small), get narrower less than lower (wide) or keep their height where  *)
(* that does not fit (high), or when its parts change places (swap).  Each  *)
(* definition is a scenario.                                                *)
EXTENDS Flow, TLC, Json

CONSTANTS Kinds, MaxEls, MaxBefore, PageHeight, Fault
Line == 12210
MBot == 5000
ColW == 100000
Img(q) == q \in {"i30", "m30", "m44"}
FullOf(q) == CASE q \in {"i30", "m30"} -> 30000 [] q = "m44" -> 44000 [] q = "p1" -> Line [] q = "p2" -> 2 * Line
Low(q) == CASE q = "m30" -> 10000 [] q = "m44" -> 20000 [] OTHER -> FullOf(q)
Pieces(q) == IF q = "p2" THEN 2 ELSE 1

VARIABLES els, before, after, out, done, hurt
vars == <<els, before, after, out, done, hurt>>
RECURSIVE SeqsUpTo(_)
SeqsUpTo(n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup { Append(q, k) : q \in SeqsUpTo(n - 1), k \in Kinds }
RECURSIVE SumFull(_)
SumFull(q) == IF q = <<>> THEN 0 ELSE FullOf(q[1]) + SumFull(Tail(q))
RECURSIVE SumLow(_)
SumLow(q) == IF q = <<>> THEN 0 ELSE Low(q[1]) + SumLow(Tail(q))
Margins(q) == MBot * (Len(q) - 1)
HighOf(q) == SumFull(q) + Margins(q)
LowOf(q) == SumLow(q) + Margins(q)
Init == /\ els \in { q \in SeqsUpTo(MaxEls) \ {<<>>} : LowOf(q) <= PageHeight - 1000 }
        /\ before \in 0..MaxBefore
        /\ after \in {0, 2}
        /\ out = <<>> /\ done = FALSE /\ hurt = FALSE

\* pieces of one element, of an image with height h
PiecesAt(i, page, y, h) ==
  LET q == els[i]
      low == IF Fault = "small" /\ Img(q) /\ h < FullOf(q) THEN Low(q) - 2000 ELSE h
      w == (100 * low) \div (FullOf(q) \div 1000)
      wide == IF Fault = "wide" /\ h < FullOf(q) - 1000 THEN w + 5000 ELSE w
  IN  IF Img(q) THEN << [el |-> i, k |-> 1, page |-> page, x1 |-> (ColW - wide) \div 2, x2 |-> (ColW - wide) \div 2 + wide, top |-> y, bot |-> y - low] >>
      ELSE [ k \in 1..Pieces(q) |-> [el |-> i, k |-> k, page |-> page, x1 |-> 0, x2 |-> 30000, top |-> y - Line * (k - 1), bot |-> y - Line * k] ]
RECURSIVE Place(_, _, _, _)
\* elements from i on, with room points to give to images beyond their least heights
Place(i, page, y, room) ==
  IF i > Len(els) THEN <<>>
  ELSE LET q == els[i]
           more == Min({ room, FullOf(q) - Low(q) })
           h == IF Fault = "high" THEN FullOf(q) ELSE Low(q) + more
           split == Fault = "split" /\ y - h < 0
           y2 == IF split THEN PageHeight ELSE y
       IN  PiecesAt(i, IF split THEN page + 1 ELSE page, y2, h) \o Place(i + 1, IF split THEN page + 1 ELSE page, y2 - h - MBot, room - more)
RoomLeft(y) == IF y < 0 THEN 0 ELSE y
Start == PageHeight - before * Line
Y == IF before = 0 THEN Start ELSE Start - MBot
Here == LowOf(els) <= Y \/ Fault = "split" \/ (Fault = "high" /\ Y > 20000)
Top == IF Here THEN Y ELSE PageHeight
Extra1 == RoomLeft(Top - LowOf(els))
Group == LET g == Place(1, IF Here THEN 1 ELSE 2, Top, Extra1)
         IN  IF Fault = "swap" /\ Len(g) > 1 THEN [g EXCEPT ![1] = [@ EXCEPT !.top = g[Len(g)].top, !.bot = g[Len(g)].bot],
                                                             ![Len(g)] = [@ EXCEPT !.top = g[1].top, !.bot = g[1].bot]] ELSE g
Put == /\ ~done
       /\ out' = Group
       /\ done' = TRUE
       /\ hurt' = CASE Fault = "split" -> LowOf(els) > Y /\ \E a, b \in 1..Len(Group) : Group[a].page # Group[b].page
                    [] Fault \in {"small", "wide"} -> \E i \in DOMAIN Group : Img(els[Group[i].el]) /\ Group[i].top - Group[i].bot < FullOf(els[Group[i].el]) - 1000
                    [] Fault = "high" -> \E i \in DOMAIN Group : Group[i].bot < 0 - 1000
                    [] Fault = "swap" -> Len(Group) > 1
                    [] OTHER -> FALSE
       /\ UNCHANGED <<els, before, after>>
Next == Put
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

First == IF before = 0 THEN 1 ELSE 2      \* index of the group's first element
ElOf(i) == LET q == els[i]
               img == Img(q)
           IN  [box |-> 1, kind |-> IF img THEN "i" ELSE "p", grp |-> First, unit |-> First, mt |-> 0, mb |-> MBot, ml |-> 0, mr |-> 0,
                n |-> Pieces(q), need |-> LowOf(els), min |-> LowOf(els), full |-> IF img THEN FullOf(q) ELSE 0, low |-> IF img THEN Low(q) ELSE 0,
                pw |-> IF img THEN 100 ELSE 0, ph |-> IF img THEN FullOf(q) \div 1000 ELSE 0, normal |-> FALSE]
Text(n) == [ElOf(1) EXCEPT !.kind = "p", !.grp = 0, !.unit = 0, !.n = n, !.need = Line, !.min = Line]
Def == [page |-> [x |-> 0, w |-> ColW, top |-> PageHeight, bot |-> 0],
        boxes |-> << [chain |-> <<1>>, cols |-> 1, gap |-> 0, mt |-> 0, mb |-> MBot, nest |-> 0] >>,
        els |-> (IF before = 0 THEN <<>> ELSE <<Text(before)>>) \o [i \in DOMAIN els |-> ElOf(i)]]
Ev(a) == [ev |-> "atom", slack |-> 0] @@ a
Events == (IF before = 0 THEN <<>>
           ELSE [k \in 1..before |-> Ev([el |-> 1, k |-> k, page |-> 1, x1 |-> 0, x2 |-> 30000, top |-> PageHeight - Line * (k - 1), bot |-> PageHeight - Line * k])])
          \o [i \in DOMAIN out |-> Ev([out[i] EXCEPT !.el = @ + First - 1])]
RECURSIVE BadOf(_, _)
BadOf(st, es) == IF es = <<>> THEN {} ELSE GrBad(st, es[1]) \cup BadOf(FlStep(st, es[1]), Tail(es))
Verdict == BadOf(FlInit(<<Def>>), Append(Events, [ev |-> "end"]))
Accepted == (done /\ Fault = "none") => Verdict = {}
Sharp == (done /\ hurt /\ Fault # "none") => Verdict # {}
Ends == <>done
Emit == (done /\ (Fault = "none" \/ hurt)) => PrintT("@SCENARIO " \o ToJson([els |-> els, before |-> before, after |-> after]))
=============================================================================
