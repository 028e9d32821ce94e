------------------------------- MODULE FlowMC -------------------------------
(* Exhaustive design model of content boxes: a box of one or more columns   *)
(* is filled page by page with lines of text, images and groups.  An image  *)
(* or group that does not fit waits (flow) or ends the column (normal), and *)
(* is tried first wherever the box goes on.  The columns of the last page   *)
(* are as low as they can be.  What it paints is accepted by Flow.tla, and  *)
(* what it paints is rejected when a waiting element gets lost at the end   *)
(* of a page (lose), when it waits although it fits at the start of a       *)
(* column (late), when the columns are not balanced (uneven) or when a      *)
(* column is left although the next line fits (early).  Each definition is  *)
(* a scenario.                                                              *)
EXTENDS Flow, TLC, Json

CONSTANTS Kinds, Cols, MaxEls, PageHeight, Fault
Line == 12210
MBot == 5000
\* full height of an element's pieces, how many it has
Size(q) == CASE q \in {"p1", "p3"} -> Line [] q \in {"f30", "n30"} -> 30000 [] q \in {"f44", "n44"} -> 44000 [] q = "g2" -> 2 * Line
Pieces(q) == CASE q = "p3" -> 3 [] OTHER -> 1
Text(q) == q \in {"p1", "p3"}
Normal(q) == q \in {"n30", "n44"}

VARIABLES els, cols, s, page, atoms, done, hurt
vars == <<els, cols, s, page, atoms, done, hurt>>

ColW == 100000
GapW == 10000
Left(c) == c * (ColW + GapW)
At(t, h) == [t EXCEPT !.y = t.y - (IF t.start THEN 0 ELSE MBot) - h, !.start = FALSE]
Fit(t, h) == At(t, h).y >= t.lim
PieceFit(t, h) == t.y - (IF t.start \/ t.last = t.i THEN 0 ELSE MBot) - h >= t.lim
\* paint piece k of an element
Atom(t, e, k, top, h) == [el |-> e, k |-> k, page |-> t.page, col |-> t.col, top |-> top, bot |-> top - h]
Put(t, e) == LET u == At(t, Size(els[e])) IN [u EXCEPT !.last = e, !.out = Append(@, Atom(t, e, 1, u.y + Size(els[e]), Size(els[e])))]
PutPiece(t) == LET y == t.y - (IF t.start \/ t.last = t.i THEN 0 ELSE MBot)
                   m == t.k = Pieces(els[t.i])
               IN  [t EXCEPT !.y = y - Line, !.start = FALSE, !.last = t.i, !.hurt = @ \/ t.skip, !.out = Append(@, Atom(t, t.i, t.k, y, Line)),
                             !.k = IF m THEN 1 ELSE t.k + 1, !.i = IF m THEN t.i + 1 ELSE t.i]
NextCol(t) == IF t.col = cols - 1 THEN [t EXCEPT !.full = TRUE]
              ELSE [t EXCEPT !.col = @ + 1, !.y = PageHeight, !.start = TRUE, !.t = IF Fault = "late" THEN @ ELSE 1,
                             !.skip = Fault = "late" /\ t.t = Len(t.del) + 1 /\ \E j \in DOMAIN t.del : Size(els[t.del[j]]) <= PageHeight - t.lim]
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
RECURSIVE Fill(_)
Fill(t) ==
  IF t.full THEN t
  ELSE IF t.t <= Len(t.del)
  THEN LET e == t.del[t.t]
       IN  IF Fit(t, Size(els[e])) THEN Fill([Put(t, e) EXCEPT !.del = Without(@, t.t)])
           ELSE IF Normal(els[e]) THEN Fill(NextCol(t)) ELSE Fill([t EXCEPT !.t = @ + 1])
  ELSE IF t.i > Len(els) THEN (IF t.del = <<>> THEN [t EXCEPT !.fin = TRUE] ELSE Fill([NextCol(t) EXCEPT !.t = 1]))
  ELSE LET q == els[t.i]
       IN  IF Text(q)
           THEN IF PieceFit(t, Line + (IF Fault = "early" THEN Line ELSE 0)) THEN Fill(PutPiece(t))
                ELSE Fill([NextCol(t) EXCEPT !.hurt = @ \/ (Fault = "early" /\ PieceFit(t, Line + 300))])
           ELSE IF Fit(t, Size(q)) THEN Fill([Put(t, t.i) EXCEPT !.i = @ + 1])
           ELSE LET u == [t EXCEPT !.del = Append(@, t.i), !.t = Len(t.del) + 2, !.i = @ + 1]
                IN  IF Normal(q) THEN Fill(NextCol(u)) ELSE Fill(u)

RECURSIVE SeqsUpTo(_)
SeqsUpTo(n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup { Append(q, k) : q \in SeqsUpTo(n - 1), k \in Kinds }
Init == /\ els \in SeqsUpTo(MaxEls) \ {<<>>}
        /\ cols \in Cols
        /\ s = [i |-> 1, k |-> 1, del |-> <<>>]
        /\ page = 1 /\ atoms = <<>> /\ done = FALSE /\ hurt = FALSE
Start(lim) == [i |-> s.i, k |-> s.k, del |-> s.del, t |-> 1, col |-> 0, y |-> PageHeight, start |-> TRUE, last |-> 0, skip |-> FALSE, lim |-> lim, full |-> FALSE,
               fin |-> FALSE, out |-> <<>>, page |-> page, hurt |-> FALSE]
\* the highest bottom that everything left fits above, in steps
Limits == { 1000 * j : j \in 0..(PageHeight \div 1000) }
Bottom(t) == Min({ t.out[j].bot : j \in DOMAIN t.out } \cup {PageHeight})
Page == /\ ~done /\ page < 9
        /\ LET a == Fill(Start(0))
               L == Max({ m \in Limits : Fill(Start(m)).fin })
               b == IF a.fin /\ cols > 1 /\ Fault # "uneven" THEN Fill(Start(L)) ELSE a
               \* the waiting elements that go on to the next page
               del == IF Fault = "lose" /\ Len(b.del) > 0 THEN Tail(b.del) ELSE b.del
           IN  /\ atoms' = atoms \o b.out
               /\ done' = b.fin
               /\ hurt' = (hurt \/ (b.hurt /\ ~b.fin) \/ (~b.fin /\ del # b.del) \/ (b.fin /\ Fault = "uneven" /\ (\A j \in DOMAIN els : Text(els[j])) /\ Bottom(Fill(Start(L))) - Bottom(a) > Line - 1))
               /\ s' = [i |-> b.i, k |-> b.k, del |-> del]
               /\ page' = page + 1
        /\ UNCHANGED <<els, cols>>
Next == Page
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* as the trace judge sees it: a group of two lines is two elements
Two(q) == q = "g2"
RECURSIVE Idx(_)
Idx(n) == IF n = 1 THEN 1 ELSE Idx(n - 1) + (IF Two(els[n - 1]) THEN 2 ELSE 1)
ElOf(n, j) == LET q == els[n]
                  float == ~Text(q)
              IN  [box |-> 1, kind |-> IF q \in {"p1", "p3", "g2"} THEN "p" ELSE "i", grp |-> IF Two(q) THEN Idx(n) ELSE 0,
                   unit |-> IF float THEN Idx(n) ELSE 0, mt |-> 0, mb |-> IF Two(q) /\ j = 1 THEN 0 ELSE MBot, ml |-> 0, mr |-> 0,
                   n |-> Pieces(q), need |-> Size(q), min |-> Size(q), full |-> 0, low |-> 0, pw |-> 0, ph |-> 0, normal |-> Normal(q)]
RECURSIVE Els(_)
Els(n) == IF n > Len(els) THEN <<>> ELSE <<ElOf(n, 1)>> \o (IF Two(els[n]) THEN <<ElOf(n, 2)>> ELSE <<>>) \o Els(n + 1)
Def == [page |-> [x |-> 0, w |-> cols * ColW + (cols - 1) * GapW, top |-> PageHeight, bot |-> 0],
        boxes |-> << [chain |-> <<1>>, cols |-> cols, gap |-> GapW, mt |-> 0, mb |-> MBot, nest |-> IF cols > 1 THEN 1 ELSE 0] >>,
        els |-> Els(1)]
Event(a, j) == LET h == IF Two(els[a.el]) THEN Line ELSE a.top - a.bot
                   top == IF j = 2 THEN a.top - Line ELSE a.top
               IN  [ev |-> "atom", el |-> Idx(a.el) + j - 1, k |-> a.k, page |-> a.page, x1 |-> Left(a.col),
                    x2 |-> Left(a.col) + ColW, top |-> top, bot |-> top - h, slack |-> 0]
Events == LET all == { Event(atoms[x], j) : x \in DOMAIN atoms, j \in {1, 2} }
              real == { e \in all : e.el <= Len(Els(1)) /\ \E x \in DOMAIN atoms : e = Event(atoms[x], 1) \/ (Two(els[atoms[x].el]) /\ e = Event(atoms[x], 2)) }
              before(a, b) == a.el < b.el \/ (a.el = b.el /\ a.k < b.k)
              n(e) == Cardinality({ f \in real : before(f, e) }) + 1
          IN  [ i \in 1..Cardinality(real) |-> CHOOSE e \in real : n(e) = i ]
RECURSIVE BadOf(_, _)
BadOf(st, es) == IF es = <<>> THEN {} ELSE FlBad(st, es[1]) \cup BadOf(FlStep(st, es[1]), Tail(es))
Verdict == BadOf(FlInit(<<Def>>), Append(Events, [ev |-> "end"]))
Accepted == (done /\ Fault = "none") => Verdict = {}
Sharp == (done /\ hurt /\ Fault # "none") => Verdict # {}
Ends == <>done
Emit == (done /\ (Fault = "none" \/ hurt)) => PrintT("@SCENARIO " \o ToJson([els |-> els, cols |-> cols]))
=============================================================================
