------------------------------- MODULE TableMC ------------------------------
(* Exhaustive design model of tables: rows are laid one after another, what *)
(* does not fit of the cells goes on where the next page starts, cells that *)
(* span rows make the last of them as high as they need.  What it paints is *)
(* accepted by Table.tla; what it paints is rejected when the rest of a     *)
(* cell that spans rows is lost at a page break (lose) or its last line     *)
(* painted again (again), when a row is only as high as its lowest cell     *)
(* (low), when cells do not keep their bottom margin from the page (past),  *)
(* when the edges inside a span are painted (inside), when the bottom of a  *)
(* page's part is not (open), when a continued cell has no fill (bare) or   *)
(* when only the first row of a span is filled (short).                     *)
EXTENDS Table, Json

CONSTANTS Shapes, Sizes, Starts, PageHeight, Fault
Line == 12210
First == 11100
Pad == 5250
Bw == 500

CellAt(q, m) == [row |-> q[1], col |-> q[2], rs |-> q[3], cs |-> q[4], kind |-> "t", n |-> m, mt |-> 5000, mr |-> 5000, mb |-> 5000, ml |-> 5000,
                 pw |-> 1, ph |-> 1, fill |-> IF q[1] = 0 /\ q[2] = 0 THEN "red" ELSE ""]
ShapeOf(s) ==
  CASE s = "grid" -> << <<0, 0, 1, 1>>, <<0, 1, 1, 1>>, <<1, 0, 1, 1>>, <<1, 1, 1, 1>> >>
    [] s = "rows" -> << <<0, 0, 2, 1>>, <<0, 1, 1, 1>>, <<1, 1, 1, 1>>, <<2, 0, 1, 1>>, <<2, 1, 1, 1>> >>
    [] s = "cols" -> << <<0, 0, 1, 1>>, <<0, 1, 1, 1>>, <<1, 0, 1, 2>> >>
    [] s = "both" -> << <<0, 0, 2, 2>>, <<0, 2, 1, 1>>, <<1, 2, 1, 1>>, <<2, 0, 1, 1>>, <<2, 1, 1, 2>> >>
    [] s = "after" -> << <<0, 0, 2, 1>>, <<0, 1, 1, 2>>, <<1, 1, 1, 2>> >>
ColsOf(s) == IF s \in {"both", "after"} THEN 3 ELSE 2
RowsOf(s) == IF s \in {"rows", "both"} THEN 3 ELSE 2

VARIABLES shape, n, r, page, y, k, bot, tops, atoms, done
vars == <<shape, n, r, page, y, k, bot, tops, atoms, done>>

Sh == ShapeOf(shape)
X == DOMAIN Sh
C(x) == CellAt(Sh[x], n[x])
SpansRow(x) == C(x).row <= r /\ LastRow(C(x)) >= r
\* lines of a cell that fit below y
Fits(h) == { m \in 0..9 : m = 0 \/ 2 * Pad + First + (m - 1) * Line <= h + (IF Fault = "past" THEN Pad ELSE 0) }
Init == /\ shape \in Shapes
        /\ n \in [DOMAIN ShapeOf(shape) -> Sizes]
        /\ y \in Starts
        /\ r = 0 /\ page = 1 /\ k = [x \in DOMAIN ShapeOf(shape) |-> 0]
        /\ bot = [x \in DOMAIN ShapeOf(shape) |-> 99999]    \* bottom of the part on this page
        /\ tops = (<<1, 0>> :> y) /\ atoms = <<>> /\ done = FALSE
NewPage == r = 0 \/ (page > 1 /\ y = PageHeight)
LinesFrom(x, from, m, top) == [ j \in 1..m |-> [cell |-> x, k |-> from + j, page |-> page, top |-> top - Pad - 1100 - (j - 1) * Line,
                                                bot |-> top - Pad - First - (j - 1) * Line] ]
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
LayRow ==
  /\ ~done
  /\ LET act == { x \in X : SpansRow(x) /\ (C(x).row = r \/ NewPage) /\ k[x] < n[x] }
         m == [x \in X |-> IF x \in act THEN Min({Max(Fits(y)), n[x] - k[x]}) ELSE 0]
         k2 == [x \in X |-> k[x] + m[x]]
         b2 == [x \in X |-> IF m[x] > 0 THEN y - 2 * Pad - First - (m[x] - 1) * Line ELSE bot[x]]
         U == { x \in X : SpansRow(x) /\ k2[x] < n[x] }
         all == \A j \in 0..(ColsOf(shape) - 1) : \E x \in U : C(x).col <= j /\ j < C(x).col + C(x).cs
         cut == all \/ \E x \in U : LastRow(C(x)) = r
         B == { b2[x] : x \in { i \in X : SpansRow(i) /\ b2[i] # 99999 /\ (cut \/ LastRow(C(i)) = r) } }
         low == IF B = {} THEN y ELSE IF Fault = "low" THEN Min({Max(B), y}) ELSE Min(B \cup {y})
         lost(x) == cut /\ Fault = "lose" /\ x \in U /\ C(x).rs > 1
         more(x) == cut /\ Fault = "again" /\ x \in U /\ k2[x] > 0
     IN  /\ atoms' = atoms \o Concat([x \in X |-> LinesFrom(x, k[x], m[x], y)])
         /\ k' = [x \in X |-> IF lost(x) THEN n[x] ELSE IF more(x) THEN k2[x] - 1 ELSE k2[x]]
         /\ IF cut THEN /\ page' = page + 1 /\ y' = PageHeight /\ bot' = [x \in X |-> 99999] /\ r' = r /\ done' = FALSE
                        /\ tops' = (<<page + 1, r>> :> PageHeight) @@ (<<page, r + 1>> :> low) @@ tops
            ELSE /\ page' = page /\ y' = low /\ bot' = b2 /\ r' = r + 1 /\ done' = (r = RowsOf(shape) - 1)
                 /\ tops' = (<<page, r + 1>> :> low) @@ tops
  /\ UNCHANGED <<shape, n>>
Next == LayRow /\ page < 8
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* what it paints
ColW == 100000
RowsOn(p) == { i \in 0..(RowsOf(shape) - 1) : <<p, i>> \in DOMAIN tops /\ <<p, i + 1>> \in DOMAIN tops }
In(a, b, i, j) == \E x \in X : Cover(C(x), a, b) /\ Cover(C(x), i, j)
Cont(p) == p > 1
Hs == UNION { { <<tops[<<p, i>>], j, p>> : j \in { b \in 0..(ColsOf(shape) - 1) : i = 0 \/ i = Min(RowsOn(p)) \/ Fault = "inside" \/ ~In(i - 1, b, i, b) } } : <<p, i>> \in { q \in DOMAIN tops : q[2] \in RowsOn(q[1]) } }
      \cup UNION { { <<tops[<<p, Max(RowsOn(p)) + 1>>], j, p>> : j \in 0..(ColsOf(shape) - 1) } : p \in { q \in 1..page : RowsOn(q) # {} /\ (Fault # "open" \/ q = page) } }
Vs == UNION { { <<tops[<<p, i>>], tops[<<p, i + 1>>], j, p>> : j \in { b \in 0..ColsOf(shape) : b = 0 \/ b = ColsOf(shape) \/ Fault = "inside" \/ ~In(i, b - 1, i, b) } } : <<p, i>> \in { q \in DOMAIN tops : q[2] \in RowsOn(q[1]) } }
HLine(h) == [ev |-> "line", page |-> h[3], x1 |-> h[2] * ColW, x2 |-> (h[2] + 1) * ColW, y1 |-> h[1], y2 |-> h[1], w |-> Bw, c |-> "black", d |-> "solid", round |-> FALSE, on |-> 0, off |-> 0]
VLine(v) == [ev |-> "line", page |-> v[4], x1 |-> v[3] * ColW, x2 |-> v[3] * ColW, y1 |-> v[1], y2 |-> v[2], w |-> Bw, c |-> "black", d |-> "solid", round |-> FALSE, on |-> 0, off |-> 0]
FillsOf == { LET c == C(1)
                 a == Min(RowsOn(p))
                 b == IF LastRow(c) > Max(RowsOn(p)) THEN Max(RowsOn(p)) ELSE LastRow(c)
             IN  [ev |-> "fill", page |-> p, x1 |-> 0, x2 |-> c.cs * ColW, y1 |-> tops[<<p, (IF Fault = "short" THEN a ELSE b) + 1>>], y2 |-> tops[<<p, a>>], c |-> "red", z |-> 0] :
             p \in { q \in 1..page : RowsOn(q) # {} /\ Min(RowsOn(q)) <= LastRow(C(1)) /\ (Fault # "bare" \/ q = 1) } }
Drawn(S) == { e \in S : e.x1 # e.x2 \/ e.y1 # e.y2 }
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE x \in S : TRUE IN <<e>> \o Listed(S \ {e})
AtomEvent(a) == [ev |-> "atom", cell |-> a.cell, k |-> a.k, page |-> a.page, x1 |-> C(a.cell).col * ColW + Pad, x2 |-> C(a.cell).col * ColW + Pad + 30000,
                 top |-> a.top, bot |-> a.bot, lead |-> IF \E b \in DOMAIN atoms : atoms[b].cell = a.cell /\ atoms[b].page = a.page /\ atoms[b].k < a.k THEN 0 ELSE 1100, z |-> 1]
Events == Listed(Drawn({ HLine(h) : h \in Hs } \cup { VLine(v) : v \in Vs })) \o Listed({ f \in FillsOf : f.y1 # f.y2 }) \o [ i \in DOMAIN atoms |-> AtomEvent(atoms[i]) ]
Def == [page |-> [x |-> 0, w |-> ColsOf(shape) * ColW, top |-> PageHeight, bot |-> 0], ws |-> [ i \in 1..ColsOf(shape) |-> 1 ], rows |-> RowsOf(shape),
        cells |-> [ x \in X |-> C(x) ], default |-> [w |-> Bw, c |-> "black", d |-> "solid"], rules |-> <<>>, fills |-> <<>>]
RECURSIVE BadOf(_, _)
BadOf(st, es) == IF es = <<>> THEN {} ELSE TbBad(st, es[1]) \cup BdBad(st, es[1]) \cup BadOf(TbStep(st, es[1]), Tail(es))
Verdict == BadOf(TbInit(<<Def>>), Append(Events, [ev |-> "end"]))
\* whether the fault shows
Flaw ==
  CASE Fault = "lose" -> \E x \in X : C(x).rs > 1 /\ Cardinality({ a \in DOMAIN atoms : atoms[a].cell = x }) < n[x]
    [] Fault = "again" -> \E x \in X : Cardinality({ a \in DOMAIN atoms : atoms[a].cell = x }) > n[x]
    [] Fault = "low" -> \E q \in DOMAIN tops : q[2] > 0 /\ \E a \in DOMAIN atoms : atoms[a].page = q[1] /\ LastRow(C(atoms[a].cell)) = q[2] - 1 /\ atoms[a].bot - Pad < tops[q] - Tol
    [] Fault = "past" -> \E a \in DOMAIN atoms : atoms[a].bot - Pad < 0 - Tol
    [] Fault = "inside" -> \E p \in 1..page : \E i \in RowsOn(p) : tops[<<p, i>>] # tops[<<p, i + 1>>] /\ \E x \in X : C(x).cs > 1 /\ C(x).row <= i /\ LastRow(C(x)) >= i
    [] Fault = "open" -> page > 1 /\ \E p \in 1..(page - 1) : \E i \in RowsOn(p) : i = Max(RowsOn(p)) /\ tops[<<p, i + 1>>] # tops[<<p, i>>]
    [] Fault = "bare" -> \E p \in 2..page : \E i \in RowsOn(p) : i = Min(RowsOn(p)) /\ i <= LastRow(C(1)) /\ tops[<<p, i + 1>>] # tops[<<p, i>>]
    [] Fault = "short" -> \E p \in 1..page : RowsOn(p) # {} /\ Min(RowsOn(p)) = 0 /\ C(1).rs = 2 /\ 1 \in RowsOn(p) /\ tops[<<p, 1>>] # tops[<<p, 2>>]
    [] OTHER -> TRUE
Accepted == (done /\ Fault = "none") => Verdict = {}
Sharp == (done /\ Fault # "none" /\ Flaw) => Verdict # {}
Ends == <>done
Emit == (done /\ Flaw) => PrintT("@SCENARIO " \o ToJson([shape |-> shape, n |-> n, low |-> tops[<<1, 0>>] # PageHeight]))
=============================================================================
