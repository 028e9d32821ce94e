------------------------------- MODULE Table --------------------------------
(* Tables: cells on one grid, broken over pages; borders and fills.         *)
(*                                                                          *)
(* Rows and columns count from 0.  Events                                   *)
(*   def [page, ws, rows, cells, default, rules, fills]  page: left edge x, *)
(*         width w, top, bot; ws: proportions of the columns; cells, in     *)
(*         order: row, col, rs, cs (spans), kind (t text, b box, i image,   *)
(*         e empty), n (pieces), mt, mr, mb, ml (margins), pw, ph (pixels), *)
(*         fill (its own color or ""); default: [w, c, d] of a border;      *)
(*         rules: vert, at (rows), on (columns), w, c, d; fills: at, on, c. *)
(*         A position: [t |-> "list", v] or [t |-> "range", a, b, s] with   *)
(*         None for what is left out                                        *)
(*   atom [cell, k, page, x1, x2, top, bot, lead, z]  piece k of a cell;    *)
(*         what holds it starts lead above its top; z: painting order       *)
(*   line [page, x1, y1, x2, y2, w, c, d, on, off, round]  on, off: lengths *)
(*         of dashes and gaps; round: its dashes have round ends            *)
(*   fill [page, x1, y1, x2, y2, c, z]   (y1 below y2)                      *)
(*   end                                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Clause(holds, name) == IF holds THEN {} ELSE {name}
Tol == 150
None == 9999
Stub == 4000       \* height of a row part nothing fits in
NextText == 12300  \* height of one more line, at most
NextBox == 17400
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Near(a, b) == Abs(a - b) <= Tol

-----------------------------------------------------------------------------
\* positions have the meaning of Python slices
Wrap(i, n) == IF i < 0 THEN i + n ELSE i
Clamp(i, lo, hi) == IF i < lo THEN lo ELSE IF i > hi THEN hi ELSE i
Picked(p, n) ==
  IF p.t = "list" THEN { Wrap(p.v[i], n) : i \in DOMAIN p.v } \cap 0..(n - 1)
  ELSE LET s == IF p.s = None THEN 1 ELSE p.s
           lo == IF s > 0 THEN 0 ELSE 0 - 1
           hi == IF s > 0 THEN n ELSE n - 1
           a == IF p.a = None THEN (IF s > 0 THEN lo ELSE hi) ELSE Clamp(Wrap(p.a, n), lo, hi)
           b == IF p.b = None THEN (IF s > 0 THEN hi ELSE lo) ELSE Clamp(Wrap(p.b, n), lo, hi)
       IN  { a + k * s : k \in 0..n } \cap { i \in 0..(n - 1) : IF s > 0 THEN i >= a /\ i < b ELSE i <= a /\ i > b }

Cols(d) == Len(d.ws)
RECURSIVE SumTo(_, _)
SumTo(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumTo(q, k - 1)
Left(d, c) == d.page.x + (d.page.w * SumTo(d.ws, c)) \div SumTo(d.ws, Len(d.ws))

\* style of a grid edge: of the last rule that selects it
Style(d, vert, i, j) ==
  LET R == { k \in DOMAIN d.rules : LET r == d.rules[k]
                                    IN  /\ r.vert = vert
                                        /\ i \in Picked(r.at, IF vert THEN d.rows ELSE d.rows + 1)
                                        /\ j \in Picked(r.on, IF vert THEN Cols(d) + 1 ELSE Cols(d)) }
  IN  IF R = {} THEN d.default ELSE LET r == d.rules[Max(R)] IN [w |-> r.w, c |-> r.c, d |-> r.d]
\* all of them, at once
Grid(d) == [v |-> [i \in 0..d.rows |-> [j \in 0..Cols(d) |-> Style(d, TRUE, i, j)]],
            h |-> [i \in 0..d.rows |-> [j \in 0..(Cols(d) - 1) |-> Style(d, FALSE, i, j)]],
            left |-> [c \in 0..Cols(d) |-> Left(d, c)]]
FillOf(d, c) == IF c.fill # "" THEN c.fill
                ELSE LET R == { k \in DOMAIN d.fills : c.row \in Picked(d.fills[k].at, d.rows) /\ c.col \in Picked(d.fills[k].on, Cols(d)) }
                     IN  IF R = {} THEN "" ELSE d.fills[Max(R)].c

TbInit(trace) == [d |-> trace[1], g |-> Grid(trace[1]), atoms |-> <<>>, lines |-> <<>>, fills |-> <<>>]
LastRow(c) == c.row + c.rs - 1

-----------------------------------------------------------------------------
Cell(st, a) == st.d.cells[a.cell]
\* margins and borders of a cell, in the part of it that starts in row r
PadT(st, c, r) == st.g.h[r][c.col].w \div 2 + c.mt
PadB(st, c) == st.g.h[c.row + c.rs][c.col].w \div 2 + c.mb
PadL(st, c, r) == st.g.v[r][c.col].w \div 2 + c.ml
PadR(st, c, r) == st.g.v[r][c.col + c.cs].w \div 2 + c.mr

On(st, p) == { i \in DOMAIN st.atoms : st.atoms[i].page = p }
Pages(st) == { st.atoms[i].page : i \in DOMAIN st.atoms }
FirstPage(st) == Min(Pages(st))
LastPage(st) == Max(Pages(st))
\* row that a page starts with
Cur(st, p) == IF p = FirstPage(st) THEN 0 ELSE Min({ LastRow(Cell(st, st.atoms[i])) : i \in On(st, p) })
\* row that is interrupted at the end of a page, or the last one
End(st, p) == IF p = LastPage(st) THEN st.d.rows - 1 ELSE Cur(st, p + 1)
\* the row whose start is the top of the part of a cell on a page
PartRow(st, c, p) == IF p = FirstPage(st) THEN c.row ELSE IF c.row > Cur(st, p) THEN c.row ELSE Cur(st, p)
OfCell(st, x, p) == { i \in On(st, p) : st.atoms[i].cell = x }
\* top of the cell from its first piece on a page
CellTop(st, x, p) == LET S == OfCell(st, x, p)
                         a == st.atoms[CHOOSE i \in S : \A j \in S : st.atoms[i].k <= st.atoms[j].k]
                     IN  a.top + a.lead + PadT(st, st.d.cells[x], PartRow(st, st.d.cells[x], p))
CellBot(st, x, p) == Min({ st.atoms[i].bot : i \in OfCell(st, x, p) }) - PadB(st, st.d.cells[x])
HasPart(st, x, p) == OfCell(st, x, p) # {}
\* cells that make row r on page p as high as it is
Makers(st, r, p) == { x \in DOMAIN st.d.cells :
                        LET c == st.d.cells[x]
                        IN  /\ c.row <= r /\ LastRow(c) >= r
                            /\ LastRow(c) = r \/ (p < LastPage(st) /\ r = End(st, p))
                            /\ HasPart(st, x, p) }
MaxW(d) == Max({d.default.w} \cup { d.rules[k].w : k \in DOMAIN d.rules })
\* bottoms of what borders and fills there are
Flat(l) == Near(l.y1, l.y2)
Lines(st, p) == { k \in DOMAIN st.lines : st.lines[k].page = p }
Floors(st, p) == { st.fills[k].y1 : k \in { i \in DOMAIN st.fills : st.fills[i].page = p } } \cup { st.lines[k].y1 : k \in { i \in Lines(st, p) : Flat(st.lines[i]) } }
Feet(st, p) == { Min({st.lines[k].y1, st.lines[k].y2}) : k \in { i \in Lines(st, p) : ~Flat(st.lines[i]) } }
\* tops of the rows on a page, from Cur to one past End (the bottom of the table there)
RECURSIVE TopsFrom(_, _, _, _)
TopsFrom(st, p, r, y) ==
  LET M == Makers(st, r, p)
      made == Min({ CellBot(st, x, p) : x \in M } \cup {y})
      \* what an interrupted row has nothing of may still take some room
      E == IF p < LastPage(st) /\ r = End(st, p)
           THEN { x \in DOMAIN st.d.cells : LET c == st.d.cells[x] IN c.row <= r /\ LastRow(c) >= r /\ ~HasPart(st, x, p) } ELSE {}
      least == Min({made} \cup { y - (IF st.d.cells[x].kind = "e" THEN 1100 + PadT(st, st.d.cells[x], r) + PadB(st, st.d.cells[x]) ELSE Stub) : x \in E })
      seen == { b \in Floors(st, p) : b <= made + Tol /\ b >= least - Tol }
      floor == IF seen = {} THEN made ELSE Min(seen)
      feet == { b \in Feet(st, p) : b < floor - MaxW(st.d) \div 2 - Tol /\ b >= least - Tol }
      low == IF feet = {} THEN floor ELSE Min(feet)
  IN  (r :> y) @@ IF r >= End(st, p) THEN (r + 1) :> low ELSE TopsFrom(st, p, r + 1, low)
Start(st, p) ==
  IF p > FirstPage(st) THEN st.d.page.top
  ELSE LET S == { x \in DOMAIN st.d.cells : st.d.cells[x].row = 0 /\ HasPart(st, x, p) }
       IN  IF S = {} THEN st.d.page.top ELSE CellTop(st, CHOOSE x \in S : TRUE, p)
Tops(st, p) == TopsFrom(st, p, Cur(st, p), Start(st, p))
AllTops(st) == [p \in Pages(st) |-> Tops(st, p)]
\* every page between has a part, every row is where one can be
Regular(st) == /\ Pages(st) # {} /\ Pages(st) = FirstPage(st)..LastPage(st)
               /\ \A p \in Pages(st) : Cur(st, p) <= End(st, p)
               /\ \A i \in DOMAIN st.atoms : LET a == st.atoms[i]
                                             IN  Cell(st, a).row <= End(st, a.page) /\ LastRow(Cell(st, a)) >= Cur(st, a.page)

NextNeed(c, w) == CASE c.kind = "t" -> NextText [] c.kind = "b" -> NextBox [] OTHER -> (w * c.ph) \div c.pw
Inner(st, c, r) == st.g.left[c.col + c.cs] - st.g.left[c.col] - PadL(st, c, r) - PadR(st, c, r)

TbBad(st, e) ==
  CASE e.ev = "atom" ->
         LET c == Cell(st, e)
         IN  Clause(\A i \in DOMAIN st.atoms : <<st.atoms[i].cell, st.atoms[i].k>> # <<e.cell, e.k>>, "EachOnce")
             \cup Clause(e.x1 >= st.g.left[c.col] - Tol /\ e.x2 <= st.g.left[c.col + c.cs] + Tol, "InsideItsColumns")
             \cup Clause(e.bot >= st.d.page.bot - Tol /\ e.top <= st.d.page.top + Tol, "InsideThePage")
    [] e.ev = "malformed" -> {"WellFormed_" \o e.rule}
    [] e.ev = "end" ->
         LET A == st.atoms
             D == DOMAIN A
             d == st.d
         IN  Clause({ <<A[i].cell, A[i].k>> : i \in D } = UNION { { <<x, k>> : k \in 1..d.cells[x].n } : x \in DOMAIN d.cells }, "NothingLost")
             \cup Clause(\A i, j \in D : (A[i].cell = A[j].cell /\ A[i].k < A[j].k)
                                          => A[i].page < A[j].page \/ (A[i].page = A[j].page /\ A[i].bot >= A[j].top - Tol), "PiecesInOrder")
             \cup Clause(Regular(st), "RowsInOrder")
             \cup (IF ~Regular(st) THEN {} ELSE
               LET T == AllTops(st)
                   P == Pages(st)
                   Parts == { q \in (DOMAIN d.cells) \X P : HasPart(st, q[1], q[2]) }
               IN  Clause(\A q \in Parts : LET c == d.cells[q[1]]
                                               r == PartRow(st, c, q[2])
                                           IN  r \in DOMAIN T[q[2]] /\ Near(CellTop(st, q[1], q[2]), T[q[2]][r]), "CellsStartAtTheTopOfTheirRow")
                   \cup Clause(\A i \in D : LET c == Cell(st, A[i])
                                                r == PartRow(st, c, A[i].page)
                                                l == st.g.left[c.col] + PadL(st, c, r)
                                                x2 == st.g.left[c.col + c.cs] - PadR(st, c, r)
                                            IN  Near(A[i].x1, l) /\ (IF c.kind = "i" THEN Near(A[i].x2, x2) ELSE A[i].x2 <= x2 + Tol), "InsideItsMargins")
                   \cup Clause(\A q \in Parts : LET c == d.cells[q[1]]
                                                    last == IF LastRow(c) > End(st, q[2]) THEN End(st, q[2]) ELSE LastRow(c)
                                                IN  CellBot(st, q[1], q[2]) >= T[q[2]][last + 1] - Tol, "CellsEndInTheirRow")
                   \cup Clause(\A q \in Parts : CellBot(st, q[1], q[2]) >= d.page.bot - Tol, "CellsEndOnThePage")
                   \* what is on a later page did not fit here
                   \cup Clause(\A x \in DOMAIN d.cells, p \in P :
                                 LET c == d.cells[x]
                                     later == p < LastPage(st) /\ c.row <= End(st, p) /\ \E i \in D : A[i].cell = x /\ A[i].page > p
                                     r == PartRow(st, c, p)
                                     y == IF HasPart(st, x, p) THEN Min({ A[i].bot : i \in OfCell(st, x, p) }) ELSE T[p][r] - PadT(st, c, r)
                                 IN  later => y - NextNeed(c, Inner(st, c, r)) - PadB(st, c) <= d.page.bot + 300, "RowsGoOnOnlyWhereNothingFits"))
    [] OTHER -> {}

-----------------------------------------------------------------------------
\* borders and fills
Cover(c, r, j) == c.row <= r /\ r <= LastRow(c) /\ c.col <= j /\ j < c.col + c.cs
OneCell(d, r1, j1, r2, j2) == \E x \in DOMAIN d.cells : Cover(d.cells[x], r1, j1) /\ Cover(d.cells[x], r2, j2)
\* edges of the grid on a page: ones: the styles it may have, none: it may be unpainted
EdgesOn(st, p, T) ==
  LET d == st.d
      first == Cur(st, p)
      end == End(st, p)
      goes == p < LastPage(st)
      cont == p > FirstPage(st)
      H(i, j) == st.g.h[i][j]
      V(r, j) == st.g.v[r][j]
      X(j) == st.g.left[j]
      Painted(S) == { s \in S : s.w > 0 }
      Edge(vert, pos, lo, hi, S, opt) == [vert |-> vert, pos |-> pos, lo |-> lo, hi |-> hi, ones |-> Painted(S), none |-> opt \/ \E s \in S : s.w = 0]
      top == { LET in == r > 0 /\ OneCell(d, r - 1, j, r, j)
               IN  Edge(FALSE, T[r], X(j), X(j + 1), IF in /\ r > first THEN {} ELSE {H(r, j)}, in) :
                 r \in { i \in first..end : ~Near(T[i], T[i + 1]) }, j \in 0..(Cols(d) - 1) }
      bottom == { Edge(FALSE, T[end + 1], X(j), X(j + 1), IF goes THEN {H(end, j), H(end + 1, j)} ELSE {H(end + 1, j)},
                       goes /\ end > 0 /\ OneCell(d, end - 1, j, end, j)) : j \in 0..(Cols(d) - 1) }
      vert == { LET in == j > 0 /\ j < Cols(d) /\ OneCell(d, r, j - 1, r, j)
                IN  Edge(TRUE, X(j), T[r + 1], T[r], IF in THEN {} ELSE {V(r, j)}, in) : r \in first..end, j \in 0..Cols(d) }
  IN  { e \in top \cup bottom \cup vert : e.hi - e.lo > 0 }
LVert(l) == Near(l.x1, l.x2) /\ ~Near(l.y1, l.y2)
LPos(l) == IF LVert(l) THEN l.x1 ELSE l.y1
LLo(l) == IF LVert(l) THEN Min({l.y1, l.y2}) ELSE Min({l.x1, l.x2})
LHi(l) == IF LVert(l) THEN Max({l.y1, l.y2}) ELSE Max({l.x1, l.x2})
Along(l, e) == LVert(l) = e.vert /\ Near(LPos(l), e.pos)
Overlap(l, e) == Min({LHi(l), e.hi}) - Max({LLo(l), e.lo})
LinesOn(st, p) == { k \in DOMAIN st.lines : st.lines[k].page = p }
Touch(st, e, k) == Along(st.lines[k], e) /\ Overlap(st.lines[k], e) > MaxW(st.d) \div 2 + Tol
Over(st, e, k) == Along(st.lines[k], e) /\ LLo(st.lines[k]) <= e.lo + Tol /\ LHi(st.lines[k]) >= e.hi - Tol
StyleOfLine(l) == [w |-> l.w, c |-> l.c, d |-> l.d]
\* rectangle of a cell on a page
RectOn(st, x, p, T) == LET c == st.d.cells[x]
                           a == IF c.row < Cur(st, p) THEN Cur(st, p) ELSE c.row
                           b == IF LastRow(c) > End(st, p) THEN End(st, p) ELSE LastRow(c)
                       IN  [x1 |-> st.g.left[c.col], x2 |-> st.g.left[c.col + c.cs], y1 |-> T[b + 1], y2 |-> T[a], c |-> FillOf(st.d, c)]
SameRect(f, r) == Near(f.x1, r.x1) /\ Near(f.x2, r.x2) /\ Near(f.y1, r.y1) /\ Near(f.y2, r.y2) /\ f.c = r.c
\* dashes are in proportion to the width: three times as long with gaps of half of that, dots twice as far apart
Dashes(l) == CASE l.d = "dashed" -> Abs(l.on - 3 * l.w) <= 4 /\ Abs(l.off - (3 * l.w) \div 2) <= 4 /\ ~l.round
               [] l.d = "dotted" -> Abs(l.off - 2 * l.w) <= 4 /\ l.round
               [] OTHER -> TRUE
BdBad(st, e) ==
  CASE e.ev = "malformed" -> {"WellFormed_" \o e.rule}
    [] e.ev = "line" -> Clause(Dashes(e), "DashesInProportionToTheWidth")
    [] e.ev = "end" /\ Regular(st) ->
         LET d == st.d
             T == AllTops(st)
             P == Pages(st)
             E == [p \in P |-> EdgesOn(st, p, T[p])]
             F == [p \in P |-> { RectOn(st, x, p, T[p]) : x \in { y \in DOMAIN d.cells : FillOf(d, d.cells[y]) # "" /\ d.cells[y].row <= End(st, p)
                                                                                        /\ LastRow(d.cells[y]) >= Cur(st, p) } }]
             Fs(p) == { k \in DOMAIN st.fills : st.fills[k].page = p }
         IN  Clause(\A p \in P : \A x \in E[p] : LET K == { k \in LinesOn(st, p) : Touch(st, x, k) }
                                                 IN  \/ K = {} /\ (x.none \/ x.ones = {})
                                                     \/ Cardinality(K) = 1 /\ \A k \in K : Over(st, x, k), "EdgePaintedOnceAlongIt")
             \cup Clause(\A p \in P : \A x \in E[p] : \A k \in LinesOn(st, p) : Touch(st, x, k) => StyleOfLine(st.lines[k]) \in x.ones, "EdgeHasTheStyleOfItsRule")
             \cup Clause(\A k \in DOMAIN st.lines :
                           LET l == st.lines[k]
                               S == IF l.page \in P THEN { x \in E[l.page] : Over(st, x, k) } ELSE {}
                           IN  S # {} /\ LLo(l) >= Min({ x.lo : x \in S }) - MaxW(d) \div 2 - Tol
                                      /\ LHi(l) <= Max({ x.hi : x \in S }) + MaxW(d) \div 2 + Tol, "OnlyEdgesArePainted")
             \cup Clause(\A p \in P : \A r \in F[p] : Near(r.y1, r.y2) \/ Cardinality({ k \in Fs(p) : SameRect(st.fills[k], r) }) = 1, "CellsAreFilled")
             \cup Clause(\A k \in DOMAIN st.fills : LET f == st.fills[k] IN f.page \in P /\ \E r \in F[f.page] : SameRect(f, r), "OnlyCellsWithAFillAreFilled")
             \cup Clause(\A k \in DOMAIN st.fills, i \in DOMAIN st.atoms :
                           LET f == st.fills[k]
                               a == st.atoms[i]
                           IN  ~(f.page = a.page /\ f.z > a.z /\ a.x1 < f.x2 /\ f.x1 < a.x2 /\ a.bot < f.y2 /\ f.y1 < a.top), "FillsAreUnderTheContent")
    [] OTHER -> {}

TbStep(st, e) ==
  CASE e.ev = "atom" -> [st EXCEPT !.atoms = Append(@, e)]
    [] e.ev = "line" -> [st EXCEPT !.lines = Append(@, e)]
    [] e.ev = "fill" -> [st EXCEPT !.fills = Append(@, e)]
    [] OTHER -> st

TbHit(st, e) ==
  IF e.ev # "end" \/ ~Regular(st) THEN {}
  ELSE LET d == st.d
           P == Pages(st)
           Split(r) == \E p \in P : p < LastPage(st) /\ End(st, p) = r /\ \E x \in DOMAIN d.cells : LastRow(d.cells[x]) >= r /\ d.cells[x].row = r /\ HasPart(st, x, p)
       IN  (IF \E r \in 0..(d.rows - 1) : Split(r) THEN {"row continued"} ELSE {})
           \cup (IF \E p \in P : p < LastPage(st) /\ ~Split(End(st, p)) THEN {"row moved on"} ELSE {})
           \cup (IF Cardinality(P) > 2 THEN {"three pages"} ELSE {})
           \cup (IF \E x \in DOMAIN d.cells : d.cells[x].cs > 1 THEN {"column span"} ELSE {})
           \cup (IF \E x \in DOMAIN d.cells : d.cells[x].rs > 1 THEN {"row span"} ELSE {})
           \cup (IF \E x \in DOMAIN d.cells : d.cells[x].rs > 1 /\ \E p \in P : p < LastPage(st) /\ d.cells[x].row <= End(st, p) /\ LastRow(d.cells[x]) >= Cur(st, p + 1)
                 THEN {"row span over pages"} ELSE {})
           \cup (IF \E x \in DOMAIN d.cells : d.cells[x].cs > 1 /\ \E p \in P : p < LastPage(st) /\ d.cells[x].row <= End(st, p) /\ LastRow(d.cells[x]) >= Cur(st, p + 1)
                 THEN {"column span over pages"} ELSE {})
           \cup (IF \E x \in DOMAIN d.cells : d.cells[x].rs > 1 /\ \E p \in P : LET m == Makers(st, LastRow(d.cells[x]), p)
                                                                                IN  x \in m /\ \A y \in m : CellBot(st, x, p) <= CellBot(st, y, p)
                 THEN {"row span makes its rows higher"} ELSE {})
           \cup { "kind " \o d.cells[x].kind : x \in DOMAIN d.cells }
           \cup (IF st.fills # <<>> THEN {"fill"} ELSE {})
           \cup (IF \E p \in P : \E k \in LinesOn(st, p) : LHi(st.lines[k]) - LLo(st.lines[k]) > 0 /\ st.lines[k].d # "solid" THEN {"dashed border"} ELSE {})
           \cup (IF \E k \in DOMAIN d.rules : (d.rules[k].at.t = "range" /\ d.rules[k].at.s # None) \/ (d.rules[k].on.t = "range" /\ d.rules[k].on.s # None) THEN {"position with a step"} ELSE {})
           \cup (IF \E k \in DOMAIN d.rules : d.rules[k].w = 0 THEN {"border switched off"} ELSE {})
=============================================================================
