-------------------------------- MODULE Flow --------------------------------
(* Content boxes: columns, order, spacing, floating images and groups.      *)
(*                                                                          *)
(* Events                                                                   *)
(*   def [page, boxes, els]  the definition.  page: left edge x, width w,   *)
(*         top and bot of the page's content.  boxes: chain (indexes of the *)
(*         boxes around it, outermost first, with itself), cols, gap (-1:   *)
(*         default), mt, mb (margins), nest (boxes of several columns in    *)
(*         it).  els, in source order: box, kind (p, t, i), grp (0: none),  *)
(*         unit (0 or the float it belongs to: an image or a group), mt,    *)
(*         mb, ml, mr, pw and ph (pixels), full and low (height of an image *)
(*         at most and at least), n (pieces), need, min (height it takes at most and   *)
(*         at least of a column for its next piece), normal (an image that  *)
(*         ends the column if it does not fit)                              *)
(*   atom [el, k, page, x1, x2, top, bot, slack]  piece k of an element     *)
(*         (line, row, image) was painted there; its top may be up to slack *)
(*         higher                                                           *)
(*   end                                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Clause(holds, name) == IF holds THEN {} ELSE {name}
Tol == 150
Search == 3500      \* precision of the search for the height of balanced columns, above that of the code
FirstLine == 11200  \* a line of size 10 takes at most this at the start of a column
NextLine == 12300   \* and this elsewhere
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Abs(x) == IF x < 0 THEN 0 - x ELSE x

\* columns of a box: cols (column in every box of the chain), left edge, width
RECURSIVE SlotsOf(_, _, _)
SlotsOf(d, chain, k) ==
  IF k = 0 THEN {[cols |-> <<>>, left |-> d.page.x, width |-> d.page.w]}
  ELSE LET b == d.boxes[chain[k]]
           Gap(w) == IF b.gap >= 0 THEN b.gap ELSE IF w \div 25 > 7000 THEN w \div 25 ELSE 7000
           CW(w) == (w - Gap(w) * (b.cols - 1)) \div b.cols
       IN  { [cols |-> Append(s.cols, c), left |-> s.left + c * (CW(s.width) + Gap(s.width)), width |-> CW(s.width)] :
               s \in SlotsOf(d, chain, k - 1), c \in 0..(b.cols - 1) }
FlInit(trace) == LET d == trace[1]
                 IN  [d |-> d, atoms |-> <<>>, slots |-> [b \in DOMAIN d.boxes |-> SlotsOf(d, d.boxes[b].chain, Len(d.boxes[b].chain))]]

Fits(st, e, s) == LET el == st.d.els[e.el]
                      l == s.left + el.ml
                      r == s.left + s.width - el.mr
                  IN  IF el.kind = "i"
                      THEN e.x1 >= l - Tol /\ e.x2 <= r + Tol /\ Abs((e.x1 - l) - (r - e.x2)) <= 2 * Tol
                      ELSE Abs(e.x1 - l) <= Tol /\ e.x2 <= r + Tol
SlotFor(st, e) == { s \in st.slots[st.d.els[e.el].box] : Fits(st, e, s) }

-----------------------------------------------------------------------------
El(st, a) == st.d.els[a.el]
Chain(st, a) == st.d.boxes[El(st, a).box].chain
\* depth of the innermost box around both
Depth(st, a, e) == LET p == Chain(st, a)
                       q == Chain(st, e)
                       m == IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)
                   IN  Max({ i \in 1..m : \A j \in 1..i : p[j] = q[j] })
\* position in columns of the boxes down to a depth
RECURSIVE Lex(_, _, _)
Lex(p, q, i) == IF i > Len(p) \/ i > Len(q) THEN 0
                ELSE IF p[i] < q[i] THEN 0 - 1 ELSE IF p[i] > q[i] THEN 1 ELSE Lex(p, q, i + 1)
Pos(a, d) == <<a.page>> \o SubSeq(a.cols, 1, d)
Compare(st, a, e) == LET d == Depth(st, a, e) IN Lex(Pos(a, d), Pos(e, d), 1)
SameColumn(st, a, e) == Compare(st, a, e) = 0
\* a is read before e
Precedes(st, a, e) == LET c == Compare(st, a, e) IN c < 0 \/ (c = 0 /\ a.bot >= e.top - Tol)

\* margins between two elements of one column
MB(st, a, d) == IF Len(Chain(st, a)) > d THEN st.d.boxes[Chain(st, a)[d + 1]].mb ELSE El(st, a).mb
MT(st, e, d) == IF Len(Chain(st, e)) > d THEN st.d.boxes[Chain(st, e)[d + 1]].mt ELSE El(st, e).mt
Gap(st, a, e) == IF a.el = e.el THEN 0 ELSE LET d == Depth(st, a, e) IN MB(st, a, d) + MT(st, e, d)
\* how much lower than its content a box with columns may end
Extra(st, a, e) == LET d == Depth(st, a, e)
                       n == IF Len(Chain(st, a)) > d THEN st.d.boxes[Chain(st, a)[d + 1]].nest ELSE 0
                   IN  IF a.el = e.el \/ n = 0 THEN 0 ELSE IF n = 1 THEN Search ELSE 10000000

Above(st, e) == { i \in DOMAIN st.atoms : LET a == st.atoms[i]
                                          IN  a.page = e.page /\ ~(a.el = e.el /\ a.k = e.k) /\ SameColumn(st, a, e) /\ a.bot >= e.top - Tol /\ a.top > e.top }
Spaced(st, e) ==
  LET A == Above(st, e)
  IN  IF A = {} THEN st.d.page.top - e.top \in (0 - Tol)..(e.slack + Tol)
      ELSE LET low == Min({ st.atoms[i].bot : i \in A })
               a == st.atoms[CHOOSE i \in A : st.atoms[i].bot = low]
               diff == low - e.top - Gap(st, a, e)
           IN  diff >= 0 - Tol /\ diff <= e.slack + Tol + Extra(st, a, e)

\* section of box number b (depth i) that an atom in it belongs to, and the last section of the box
Section(a, i) == Pos(a, i - 1)
InBox(st, a, b) == \E i \in DOMAIN Chain(st, a) : Chain(st, a)[i] = b
LastSection(st, b) == LET i == Len(st.d.boxes[b].chain)
                          S == { Section(st.atoms[k], i) : k \in { m \in DOMAIN st.atoms : InBox(st, st.atoms[m], b) } }
                      IN  CHOOSE s \in S : \A t \in S : Lex(t, s, 1) <= 0
\* some box of several columns around both, not deeper than where their positions part, ends in this section: its columns are balanced
Balanced(st, a, e) ==
  LET d == Depth(st, a, e)
      p == Pos(a, d)
      q == Pos(e, d)
      part == Min({ i \in 1..(d + 1) : i = d + 1 \/ p[i] # q[i] })   \* 1: the page, i: column of the box of depth i - 1
  IN  \E i \in 1..d : /\ i + 1 <= part
                      /\ st.d.boxes[Chain(st, a)[i]].cols > 1
                      /\ Section(a, i) = LastSection(st, Chain(st, a)[i])

\* lowest end of anything in the column, seen from the box around a and e, that a is in
LowIn(st, a, d) == LET S == { k \in DOMAIN st.atoms : LET o == st.atoms[k] IN Depth(st, o, a) >= d /\ Pos(o, d) = Pos(a, d) }
                   IN  st.atoms[CHOOSE k \in S : \A j \in S : st.atoms[k].bot <= st.atoms[j].bot]
\* a place was left: nothing more fits there
Full(st, a, e) ==
  LET d == Depth(st, a, e)
      el == El(st, e)
      pending == \E u \in DOMAIN st.d.els : /\ st.d.els[u].normal /\ u < e.el
                                            /\ \E k \in DOMAIN st.atoms : st.atoms[k].el = u /\ ~Precedes(st, st.atoms[k], a)
      low == LowIn(st, a, d)
      room == low.bot - Gap(st, low, e) - Extra(st, low, e) - st.d.page.bot
  IN  pending \/ Balanced(st, a, e) \/ room <= el.need + 300

\* the float of e does not fit where o is, which comes later in the source and was put first
NoRoomFor(st, e, o) ==
  LET b == Chain(st, e)
      d == Depth(st, e, o)
      multi == { i \in 1..d : st.d.boxes[b[i]].cols > 1 /\ Section(o, i) = LastSection(st, b[i]) }
      limit == IF multi = {} THEN st.d.page.bot
               ELSE Max({ Min({ st.atoms[k].bot : k \in { m \in DOMAIN st.atoms : InBox(st, st.atoms[m], b[i]) /\ Section(st.atoms[m], i) = Section(o, i) } }) :
                            i \in multi })
      margins == IF { k \in Above(st, o) : InBox(st, st.atoms[k], b[d]) } = {} THEN 0 ELSE MT(st, o, d) - st.d.els[El(st, e).unit].mt
  IN  o.top + margins - limit <= El(st, e).min + 300

\* balanced columns
RECURSIVE Greedy(_, _, _, _, _, _)
Greedy(st, s, i, col, y, H) ==     \* place atoms s[i..] in columns of height H; TRUE if the columns are enough
  IF i > Len(s) THEN TRUE
  ELSE IF col = 0 THEN FALSE
  ELSE LET first == y = 0
           h == IF first THEN FirstLine ELSE NextLine + Gap(st, s[i - 1], s[i])
       IN  IF y + h <= H THEN Greedy(st, s, i + 1, col, y + h, H)
           ELSE IF first THEN FALSE
           ELSE Greedy(st, s, i, col - 1, 0, H)
Leaf(st, b) == /\ st.d.boxes[b].cols > 1 /\ st.d.boxes[b].nest = 1
               /\ \A i \in 1..(Len(st.d.boxes[b].chain) - 1) : st.d.boxes[st.d.boxes[b].chain[i]].cols = 1
Lowest(st, b) ==
  LET last == LastSection(st, b)
      i == Len(st.d.boxes[b].chain)
      s == SelectSeq(st.atoms, LAMBDA a : InBox(st, a, b) /\ Section(a, i) = last)
      top == Max({ s[k].top : k \in DOMAIN s })
      bot == Min({ s[k].bot : k \in DOMAIN s })
  IN  (\E k \in DOMAIN s : El(st, s[k]).kind # "p" \/ El(st, s[k]).grp # 0)
      \/ ~Greedy(st, s, 1, st.d.boxes[b].cols, 0, top - bot - Search)

\* a float of the box of e or of a box around it, which e does not wait for
Passed(st, a, e) == /\ El(st, a).unit # 0 /\ El(st, a).unit # El(st, e).unit
                    /\ \E i \in DOMAIN Chain(st, e) : Chain(st, e)[i] = El(st, a).box
\* last piece, as they are read, of those before it in the source that a piece waits for
Prev(st, n) == LET S == { i \in 1..(n - 1) : ~Passed(st, st.atoms[i], st.atoms[n]) }
                   L == { i \in S : \A j \in S : i = j \/ ~Precedes(st, st.atoms[i], st.atoms[j]) }
               IN  IF S = {} THEN 0 ELSE IF L = {} THEN Max(S) ELSE Max(L)
Float(st, a) == El(st, a).unit # 0
Overtakes(st, o, e) == /\ o.el > e.el /\ Passed(st, e, o)
                       /\ ~Precedes(st, e, o)
Groups(st) == { st.d.els[i].grp : i \in DOMAIN st.d.els } \ {0}
Wanted(st) == UNION { { <<i, k>> : k \in 1..st.d.els[i].n } : i \in DOMAIN st.d.els }

FlBad(st, e) ==
  CASE e.ev = "atom" ->
         Clause(SlotFor(st, e) # {} /\ e.bot >= st.d.page.bot - Tol /\ e.top <= st.d.page.top + Tol, "InsideItsColumn")
         \cup Clause(\A i \in DOMAIN st.atoms : <<st.atoms[i].el, st.atoms[i].k>> # <<e.el, e.k>>, "EachOnce")
    [] e.ev = "malformed" -> {"WellFormed_" \o e.rule}
    [] e.ev = "end" ->
         LET A == st.atoms
             D == DOMAIN A
             V == [i \in D |-> A[i].cols # <<>>]
         IN  Clause({ <<A[i].el, A[i].k>> : i \in D } = Wanted(st), "NothingLost")
             \cup (IF \E i \in D : ~V[i] THEN {} ELSE
               Clause(\A i \in D : \A j \in (i + 1)..Len(A) :
                        ~Passed(st, A[i], A[j]) => Precedes(st, A[i], A[j]), "SourceOrder")
               \* a float is only overtaken where it does not fit
               \cup Clause(\A i \in D : Float(st, A[i]) => \A j \in (i + 1)..Len(A) :
                             Overtakes(st, A[j], A[i]) => /\ NoRoomFor(st, A[i], A[j])
                                                          /\ SameColumn(st, A[i], A[j]) => A[j].bot >= A[i].top - Tol, "OnlyFloatsThatDoNotFitAreOvertaken")
               \cup Clause(\A i \in D : Spaced(st, A[i]), "MarginsBetweenElements")
               \cup Clause(\A i \in D : LET p == Prev(st, i)
                                        IN  (p # 0 /\ ~SameColumn(st, A[p], A[i]) /\ ~(\E j \in D : Overtakes(st, A[j], A[i])))
                                            => Full(st, A[p], A[i]), "ColumnsAreFilled")
               \cup Clause(\A b \in DOMAIN st.d.boxes : (Leaf(st, b) /\ \E i \in D : InBox(st, A[i], b)) => Lowest(st, b), "ColumnsAreBalanced"))
    [] OTHER -> {}

\* a group is one piece
InGroup(st, e) == El(st, e).grp # 0
Room(st, g) == \* height that a group would have with images as high as they may be, and the room where it is
  LET S == { i \in DOMAIN st.atoms : El(st, st.atoms[i]).grp = g }
      o == st.atoms[CHOOSE i \in S : \A j \in S : st.atoms[i].top >= st.atoms[j].top]
      low == Min({ st.atoms[i].bot : i \in S })
      more == { i \in S : El(st, st.atoms[i]).kind = "i" }
      RECURSIVE Sum(_)
      Sum(T) == IF T = {} THEN 0 ELSE LET i == CHOOSE i \in T : TRUE
                                      IN  El(st, st.atoms[i]).full - (st.atoms[i].top - st.atoms[i].bot) + Sum(T \ {i})
  IN  [high |-> o.top - low + Sum(more), room |-> o.top - st.d.page.bot,
       limited |-> \E b \in { Chain(st, o)[k] : k \in DOMAIN Chain(st, o) } :
                      st.d.boxes[b].cols > 1 /\ Section(o, Len(st.d.boxes[b].chain)) = LastSection(st, b)]
GrBad(st, e) ==
  CASE e.ev = "atom" /\ InGroup(st, e) ->
         LET el == El(st, e)
             h == e.top - e.bot
             w == e.x2 - e.x1
         IN  Clause(SlotFor(st, e) # {} /\ e.bot >= st.d.page.bot - Tol /\ e.top <= st.d.page.top + Tol, "GroupInsideItsColumn")
             \cup Clause(\A i \in DOMAIN st.atoms : <<st.atoms[i].el, st.atoms[i].k>> # <<e.el, e.k>>, "GroupElementsOnce")
             \cup (IF el.kind # "i" THEN {} ELSE
                     Clause(Abs(h * el.pw - w * el.ph) <= 20 * (el.pw + el.ph), "GroupImageInProportion")
                     \cup Clause(h >= el.low - Tol /\ h <= el.full + Tol, "GroupImageNotBelowItsMinimum"))
    [] e.ev = "malformed" -> {"WellFormed_" \o e.rule}
    [] e.ev = "end" ->
         LET A == st.atoms
             D == { i \in DOMAIN A : El(st, A[i]).grp # 0 }
         IN  Clause({ <<A[i].el, A[i].k>> : i \in D } = { w \in Wanted(st) : st.d.els[w[1]].grp # 0 }, "GroupComplete")
             \cup (IF \E i \in DOMAIN A : A[i].cols = <<>> THEN {} ELSE
               Clause(\A i, j \in D : (i < j /\ El(st, A[i]).grp = El(st, A[j]).grp) => A[i].bot >= A[j].top - Tol, "GroupInOrder")
               \cup Clause(\A i \in D : A[i].el # El(st, A[i]).grp \/ A[i].k > 1 => Spaced(st, A[i]), "GroupSpacing")
               \cup Clause(\A g \in Groups(st) :
                             LET S == { i \in D : El(st, A[i]).grp = g }
                             IN  \A i, j \in S : A[i].page = A[j].page /\ A[i].cols = A[j].cols, "GroupsAreNotSplit")
               \cup Clause(\A g \in Groups(st) :
                             LET S == { i \in D : El(st, A[i]).grp = g }
                                 o == IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
                                 top == IF S = {} THEN 0 ELSE Max({ A[i].top : i \in S })
                                 bot == IF S = {} THEN 0 ELSE Min({ A[i].bot : i \in S })
                             IN  S = {} \/ \A j \in DOMAIN A \ S : (SameColumn(st, A[j], A[o]) /\ A[j].page = A[o].page) => (A[j].top <= bot + Tol \/ A[j].bot >= top - Tol),
                           "GroupsAreTogether")
               \cup Clause(\A g \in { El(st, A[i]).grp : i \in D } :
                             LET r == Room(st, g)
                             IN  (\E i \in D : El(st, A[i]).grp = g /\ El(st, A[i]).kind = "i" /\ A[i].top - A[i].bot < El(st, A[i]).full - 2 * Tol)
                                 => r.limited \/ r.high + 2400 >= r.room - 300, "GroupImagesAreScaledOnlyToFit"))
    [] OTHER -> {}

FlStep(st, e) ==
  CASE e.ev = "atom" -> LET S == SlotFor(st, e)
                        IN  [st EXCEPT !.atoms = Append(@, [el |-> e.el, k |-> e.k, page |-> e.page, top |-> e.top, bot |-> e.bot, slack |-> e.slack,
                                                            cols |-> IF S = {} THEN <<>> ELSE (CHOOSE s \in S : TRUE).cols])]
    [] OTHER -> st

FlHit(st, e) ==
  IF e.ev # "end" \/ (\E i \in DOMAIN st.atoms : st.atoms[i].cols = <<>>) THEN {}
  ELSE LET A == st.atoms
           D == DOMAIN A
       IN  (IF \E i, j \in D : Overtakes(st, A[j], A[i]) THEN {"float overtaken"} ELSE {})
           \cup (IF \E i \in D : Float(st, A[i]) /\ Prev(st, i) # 0 /\ ~SameColumn(st, A[Prev(st, i)], A[i]) THEN {"float moved on"} ELSE {})
           \cup (IF \E i \in D : Prev(st, i) # 0 /\ A[Prev(st, i)].el = A[i].el /\ A[Prev(st, i)].page < A[i].page THEN {"split over pages"} ELSE {})
           \cup (IF \E i \in D : Prev(st, i) # 0 /\ A[Prev(st, i)].el = A[i].el /\ A[Prev(st, i)].cols # A[i].cols THEN {"split over columns"} ELSE {})
           \cup (IF \E b \in DOMAIN st.d.boxes : Leaf(st, b) /\ \E i \in D : InBox(st, A[i], b) THEN {"balanced columns"} ELSE {})
           \cup (IF \E i \in D : Len(A[i].cols) > 1 /\ A[i].cols[1] > 0 /\ A[i].cols[Len(A[i].cols)] > 0 THEN {"columns in columns"} ELSE {})
           \cup (IF Groups(st) # {} THEN {"group"} ELSE {})
           \cup (IF \E i \in D : InGroup(st, A[i]) /\ El(st, A[i]).kind = "t" THEN {"table in a group"} ELSE {})
           \cup (IF \E i \in D : InGroup(st, A[i]) /\ \E k \in DOMAIN A[i].cols : A[i].cols[k] > 0 THEN {"group in columns"} ELSE {})
           \cup (IF \E i \in D : InGroup(st, A[i]) /\ Prev(st, i) # 0 /\ ~SameColumn(st, A[Prev(st, i)], A[i]) THEN {"group moved on"} ELSE {})
           \cup (IF \E i \in D : El(st, A[i]).kind = "t" /\ Prev(st, i) # 0 /\ A[Prev(st, i)].el = A[i].el /\ ~SameColumn(st, A[Prev(st, i)], A[i]) THEN {"table split"} ELSE {})
           \cup (IF \E i \in D : El(st, A[i]).grp # 0 /\ El(st, A[i]).kind = "i" /\ A[i].top - A[i].bot < El(st, A[i]).full - Tol THEN {"group image scaled"} ELSE {})
=============================================================================
