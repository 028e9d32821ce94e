-------------------------------- MODULE Para --------------------------------
(* How a paragraph is set: words are taken in source order, a line is       *)
(* filled as long as the next word fits, lines are stacked in an area as    *)
(* long as the next line fits, and what is left goes on in the next area.   *)
(*                                                                          *)
(* All lengths are milli-points; lh (line height) is in hundredths.         *)
(* Events                                                                   *)
(*   para [align, lh, indent, list, li, lsize, lead]                        *)
(*         align "l" "r" "c" "j"; list: has a list mark, li its indent and  *)
(*         lsize its size; lead: the most that is left above the first line *)
(*         of an area or after a break                                      *)
(*   word [id, w, sz, up, dn, sp, br]  a word of the source, in order: its  *)
(*         width, biggest size, raise and lowering of its pieces, width of  *)
(*         the white space and number of line breaks before it              *)
(*   tail [br]        line breaks after the last word                       *)
(*   area [x, y, w, h, hk]  the paragraph is run here; y is the top; hk: h  *)
(*         is known                                                         *)
(*   mark [x, y]      a list mark was painted                               *)
(*   line [y, x1, x2, ids, xs]  words painted on one baseline, left to      *)
(*         right, with their left edges                                     *)
(*   stray            something was painted that is no word of the source   *)
(*   finished [done]                                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Clause(holds, name) == IF holds THEN {} ELSE {name}
Tol == 40
Near(a, b) == a - b <= Tol /\ b - a <= Tol
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
NoArea == [x |-> 0, y |-> 0, w |-> 0, h |-> 0, hk |-> FALSE]

PaInit(trace) == [p |-> [align |-> "l", lh |-> 110, indent |-> 0, list |-> FALSE, li |-> 0, lsize |-> 0, lead |-> 0, exact |-> FALSE],
                  src |-> <<>>, tail |-> 0, pos |-> 1, area |-> NoArea, areas |-> 0, y |-> 0, n |-> 0,
                  dn |-> 0, marks |-> 0, marky |-> 0]

RECURSIVE SumOf(_, _, _, _)
\* sum of a field of words i..j
SumOf(src, i, j, f) == IF i > j THEN 0 ELSE (IF f = "w" THEN src[i].w ELSE src[i].sp) + SumOf(src, i + 1, j, f)
MaxOf(src, i, j, f) == LET v == { IF f = "sz" THEN src[m].sz ELSE IF f = "up" THEN src[m].up ELSE src[m].dn : m \in i..j } \cup {0}
                       IN  CHOOSE x \in v : \A o \in v : o <= x

\* white space may be narrowed to 70% in justified text
Narrow(p, s) == IF p.align = "j" THEN (s * 7) \div 10 ELSE s
Width(st, i, j) == SumOf(st.src, i, j, "w")
Space(st, i, j) == SumOf(st.src, i + 1, j, "sp")
Least(st, i, j) == Width(st, i, j) + Narrow(st.p, Space(st, i, j))

\* width of the line that starts with word i, in the current area
Indent(st, i) == IF i = 1 /\ st.p.align \in {"l", "j"} THEN st.p.indent ELSE 0
Room(st, i) == st.area.w - (IF st.p.list THEN st.p.li ELSE 0) - Indent(st, i)
\* a right or center aligned first line may be filled as if it was indented
Tight(st, i) == st.area.w - (IF st.p.list THEN st.p.li ELSE 0) - (IF i = 1 THEN st.p.indent ELSE 0)

Last(st, j) == j = Len(st.src) \/ st.src[j + 1].br > 0
Empties(st, i) == IF i > Len(st.src) THEN 0
                  ELSE IF i = 1 THEN st.src[i].br ELSE IF st.src[i].br > 0 THEN st.src[i].br - 1 ELSE 0

\* the last word of the line that starts with word i, if words as far as the room goes are taken
RECURSIVE Taken(_, _, _)
Taken(st, i, j) == IF j < Len(st.src) /\ st.src[j + 1].br = 0 /\ Least(st, i, j + 1) < Room(st, i) + Tol
                   THEN Taken(st, i, j + 1) ELSE j

Lh(st, v) == (v * st.p.lh) \div 100
\* distances of the line of words i..j from the line or area top above it
Base(st, i, j) == MaxOf(st.src, i, j, "sz") + MaxOf(st.src, i, j, "up")
Above(st, i) == IF st.n = 0 \/ st.src[i].br > 0 THEN {0, st.p.lead, st.dn} ELSE {st.dn}
Gap(st, i, j, a) == LET b == Base(st, i, j) + a
                        m == IF i = 1 /\ st.p.list THEN Max(b, st.p.lsize) ELSE b
                    IN  IF st.n = 0 THEN m ELSE Lh(st, m)
LowGap(st, i, j) == Min(Base(st, i, j), Lh(st, Base(st, i, j)))
HighGap(st, i, j) == LET b == Max(Base(st, i, j), IF i = 1 THEN st.p.lsize ELSE 0) + st.p.lead + st.dn
                     IN  Max(b, Lh(st, b)) * (1 + Empties(st, i))

Known(st, e) == /\ e.ids # <<>>
                /\ st.pos + Len(e.ids) - 1 <= Len(st.src)
                /\ \A m \in DOMAIN e.ids : e.ids[m] = st.src[st.pos + m - 1].id

\* the area is left: was there room for the next line?
LeftEarly(st) == /\ st.areas > 0 /\ st.area.hk /\ st.pos <= Len(st.src)
                 /\ LET j == Taken(st, st.pos, st.pos)
                        need == st.area.y - st.y + Max(HighGap(st, st.pos, j), Gap(st, st.pos, j, Max(st.p.lead, st.dn)))
                    IN  \* a line that fits exactly fits, where nothing is rounded
                        IF st.p.exact THEN need <= st.area.h ELSE need < st.area.h - Tol

\* C06: what is painted
PaText(st, e) ==
  CASE e.ev = "line" ->
         Clause(Known(st, e), "EveryWordOnceInOrder")
         \cup (IF ~Known(st, e) THEN {}
               ELSE Clause(\A m \in 2..Len(e.ids) : st.src[st.pos + m - 1].br = 0, "BreaksAreKept"))
         \cup Clause((e.x1 >= st.area.x - Tol /\ e.x2 <= st.area.x + st.area.w + Tol) \/ Len(e.ids) = 1, "InsideTheAreaAcross")
         \cup Clause(e.y <= st.area.y + Tol /\ (st.area.hk => e.y >= st.area.y - st.area.h - Tol), "InsideTheAreaDown")
         \cup Clause(st.n > 0 => e.y < st.y, "LinesGoDown")
         \cup Clause(\A m \in 2..Len(e.xs) : e.xs[m] > e.xs[m - 1], "WordsGoRight")
    [] e.ev = "mark" -> Clause(st.p.list, "NothingElseIsPainted") \cup Clause(st.marks = 0, "ListMarkOnce")
    [] e.ev = "stray" -> {"NothingElseIsPainted"}
    [] e.ev = "finished" -> Clause(e.done, "Finishes") \cup Clause(st.pos = Len(st.src) + 1, "EveryWordPainted")
                            \cup Clause(st.p.list => st.marks = 1, "ListMarkOnce")
    [] e.ev = "malformed" -> {"WellFormed_" \o e.rule}
    [] OTHER -> {}

\* C07: where it is painted
PaPlace(st, e) ==
  CASE e.ev = "line" ->
      IF ~Known(st, e) THEN {"LineIsKnown"} ELSE
      LET i == st.pos
          j == st.pos + Len(e.ids) - 1
          W == Width(st, i, j)
          S == Space(st, i, j)
          al == st.p.align
          left == st.area.x + (IF st.p.list THEN st.p.li ELSE 0) + Indent(st, i)
          right == st.area.x + st.area.w
          off == IF st.p.list THEN st.p.li ELSE 0
          natural == W + S
          stretched == al = "j" /\ S > 0 /\ (~Last(st, j) \/ natural > Room(st, i))
      IN  Clause(j > i => Least(st, i, j) < Room(st, i) + Tol, "NotOverfilled")
          \cup Clause(Last(st, j) \/ Least(st, i, j + 1) > Tight(st, i) - Tol, "BrokenOnlyWhereTheNextWordDoesNotFit")
          \cup Clause(e.x2 <= right + Tol \/ i = j, "NotWiderThanTheParagraph")
          \cup (CASE al = "l" -> Clause(Near(e.x1, left), "LeftEdge") \cup Clause(Near(e.x2 - e.x1, natural), "NaturalWidth")
                  [] al = "r" -> Clause(Near(e.x2, right), "RightEdge") \cup Clause(Near(e.x2 - e.x1, natural), "NaturalWidth")
                  [] al = "c" -> Clause(Near(e.x1 + e.x2, st.area.x + off + right), "Centred") \cup Clause(Near(e.x2 - e.x1, natural), "NaturalWidth")
                  [] OTHER -> Clause(Near(e.x1, left), "LeftEdge")
                              \cup (IF stretched THEN Clause(Near(e.x2, right), "BothEdges")
                                    ELSE Clause(Near(e.x2 - e.x1, natural), "NaturalWidth")))
          \cup Clause(\A m \in 2..Len(e.xs) :
                         LET sp == st.src[i + m - 1].sp
                             gap == e.xs[m] - e.xs[m - 1] - st.src[i + m - 2].w
                         IN  IF stretched
                             THEN \* every space is stretched in proportion
                                  (S < 150000 /\ sp < 12000) =>
                                      LET a == right - left - W
                                          want == (a \div S) * sp + ((a % S) * sp) \div S
                                      IN  Near(gap, want)
                             ELSE Near(gap, sp), "SpacesAsTheStyleSays")
          \cup Clause(IF Empties(st, i) = 0
                      THEN \E a \in Above(st, i) : Near(st.y - e.y, Gap(st, i, j, a))
                      ELSE /\ st.y - e.y >= LowGap(st, i, j) - Tol
                           /\ st.y - e.y <= HighGap(st, i, j) + Tol, "LineDistance")
          \cup Clause(st.area.hk => st.area.y - e.y <= st.area.h + Tol, "FitsTheAreaItIsIn")
          \cup Clause((i = 1 /\ st.p.list) =>
                         /\ st.marks = 1
                         /\ IF st.src[1].br = 0 THEN Near(st.marky, e.y) ELSE st.marky >= e.y, "ListMarkBesideFirstLine")
    [] e.ev = "mark" -> Clause(Near(e.x, st.area.x), "ListMarkAtTheLeft") \cup Clause(st.pos = 1, "ListMarkBesideFirstLine")
    [] e.ev = "area" -> Clause(~LeftEarly(st), "AreaLeftOnlyWhenFull")
    [] e.ev = "malformed" -> {"WellFormed_" \o e.rule}
    [] OTHER -> {}

PaBoth(st, e) == PaText(st, e) \cup PaPlace(st, e)

PaStep(st, e) ==
  CASE e.ev = "para" -> [st EXCEPT !.p = e]
    [] e.ev = "word" -> [st EXCEPT !.src = Append(@, e)]
    [] e.ev = "area" -> [st EXCEPT !.area = e, !.areas = @ + 1, !.y = e.y, !.n = 0, !.dn = 0]
    [] e.ev = "mark" -> [st EXCEPT !.marks = @ + 1, !.marky = e.y]
    [] e.ev = "line" ->
         LET at == { m \in DOMAIN st.src : e.ids # <<>> /\ st.src[m].id = e.ids[Len(e.ids)] }
             j == IF at = {} THEN st.pos ELSE (CHOOSE m \in at : TRUE)
         IN  [st EXCEPT !.pos = j + 1, !.y = e.y, !.n = @ + 1,
                        !.dn = IF Known(st, e) THEN MaxOf(st.src, st.pos, j, "dn") ELSE 0]
    [] OTHER -> st

PaHit(st, e) ==
  CASE e.ev = "line" ->
         {"align " \o st.p.align}
         \cup (IF st.areas > 1 THEN {"continued in another area"} ELSE {})
         \cup (IF st.p.list THEN {"list"} ELSE {})
         \cup (IF st.pos = 1 /\ st.p.indent > 0 THEN {"indent"} ELSE {})
         \cup (IF st.dn > 0 THEN {"below lowered text"} ELSE {})
         \cup (IF ~Known(st, e) THEN {} ELSE
               (IF Len(e.ids) = 1 /\ st.src[st.pos].w > st.area.w THEN {"word wider than the area"} ELSE {})
               \cup (IF st.src[st.pos].br > 1 THEN {"empty line"} ELSE {})
               \cup (IF st.p.align = "j" /\ Len(e.ids) > 1 /\ ~Last(st, st.pos + Len(e.ids) - 1) THEN {"justified line"} ELSE {})
               \cup (IF \E m \in DOMAIN e.ids : st.src[st.pos + m - 1].up > 0 THEN {"raised"} ELSE {}))
    [] e.ev = "area" -> (IF st.areas > 0 /\ st.n = 0 THEN {"area with no room"} ELSE {})
                        \cup (IF st.p.exact /\ st.areas > 0 /\ st.area.h = st.area.y - st.y THEN {"area exactly full"} ELSE {})
    [] OTHER -> {}
=============================================================================
