------------------------------- MODULE ParaMC -------------------------------
(* Exhaustive design model: a paragraph of words, white space and breaks is *)
(* set the way the library does it (words are tried one by one, a line that *)
(* does not fit the area is taken back, and setting goes on from the last   *)
(* line that was placed in the next area); every run is accepted by         *)
(* Para.tla, and every source with its areas is a scenario.                 *)
EXTENDS Para, TLC, Json

CONSTANTS MaxTokens, Chars, Aligns, Shapes

CW == 6000
Size == 10000
Heads == { <<0, FALSE>>, <<2 * CW, FALSE>>, <<0, TRUE>> }
\* areas: repeating sequence of widths in characters and heights in lines
ShapeOf(k) == CASE k = 1 -> << <<10, 99>> >>
                [] k = 2 -> << <<10, 1>>, <<8, 1>> >>
                [] k = 3 -> << <<8, 2>>, <<13, 1>> >>
                [] OTHER -> << <<10, 0>>, <<10, 2>> >>
HeightOf(n) == IF n = 99 THEN 900000 ELSE IF n = 0 THEN 5000 ELSE 12000 + (n - 1) * 11000

VARIABLES toks, align, head, shape, phase, ev, cur, saved, line, area, used, nline, brk
vars == <<toks, align, head, shape, phase, ev, cur, saved, line, area, used, nline, brk>>
\* toks: words as numbers of characters, 0 is a line break
\* cur: token to try next; saved: token to go on from in the next area
\* line: tokens on the current line; used: height used in the area; brk: the line starts after a break
P == [ev |-> "para", align |-> align, lh |-> 110, indent |-> head[1], list |-> head[2], li |-> IF head[2] THEN 2 * CW ELSE 0,
      lsize |-> IF head[2] THEN Size ELSE 0, lead |-> 1100, exact |-> TRUE]
WordsOf == SelectSeq([k \in DOMAIN toks |-> IF toks[k] = 0 THEN 0 ELSE k], LAMBDA k : k > 0)
RECURSIVE Brks(_)
Brks(k) == IF k = 0 \/ toks[k] # 0 THEN 0 ELSE 1 + Brks(k - 1)
SrcEvents == [m \in DOMAIN WordsOf |->
                LET k == WordsOf[m] b == Brks(k - 1)
                IN  [ev |-> "word", id |-> k, w |-> toks[k] * CW, sz |-> Size, up |-> 0, dn |-> 0,
                     sp |-> IF m = 1 \/ b > 0 THEN 0 ELSE CW, br |-> b]]

Shape == ShapeOf(shape)
AreaNo(a) == Shape[((a - 1) % Len(Shape)) + 1]
AreaEv(a) == [ev |-> "area", x |-> 50000, y |-> 800000 - a, w |-> AreaNo(a)[1] * CW + 1000, h |-> HeightOf(AreaNo(a)[2]), hk |-> TRUE]
RECURSIVE Chs(_)
Chs(l) == IF l = <<>> THEN 0 ELSE toks[l[1]] * CW + Chs(Tail(l))
LineRoom(a, fst) == AreaEv(a).w - P.li - (IF fst THEN P.indent ELSE 0)
Fits(l, a, fst) == Chs(l) + Narrow(P, (Len(l) - 1) * CW) < LineRoom(a, fst)

Init == /\ toks = <<>> /\ align \in Aligns /\ head \in Heads /\ shape \in Shapes
        /\ phase = "source" /\ ev = <<>> /\ cur = 1 /\ saved = 1 /\ line = <<>> /\ area = 0 /\ used = 0 /\ nline = 0 /\ brk = TRUE
Feed(t) == /\ phase = "source" /\ Len(toks) < MaxTokens
           /\ toks' = Append(toks, t)
           /\ UNCHANGED <<align, head, shape, phase, ev, cur, saved, line, area, used, nline, brk>>
Start == /\ phase = "source" /\ toks # <<>> /\ toks[Len(toks)] # 0 /\ toks[1] # 0
         /\ phase' = "set" /\ ev' = <<P>> \o SrcEvents
         /\ UNCHANGED <<toks, align, head, shape, cur, saved, line, area, used, nline, brk>>
Open == /\ phase \in {"set", "next"}
        /\ phase' = "fill" /\ area' = area + 1 /\ ev' = Append(ev, AreaEv(area + 1))
        /\ cur' = saved /\ line' = <<>> /\ used' = 0 /\ nline' = 0 /\ brk' = TRUE
        /\ UNCHANGED <<toks, align, head, shape, saved>>

IsFirst(l) == l # <<>> /\ l[1] = 1
\* what a finished line looks like on the page
LineEv(l, a, last) ==
  LET A == AreaEv(a)
      fst == IsFirst(l)
      ind == IF fst /\ align \in {"l", "j"} THEN P.indent ELSE 0
      left == A.x + P.li + ind
      right == A.x + A.w
      W == Chs(l)
      S == (Len(l) - 1) * CW
      room == right - left
      st == align = "j" /\ S > 0 /\ (~last \/ W + S > room)
      \* position of word m in thousandths of the spaces
      off(m) == Chs(SubSeq(l, 1, m - 1)) + (IF S = 0 THEN 0 ELSE IF st THEN ((room - W) * (m - 1)) \div (Len(l) - 1) ELSE (m - 1) * CW)
      x1 == IF align = "r" THEN right - W - S ELSE IF align = "c" THEN A.x + P.li + ((A.w - P.li - W - S) \div 2) ELSE left
  IN  [ev |-> "line", x1 |-> x1, x2 |-> x1 + off(Len(l)) + toks[l[Len(l)]] * CW, ids |-> l, xs |-> [m \in DOMAIN l |-> x1 + off(m)],
       y |-> 0]
\* height of a line: leading above the first of an area and after a break
LineH(b) == IF nline = 0 THEN Size + 1100 ELSE IF b THEN ((Size + 1100) * 110) \div 100 ELSE (Size * 110) \div 100
EmptyH == IF nline = 0 THEN 1100 ELSE 1210
Close(l, nxt, last) ==
  LET h == IF l = <<>> THEN EmptyH ELSE LineH(brk)
      A == AreaEv(area)
  IN  IF used + h > A.h
      THEN /\ phase' = "next" /\ UNCHANGED <<ev, cur, saved, line, used, nline, brk>>
      ELSE /\ used' = used + h /\ nline' = nline + 1 /\ saved' = nxt /\ brk' = last
           /\ ev' = IF l = <<>> THEN ev
                    ELSE LET le == [LineEv(l, area, last) EXCEPT !.y = A.y - used - h]
                         IN  ev \o (IF P.list /\ l[1] = 1 THEN <<[ev |-> "mark", x |-> A.x, y |-> le.y]>> ELSE <<>>) \o <<le>>
           /\ phase' = "fill"
Word == /\ phase = "fill" /\ cur <= Len(toks) /\ toks[cur] # 0
        /\ LET l2 == Append(line, cur)
           IN  IF line = <<>> \/ Fits(l2, area, l2[1] = 1)
               THEN line' = l2 /\ cur' = cur + 1 /\ UNCHANGED <<phase, ev, saved, used, nline, brk>>
               ELSE /\ Close(line, cur, FALSE)
                    /\ IF phase' = "fill" THEN line' = <<>> /\ cur' = cur ELSE TRUE
        /\ UNCHANGED <<toks, align, head, shape, area>>
Break == /\ phase = "fill" /\ cur <= Len(toks) /\ toks[cur] = 0
         /\ Close(line, cur + 1, TRUE)
         /\ IF phase' = "fill" THEN line' = <<>> /\ cur' = cur + 1 ELSE TRUE
         /\ UNCHANGED <<toks, align, head, shape, area>>
End == /\ phase = "fill" /\ cur > Len(toks)
       /\ LET h == LineH(brk) IN
          IF used + h > AreaEv(area).h
          THEN phase' = "next" /\ UNCHANGED <<ev, cur, saved, line, used, nline, brk>>
          ELSE /\ phase' = "done"
               /\ LET le == [LineEv(line, area, TRUE) EXCEPT !.y = AreaEv(area).y - used - h]
                  IN  ev' = ev \o (IF P.list /\ line[1] = 1 THEN <<[ev |-> "mark", x |-> AreaEv(area).x, y |-> le.y]>> ELSE <<>>)
                               \o <<le, [ev |-> "finished", done |-> TRUE]>>
               /\ saved' = cur
               /\ UNCHANGED <<cur, line, used, nline, brk>>
       /\ UNCHANGED <<toks, align, head, shape, area>>
Next == (\E t \in Chars \cup {0} : Feed(t)) \/ Start \/ Open \/ Word \/ Break \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Open \/ Word \/ Break \/ End)

RECURSIVE BadOf(_, _)
BadOf(s, es) == IF es = <<>> THEN {} ELSE PaBoth(s, es[1]) \cup BadOf(PaStep(s, es[1]), Tail(es))
Accepted == phase = "done" => BadOf(PaInit(<<>>), ev) = {}
\* nothing is lost, repeated or reordered when a line is taken back
Placed == LET ls == SelectSeq(ev, LAMBDA e : e.ev = "line")
              RECURSIVE Cat(_)
              Cat(q) == IF q = <<>> THEN <<>> ELSE q[1].ids \o Cat(Tail(q))
          IN  Cat(ls)
InOrder == LET q == Placed IN \A m \in DOMAIN q : m <= Len(WordsOf) /\ q[m] = WordsOf[m]
SavedIsPlaced == phase # "source" => \A k \in DOMAIN toks : (toks[k] # 0 /\ k < saved) <=> \E m \in DOMAIN Placed : Placed[m] = k
Terminates == (phase = "set") ~> (phase = "done")
Bounded == area <= 2 * MaxTokens + 2
Emit == phase = "done" => PrintT("@SCENARIO " \o ToJson([toks |-> toks, align |-> align, indent |-> head[1] \div CW, list |-> head[2],
                                                         areas |-> [k \in DOMAIN Shape |-> <<Shape[k][1], HeightOf(Shape[k][2])>>]]))
=============================================================================
