-------------------------------- MODULE Style --------------------------------
(* The style of every character: what the elements around it ask for.       *)
(*                                                                          *)
(* Events                                                                   *)
(*   def [nodes, toks]  nodes, the outermost first: up (the node around it, *)
(*         0: none), sets (settings in the order in which they apply: those *)
(*         of the style string, then those of the style), each [a, v].      *)
(*         toks: the node every word is in; marks: the words that are marks *)
(*         of a paragraph (their lines and backgrounds are not judged)      *)
(*   tok [k, looks, under, back]  word k was painted: looks, the different  *)
(*         [font, size, c, rise] of its characters; under, the colors of    *)
(*         the lines under all of it; back, the color behind it (<<>>:      *)
(*         none)                                                            *)
(*   end                                                                    *)
(* Values: f a family; b, i, u TRUE or FALSE; s and r (part of the size)    *)
(* thousandths; c and bg a color: form (num, hex, name, none) and v (1, 3   *)
(* or 4 thousandths; 3, 4, 6 or 8 digits; a name).                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Clause(holds, name) == IF holds THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Near(c, d) == Len(c) = Len(d) /\ \A i \in DOMAIN c : Abs(c[i] - d[i]) <= 5

-----------------------------------------------------------------------------
\* colors, as <<r, g, b>> in thousandths; <<>>: none
Byte(n) == (n * 1000) \div 255
Named ==
  [black |-> <<0, 0, 0>>, white |-> <<255, 255, 255>>, red |-> <<255, 0, 0>>, lime |-> <<0, 255, 0>>, blue |-> <<0, 0, 255>>,
   yellow |-> <<255, 255, 0>>, cyan |-> <<0, 255, 255>>, magenta |-> <<255, 0, 255>>, gray |-> <<128, 128, 128>>, grey |-> <<128, 128, 128>>,
   green |-> <<0, 128, 0>>, navy |-> <<0, 0, 128>>, maroon |-> <<128, 0, 0>>, silver |-> <<192, 192, 192>>, orange |-> <<255, 165, 0>>,
   gold |-> <<255, 215, 0>>, brown |-> <<165, 42, 42>>, tomato |-> <<255, 99, 71>>, orchid |-> <<218, 112, 214>>, teal |-> <<0, 128, 128>>,
   hotpink |-> <<255, 105, 180>>, indigo |-> <<75, 0, 130>>, khaki |-> <<240, 230, 140>>, rebeccapurple |-> <<102, 51, 153>>]
Rgb(c) ==
  CASE c.form = "none" -> <<>>
    [] c.form = "num" -> IF Len(c.v) = 1 THEN <<c.v[1], c.v[1], c.v[1]>> ELSE SubSeq(c.v, 1, 3)
    [] c.form = "hex" -> IF Len(c.v) < 6 THEN [ i \in 1..3 |-> Byte(17 * c.v[i]) ] ELSE [ i \in 1..3 |-> Byte(16 * c.v[2 * i - 1] + c.v[2 * i]) ]
    [] c.form = "name" -> [ i \in 1..3 |-> Byte(Named[c.v][i]) ]

-----------------------------------------------------------------------------
\* the cascade
Default == [f |-> "Helvetica", b |-> FALSE, i |-> FALSE, u |-> FALSE, s |-> 11000, r |-> 0, c |-> [form |-> "num", v |-> <<100>>], bg |-> [form |-> "none", v |-> <<>>]]
RECURSIVE Apply(_, _)
Apply(st, sets) == IF sets = <<>> THEN st ELSE Apply([st EXCEPT ![sets[1].a] = sets[1].v], Tail(sets))
RECURSIVE StyleOf(_, _)
StyleOf(nodes, n) == IF n = 0 THEN Default ELSE Apply(StyleOf(nodes, nodes[n].up), nodes[n].sets)

Modes == [Helvetica |-> <<"Helvetica", "Helvetica-Bold", "Helvetica-Oblique", "Helvetica-BoldOblique">>,
          Courier |-> <<"Courier", "Courier-Bold", "Courier-Oblique", "Courier-BoldOblique">>,
          Times |-> <<"Times-Roman", "Times-Bold", "Times-Italic", "Times-BoldItalic">>,
          Symbol |-> <<"Symbol", "Symbol", "Symbol", "Symbol">>,
          ZapfDingbats |-> <<"ZapfDingbats", "ZapfDingbats", "ZapfDingbats", "ZapfDingbats">>]
FontOf(s) == Modes[s.f][1 + (IF s.b THEN 1 ELSE 0) + (IF s.i THEN 2 ELSE 0)]

StInit(trace) == [style |-> [ n \in DOMAIN trace[1].nodes |-> StyleOf(trace[1].nodes, n) ] \o <<>>, toks |-> trace[1].toks, marks |-> trace[1].marks, nodes |-> trace[1].nodes, seen |-> {}]
Want(st, k) == st.style[st.toks[k]]
StBad(st, e) ==
  CASE e.ev = "tok" ->
         LET w == Want(st, e.k)
             same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
         IN  UNION { LET l == e.looks[i]
                     IN  Clause(l.font = FontOf(w), "Font")
                         \cup Clause(Abs(l.size - w.s) <= 1, "Size")
                         \cup Clause(Near(l.c, Rgb(w.c)), "Color")
                         \cup Clause(Abs(l.rise - (w.r * (w.s \div 10)) \div 100) <= 3, "Rise") : i \in DOMAIN e.looks }
             \cup IF \E j \in DOMAIN st.marks : st.marks[j] = e.k THEN {} ELSE
             Clause(w.u => \E i \in DOMAIN e.under : Near(e.under[i], Rgb(w.c)), "Underlined")
             \cup Clause(~w.u => e.under = <<>>, "NotUnderlined")
             \cup Clause(Near(e.back, Rgb(w.bg)), "Background")
    [] e.ev = "malformed" -> {"Readable"}
    [] e.ev = "end" -> Clause(st.seen = DOMAIN st.toks, "EveryWordPainted")
    [] OTHER -> {}
StStep(st, e) == IF e.ev = "tok" THEN [st EXCEPT !.seen = @ \cup {e.k}] ELSE st
\* how deep attribute a is set around a node, and whether a setting hides another
RECURSIVE Setters(_, _, _)
Setters(nodes, n, a) == IF n = 0 THEN 0 ELSE Cardinality({ i \in DOMAIN nodes[n].sets : nodes[n].sets[i].a = a }) + Setters(nodes, nodes[n].up, a)
StHit(st, e) ==
  IF e.ev # "tok" THEN {}
  ELSE LET w == Want(st, e.k)
           n == st.toks[e.k]
       IN  { "hides " \o a : a \in { x \in DOMAIN Default : Setters(st.nodes, n, x) > 1 } }
           \cup (IF Setters(st.nodes, n, "b") > 1 /\ ~w.b THEN {"bold switched off"} ELSE {})
           \cup (IF Setters(st.nodes, n, "u") > 0 /\ ~w.u THEN {"underline switched off"} ELSE {})
           \cup (IF Setters(st.nodes, n, "bg") > 0 /\ w.bg.form = "none" THEN {"background switched off"} ELSE {})
           \cup {"color " \o w.c.form}
           \cup (IF w.u THEN {"underline"} ELSE {}) \cup (IF w.bg.form # "none" THEN {"background"} ELSE {})
           \cup (IF w.r < 0 THEN {"lowered"} ELSE IF w.r > 0 THEN {"raised"} ELSE {})
=============================================================================
