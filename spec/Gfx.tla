--------------------------------- MODULE Gfx ---------------------------------
(* Content streams: the operators of PDF, the graphics state they keep and  *)
(* what every element of a document asks of it.                             *)
(*                                                                          *)
(* Events                                                                   *)
(*   def [toks, lines, fills, imgs]  what the definition asks.  toks: font, *)
(*         size, c (color), just (in justified text), under (underlined).   *)
(*         lines: c, w, d (solid, dashed, dotted), must (has to be painted  *)
(*         somewhere).  fills: c, must.  imgs: w, h in pixels, must.        *)
(*   page                                                                   *)
(*   op [op, sig, n, ...]  an operator of the page's stream.  sig: kinds of *)
(*         its operands (n number, N name, s string, a array, d             *)
(*         dictionary).  n: its numbers.  Tf: font (base font of the object *)
(*         the page declares under that name, "" if none).  Do: img (pixels *)
(*         of the image declared under that name, <<>> if none).  d: dash.  *)
(*         Strings: toks (the marked words in it), blank                    *)
(*   close  the stream ends                                                 *)
(*   end                                                                    *)
(* Numbers are in thousandths.  Colors are <<r, g, b>>.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Clause(holds, name) == IF holds THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Near(c, d) == \A i \in 1..3 : Abs(c[i] - d[i]) <= 4

\* operands of every operator; of those in Free, any
Sig == [w |-> "n", J |-> "n", j |-> "n", M |-> "n", d |-> "an", ri |-> "N", i |-> "n",
        q |-> "", Q |-> "", cm |-> "nnnnnn",
        m |-> "nn", l |-> "nn", c |-> "nnnnnn", v |-> "nnnn", y |-> "nnnn", h |-> "", re |-> "nnnn",
        S |-> "", s |-> "", f |-> "", F |-> "", B |-> "", b |-> "", n |-> "", W |-> "",
        BT |-> "", ET |-> "", Tc |-> "n", Tw |-> "n", Tz |-> "n", TL |-> "n", Tf |-> "Nn", Tr |-> "n", Ts |-> "n",
        Td |-> "nn", TD |-> "nn", Tm |-> "nnnnnn", Tj |-> "s", TJ |-> "a",
        G |-> "n", g |-> "n", RG |-> "nnn", rg |-> "nnn", K |-> "nnnn", k |-> "nnnn", CS |-> "N", cs |-> "N",
        Do |-> "N", MP |-> "N", BMC |-> "N", EMC |-> "", BX |-> "", EX |-> ""]
       @@ ("f*" :> "") @@ ("B*" :> "") @@ ("b*" :> "") @@ ("W*" :> "") @@ ("T*" :> "") @@ ("'" :> "s") @@ ("\"" :> "nns")
Build == {"m", "l", "c", "v", "y", "h", "re"}
Fills == {"f", "F", "f*", "B", "B*", "b", "b*"}
Strokes == {"S", "s", "B", "B*", "b", "b*"}
Paint == Fills \cup Strokes \cup {"n"}
Clips == {"W", "W*"}
ShowText == {"Tj", "TJ", "'", "\""}
InText == {"Td", "TD", "Tm", "T*"} \cup ShowText
OnPage == {"q", "Q", "cm", "Do", "BT"}
Colors == {"g", "G", "rg", "RG"}

Fresh == [font |-> "", size |-> 0, fill |-> <<0, 0, 0>>, stroke |-> <<0, 0, 0>>, lw |-> 1000, cap |-> 0, dash |-> <<>>, tw |-> 0]
GxInit(trace) == [d |-> trace[1], gs |-> Fresh, stack |-> <<>>, mode |-> "page", kind |-> {}, ratio |-> 0, lines |-> {}, fills |-> {}, imgs |-> {}]

Mode(st, op) ==
  CASE op \in Build /\ (st.mode = "path" \/ (st.mode = "page" /\ op \in {"m", "re"})) -> "path"
    [] op \in Clips /\ st.mode = "path" -> "path"
    [] op \in Paint /\ st.mode = "path" -> "page"
    [] op = "BT" /\ st.mode = "page" -> "text"
    [] op = "ET" /\ st.mode = "text" -> "page"
    [] OTHER -> st.mode
Allowed(st, op) ==
  CASE op \in Build -> st.mode = "path" \/ (st.mode = "page" /\ op \in {"m", "re"})
    [] op \in Clips \cup Paint -> st.mode = "path"
    [] op \in OnPage -> st.mode = "page"
    [] op \in InText \cup {"ET"} -> st.mode = "text"
    [] OTHER -> st.mode \in {"page", "text"}

Rgb(n) == IF Len(n) = 1 THEN <<n[1], n[1], n[1]>> ELSE n
Gs(st, e) ==
  LET g == st.gs
  IN  CASE e.op = "Tf" -> [g EXCEPT !.font = e.font, !.size = e.n[1]]
        [] e.op \in {"g", "rg"} -> [g EXCEPT !.fill = Rgb(e.n)]
        [] e.op \in {"G", "RG"} -> [g EXCEPT !.stroke = Rgb(e.n)]
        [] e.op = "w" -> [g EXCEPT !.lw = e.n[1]]
        [] e.op = "J" -> [g EXCEPT !.cap = e.n[1] \div 1000]
        [] e.op = "d" -> [g EXCEPT !.dash = e.dash]
        [] e.op = "Tw" -> [g EXCEPT !.tw = e.n[1]]
        [] e.op = "Q" -> IF st.stack # <<>> THEN st.stack[1] ELSE g
        [] OTHER -> g
Style(g) == IF g.dash = <<>> THEN "solid" ELSE IF g.dash[1] = 0 THEN "dotted" ELSE "dashed"

Known(e) == e.op \in DOMAIN Sig
Right(e) == Known(e) /\ e.sig = Sig[e.op]
Underlines(st, g) == { t \in DOMAIN st.d.toks : st.d.toks[t].under /\ Near(st.d.toks[t].c, g.stroke) }
Lines(st, g) == { q \in DOMAIN st.d.lines : Near(st.d.lines[q].c, g.stroke) /\ Abs(st.d.lines[q].w - g.lw) <= 1 /\ st.d.lines[q].d = Style(g) }
FillsOf(st, g) == { q \in DOMAIN st.d.fills : Near(st.d.fills[q].c, g.fill) }
ImagesOf(st, e) == { q \in DOMAIN st.d.imgs : <<st.d.imgs[q].w, st.d.imgs[q].h>> = e.img }
\* width of an underline for its size, in thousandths
Ratio(st, g) == LET t == CHOOSE t \in Underlines(st, g) : TRUE IN (g.lw * 1000) \div st.d.toks[t].size

Operands(st, e) ==
  CASE e.op \in Colors -> Clause(\A i \in DOMAIN e.n : e.n[i] \in 0..1000, "ColorInRange")
    [] e.op = "w" -> Clause(e.n[1] >= 0, "LineWidthNotNegative")
    [] e.op = "J" -> Clause(e.n[1] \in {0, 1000, 2000}, "CapKnown")
    [] e.op = "d" -> Clause(\A i \in DOMAIN e.dash : e.dash[i] >= 0, "DashNotNegative")
                     \cup Clause(e.dash = <<>> \/ \E i \in DOMAIN e.dash : e.dash[i] > 0, "DashNotZero")
    [] e.op = "Tf" -> Clause(e.font # "", "FontDeclared") \cup Clause(e.n[1] > 0, "FontSizePositive")
    [] e.op = "Do" -> Clause(e.img # <<>>, "ImageDeclared") \cup Clause(e.img = <<>> \/ ImagesOf(st, e) # {}, "ImageAsked")
    [] e.op = "Q" -> Clause(st.stack # <<>>, "RestoreSaved")
    [] OTHER -> {}
Word(st, e, g) ==
  Clause(g.font # "", "FontSet")
  \cup UNION { LET a == st.d.toks[e.toks[i]]
               IN  Clause(g.font = a.font, "FontOfItsElement")
                   \cup Clause(Abs(g.size - a.size) <= 1, "SizeOfItsElement")
                   \cup Clause(Near(g.fill, a.c), "ColorOfItsElement")
                   \cup Clause(a.just \/ g.tw = 0, "WordSpacingOfItsElement") : i \in DOMAIN e.toks }
Stroked(st, g) ==
  Clause(Style(g) # "dotted" \/ g.cap \in {1, 2}, "DotsVisible")
  \cup Clause(Style(g) = "dotted" \/ g.cap = 0, "CapOfItsElement")
  \cup IF Underlines(st, g) # {}
       THEN Clause(Style(g) = "solid", "UnderlineSolid")
            \cup Clause(st.ratio = 0 \/ Abs(Ratio(st, g) - st.ratio) <= 1, "UnderlineWidth")
       ELSE Clause(Lines(st, g) # {}, "LineAsAsked")
Effect(st, e) ==
  CASE e.op \in ShowText -> Word(st, e, st.gs)
    [] e.op \in Paint -> (IF e.op \in Strokes THEN Stroked(st, st.gs) ELSE {})
                         \cup (IF e.op \in Fills THEN Clause(FillsOf(st, st.gs) # {}, "FillAsAsked") ELSE {})
                         \cup Clause((e.op \in Strokes => "l" \in st.kind \/ "re" \in st.kind \/ "c" \in st.kind), "LinePainted")
    [] OTHER -> {}
GxBad(st, e) ==
  CASE e.ev = "op" ->
         Clause(Known(e), "OperatorKnown")
         \cup Clause(Known(e) => Right(e), "OperandsRight")
         \cup IF ~Right(e) THEN {} ELSE Clause(Allowed(st, e.op), "OperatorInItsPlace") \cup Operands(st, e) \cup Effect(st, e)
    [] e.ev = "close" -> Clause(st.stack = <<>>, "SavesRestored") \cup Clause(st.mode # "path", "PathPainted") \cup Clause(st.mode # "text", "TextObjectClosed")
    [] e.ev = "malformed" -> {"StreamReadable"}
    [] e.ev = "end" -> Clause(\A q \in DOMAIN st.d.lines : st.d.lines[q].must => q \in st.lines, "EveryLinePainted")
                       \cup Clause(\A q \in DOMAIN st.d.toks : st.d.toks[q].under => \E c \in st.lines : c = 0 - q, "EveryUnderlinePainted")
                       \cup Clause(\A q \in DOMAIN st.d.fills : st.d.fills[q].must => q \in st.fills, "EveryFillPainted")
                       \cup Clause(\A q \in DOMAIN st.d.imgs : st.d.imgs[q].must => q \in st.imgs, "EveryImagePainted")
    [] OTHER -> {}
GxStep(st, e) ==
  CASE e.ev = "page" -> [st EXCEPT !.gs = Fresh, !.stack = <<>>, !.mode = "page", !.kind = {}]
    [] e.ev = "op" /\ Right(e) ->
         LET stroke == e.op \in Strokes
             fill == e.op \in Fills
         IN  [st EXCEPT !.gs = Gs(st, e),
                        !.stack = IF e.op = "q" THEN <<st.gs>> \o @ ELSE IF e.op = "Q" /\ @ # <<>> THEN Tail(@) ELSE @,
                        !.mode = Mode(st, e.op),
                        !.kind = IF e.op \in Build THEN @ \cup {e.op} ELSE IF e.op \in Paint THEN {} ELSE @,
                        !.ratio = IF stroke /\ @ = 0 /\ Underlines(st, st.gs) # {} THEN Ratio(st, st.gs) ELSE @,
                        !.lines = IF stroke THEN @ \cup Lines(st, st.gs) \cup { 0 - t : t \in Underlines(st, st.gs) } ELSE @,
                        !.fills = IF fill THEN @ \cup FillsOf(st, st.gs) ELSE @,
                        !.imgs = IF e.op = "Do" THEN @ \cup ImagesOf(st, e) ELSE @]
    [] OTHER -> st
GxHit(st, e) ==
  IF e.ev # "op" \/ ~Right(e) THEN {}
  ELSE (IF e.op \in ShowText /\ e.toks # <<>> THEN {"word"} \cup (IF st.gs.tw # 0 THEN {"justified"} ELSE {}) ELSE {})
       \cup (IF e.op \in Strokes THEN {Style(st.gs)} \cup (IF Underlines(st, st.gs) # {} THEN {"underline"} ELSE {}) ELSE {})
       \cup (IF e.op \in Fills THEN {"fill"} ELSE {})
       \cup (IF e.op = "Do" THEN {"image"} ELSE {})
       \cup (IF st.stack # <<>> THEN {"saved"} ELSE {})
=============================================================================
