-------------------------------- MODULE Fonts --------------------------------
(* Text in embedded fonts: which font file it is painted with, with which   *)
(* glyphs, how it reads back, and how wide it is.                           *)
(*                                                                          *)
(* Events                                                                   *)
(*   def [files]  files: for each font file [upem, chars, adv]; chars: the  *)
(*         characters it has, as [c, g] (code point, glyph; glyph 0 is the  *)
(*         one of all other characters); adv: the glyphs with their advance *)
(*         widths, in units of which upem make an em                        *)
(*   register [fam, mode, file]  for all documents of the process           *)
(*   doc [d, just]  a document is opened; just: its lines are justified     *)
(*   add [d, fam, mode, file, how]  for this document                       *)
(*   text [d, k, fam, mode, size, chars, how]  the k-th text given to the   *)
(*         document, in points; how: ok, refused (an error that says so),   *)
(*         crash                                                            *)
(*   place [d, k, x, w, px, pw]  where the layout puts a line of text k     *)
(*         (from its background) and where the glyphs of it are painted     *)
(*   painted [d, glyphs]  the glyphs painted in document d, in order: each  *)
(*         [file, g, uni, w]: glyph g of the embedded copy of the file (or  *)
(*         file 0: a standard font, with its name in base), which reads     *)
(*         back as the code points uni and has the declared width w (in     *)
(*         hundred thousandths of the em)                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Clause(holds, name) == IF holds THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Rang(s) == { s[i] : i \in DOMAIN s }

Standard == { "Helvetica", "Times", "Courier" }
Bases(fam, mode) ==
  CASE fam = "Helvetica" -> (CASE mode = "n" -> "Helvetica" [] mode = "b" -> "Helvetica-Bold" [] mode = "i" -> "Helvetica-Oblique" [] OTHER -> "Helvetica-BoldOblique")
    [] fam = "Times" -> (CASE mode = "n" -> "Times-Roman" [] mode = "b" -> "Times-Bold" [] mode = "i" -> "Times-Italic" [] OTHER -> "Times-BoldItalic")
    [] OTHER -> (CASE mode = "n" -> "Courier" [] mode = "b" -> "Courier-Bold" [] mode = "i" -> "Courier-Oblique" [] OTHER -> "Courier-BoldOblique")

-----------------------------------------------------------------------------
(* The font files                                                           *)
Has(file, c) == \E x \in Rang(file.chars) : x[1] = c
GlyphOf(file, c) == IF Has(file, c) THEN (CHOOSE x \in Rang(file.chars) : x[1] = c)[2] ELSE 0
Advance(file, g) == (CHOOSE x \in Rang(file.adv) : x[1] = g)[2]
\* in hundred thousandths of the em
WidthOf(file, g) == ((Advance(file, g) * 1000) \div file.upem) * 100 + (((Advance(file, g) * 1000) % file.upem) * 100) \div file.upem
RECURSIVE Sum(_, _, _)
Sum(file, chars, i) == IF i > Len(chars) THEN 0 ELSE Advance(file, GlyphOf(file, chars[i])) + Sum(file, chars, i + 1)
\* in thousandths of a point
TextWidth(file, chars, size) == ((Sum(file, chars, 1) * size * 10) \div file.upem) * 100 + ((((Sum(file, chars, 1) * size * 10) % file.upem) * 100) \div file.upem)

-----------------------------------------------------------------------------
(* Which file a document uses for a family and mode: the one registered or  *)
(* added for them, else the one of the normal mode of the family, else any  *)
(* of the family, or none.  A document that was open when a font was        *)
(* registered anew may keep the one before.                                 *)
Files(st, d, fam, mode) ==
  { x[4] : x \in { y \in st.own : y[1] = d /\ y[2] = fam /\ y[3] = mode } }
  \cup { x[3] : x \in { y \in st.reg : y[1] = fam /\ y[2] = mode } }
  \cup { x[4] : x \in { y \in st.old : y[1] = d /\ y[2] = fam /\ y[3] = mode } }
Family(st, d, fam) == UNION { Files(st, d, fam, m) : m \in {"n", "b", "i", "bi"} } \cup { x[3] : x \in { y \in st.was : y[1] = d /\ y[2] = fam } }
Allowed(st, d, fam, mode) ==
  IF Files(st, d, fam, mode) # {} THEN Files(st, d, fam, mode)
  ELSE IF fam \in Standard THEN {0}
  ELSE IF Files(st, d, fam, "n") # {} THEN Files(st, d, fam, "n")
  ELSE Family(st, d, fam)
MustBeSet(st, d, fam, mode) == Files(st, d, fam, mode) # {} \/ Files(st, d, fam, "n") # {} \/ fam \in Standard
AllHas(st, e, fs) == (0 \in fs => \A c \in Rang(e.chars) : c < 256) /\ \A f \in fs \ {0} : \A c \in Rang(e.chars) : Has(st.files[f], c)

-----------------------------------------------------------------------------
StInit(trace) == [files |-> trace[1].files, reg |-> {}, own |-> {}, was |-> {}, old |-> {}, docs |-> {}, just |-> {}, want |-> <<>>, texts |-> {}, placed |-> {}]

RECURSIVE Wanted(_, _, _)
Wanted(want, d, i) ==
  IF i > Len(want) THEN <<>>
  ELSE (IF want[i].d = d THEN [ j \in DOMAIN want[i].chars |-> [c |-> want[i].chars[j], files |-> want[i].files, base |-> want[i].base] ] \o <<>> ELSE <<>>)
       \o Wanted(want, d, i + 1)
IsIn(w, g) == g.file \in w.files
Painted(st, d, glyphs) ==
  LET all == Wanted(st.want, d, 1)
      w == IF d \in st.just THEN SelectSeq(all, LAMBDA x : x.c # 32) ELSE all
      g == IF d \in st.just THEN SelectSeq(glyphs, LAMBDA x : x.uni # <<32>>) ELSE glyphs
      known(i) == g[i].file > 0 /\ g[i].file <= Len(st.files)
  IN  IF Len(w) # Len(g) THEN {"EveryCharacterOnce"}
      ELSE Clause(\A i \in DOMAIN w : g[i].file \in w[i].files /\ (g[i].file = 0 => g[i].base = w[i].base), "TheRightFont")
           \cup Clause(\A i \in DOMAIN w : known(i) => g[i].g = GlyphOf(st.files[g[i].file], w[i].c), "TheGlyphOfTheCharacter")
           \cup Clause(\A i \in DOMAIN w : g[i].file = 0 \/ (known(i) /\ Has(st.files[g[i].file], w[i].c)) => g[i].uni = <<w[i].c>>, "ReadsBack")
           \cup Clause(\A i \in DOMAIN w : known(i) => Abs(g[i].w - WidthOf(st.files[g[i].file], GlyphOf(st.files[g[i].file], w[i].c))) <= 2, "DeclaredWidth")

Near == 35
Place(st, e) ==
  LET ts == { t \in st.texts : t.d = e.d /\ t.k = e.k }
  IN  Clause(Abs(e.x - e.px) <= Near, "PaintedWhereLaidOut")
      \cup Clause(Abs(e.w - e.pw) <= Near, "AsWideAsLaidOut")
      \cup Clause(e.d \in st.just
                  \/ \A t \in ts : \E f \in t.files : f = 0 \/ Abs(e.w - TextWidth(st.files[f], t.chars, t.size)) <= Near, "LaidOutWithTheWidths")

StBad(st, e) ==
  CASE e.ev = "text" ->
         LET fs == Allowed(st, e.d, e.fam, e.mode)
         IN  Clause(e.how = "ok" \/ ~AllHas(st, e, fs) \/ (e.how = "refused" /\ ~MustBeSet(st, e.d, e.fam, e.mode)), "CanBeSet")
             \cup Clause(e.how # "ok" \/ fs # {}, "UnknownFontIsRefused")
    [] e.ev = "add" -> Clause(e.how = "ok", "CanBeAdded")
    [] e.ev = "place" -> Place(st, e)
    [] e.ev = "painted" -> Painted(st, e.d, e.glyphs)
    [] e.ev = "end" -> Clause(\A t \in st.texts : <<t.d, t.k>> \in st.placed, "EveryTextIsLaidOut")
    [] e.ev = "malformed" -> {"Readable"}
    [] OTHER -> {}
StStep(st, e) ==
  CASE e.ev = "register" ->
         LET before == { x \in st.reg : x[1] = e.fam /\ x[2] = e.mode }
         IN  [st EXCEPT !.reg = (@ \ before) \cup {<<e.fam, e.mode, e.file>>},
                        !.old = @ \cup { <<d, e.fam, e.mode, x[3]>> : d \in st.docs, x \in before }]
    [] e.ev = "doc" -> [st EXCEPT !.docs = @ \cup {e.d}, !.just = IF e.just THEN @ \cup {e.d} ELSE @]
    [] e.ev = "add" -> [st EXCEPT !.own = { x \in @ : ~(x[1] = e.d /\ x[2] = e.fam /\ x[3] = e.mode) } \cup {<<e.d, e.fam, e.mode, e.file>>},
                               !.was = @ \cup {<<e.d, e.fam, e.file>>}]
    [] e.ev = "text" /\ e.how = "ok" ->
         LET fs == Allowed(st, e.d, e.fam, e.mode)
         IN  [st EXCEPT !.want = Append(@, [d |-> e.d, chars |-> e.chars, files |-> fs, base |-> Bases(e.fam, e.mode)]),
                        !.texts = @ \cup {[d |-> e.d, k |-> e.k, files |-> fs, chars |-> e.chars, size |-> e.size]}]
    [] e.ev = "place" -> [st EXCEPT !.placed = @ \cup {<<e.d, e.k>>}]
    [] OTHER -> st
StHit(st, e) ==
  CASE e.ev = "text" ->
         LET fs == Allowed(st, e.d, e.fam, e.mode)
         IN  {e.how} \cup (IF Files(st, e.d, e.fam, e.mode) = {} /\ fs # {} /\ e.fam \notin Standard THEN {"another mode"} ELSE {})
             \cup (IF e.fam \in Standard THEN (IF fs = {0} THEN {"a standard font"} ELSE {"added for a standard family"}) ELSE {})
             \cup (IF \E t \in st.texts : t.d # e.d /\ t.files # fs THEN {"documents with different fonts"} ELSE {})
             \cup (IF \E t \in st.texts : t.d = e.d /\ t.files # fs THEN {"several fonts in a document"} ELSE {})
             \cup (IF \E f \in fs \ {0} : \E c \in Rang(e.chars) : ~Has(st.files[f], c) THEN {"a character the font does not have"} ELSE {})
             \cup (IF \E f \in fs \ {0} : \E c \in Rang(e.chars) : \E x \in Rang(st.files[f].chars) : c # x[1] /\ Has(st.files[f], c) /\ GlyphOf(st.files[f], c) = x[2]
                   THEN {"characters of one glyph"} ELSE {})
             \cup (IF \E c \in Rang(e.chars) : c > 65535 THEN {"beyond the basic plane"} ELSE {})
    [] e.ev = "painted" -> (IF e.d \in st.just THEN {"justified"} ELSE {})
                           \cup (IF \E i \in DOMAIN e.glyphs : e.glyphs[i].g > 55295 THEN {"a large font"} ELSE {})
    [] e.ev = "register" -> (IF \E x \in st.reg : x[1] = e.fam /\ x[2] = e.mode THEN {"registered anew"} ELSE {"registered"})
    [] e.ev = "add" -> (IF \E t \in st.texts : t.d = e.d THEN {"added after some text"} ELSE {"added"})
    [] OTHER -> {}
=============================================================================
