------------------------------- MODULE FontsMC -------------------------------
(* Exhaustive design model of the fonts of two documents in one process:    *)
(* fonts are registered for all and added for one, loaded when first used,  *)
(* looked up by family and mode, and embedded once.  What it paints is      *)
(* accepted by the clauses of Fonts.tla, and rejected when fonts added to a *)
(* document are seen in the other one (shared), the mode is not looked at   *)
(* (mode), a family without the mode is refused (default) or the font       *)
(* loaded last is taken for it (last), an embedded font is kept for a key   *)
(* when another font is added for it (stale), registered fonts are looked   *)
(* up by family only (family), the layout uses the widths of the normal     *)
(* mode (layout), or the glyphs (glyph), the way back (back) or the         *)
(* declared widths (width) of an embedded font are off by one.              *)
EXTENDS Fonts, Json

CONSTANTS Fams, Modes, MaxOps, Faults
VARIABLES fault, ops, reg, loaded, embedded, out, k, told
vars == <<fault, ops, reg, loaded, embedded, out, k, told>>

\* two characters with exchanged glyphs in the second file
File(f) == [upem |-> 1000, chars |-> IF f = 1 THEN <<<<65, 1>>, <<66, 2>>>> ELSE <<<<65, 2>>, <<66, 1>>>>, adv |-> <<<<0, 500>>, <<1, 100 * f + 10>>, <<2, 100 * f + 30>>>>]
Def == [ev |-> "def", files |-> <<File(1), File(2)>>]
Text == <<65, 66, 65>>
Docs == 1..2

Ops == [op : {"register"}, fam : Fams, mode : Modes, file : 1..2]
       \cup [op : {"add"}, d : Docs, fam : Fams, mode : Modes, file : 1..2]
       \cup [op : {"text"}, d : Docs, fam : Fams, mode : Modes]

Init == /\ fault \in Faults /\ ops = <<>> /\ reg = {} /\ loaded = <<<<>>, <<>>>> /\ embedded = <<{}, {}>> /\ k = 0 /\ told = FALSE
        /\ out = <<[ev |-> "doc", d |-> 1, just |-> FALSE], [ev |-> "doc", d |-> 2, just |-> FALSE]>>

\* the fonts a document has loaded, the last one for a key counting
Key(x) == <<x.fam, x.mode>>
LastOf(q, P(_)) == LET I == { i \in DOMAIN q : P(q[i]) } IN IF I = {} THEN 0 ELSE q[CHOOSE i \in I : \A j \in I : j <= i].file
RegOf(fam, mode) == IF fault = "family" THEN { x[3] : x \in { y \in reg : y[1] = fam } } ELSE { x[3] : x \in { y \in reg : y[1] = fam /\ y[2] = mode } }
The(S) == CHOOSE x \in S : TRUE
Mine(d) == IF fault = "shared" THEN loaded[1] \o loaded[2] ELSE loaded[d]
Load(d, fam, mode) ==
  LET q == Mine(d)
  IN  IF RegOf(fam, mode) # {} /\ ~\E i \in DOMAIN q : q[i].fam = fam /\ q[i].mode = mode /\ q[i].reg
      THEN Append(q, [fam |-> fam, mode |-> mode, file |-> The(RegOf(fam, mode)), reg |-> TRUE])
      ELSE q
Find(d, fam, mode) ==
  LET q1 == Load(d, fam, IF fault = "mode" THEN "n" ELSE mode)
      m == IF fault = "mode" THEN "n" ELSE mode
      own == LastOf(q1, LAMBDA x : x.fam = fam /\ x.mode = m)
      q2 == IF own = 0 THEN Load(d, fam, "n") ELSE q1
      q3 == IF Len(q2) > Len(q1) THEN q2 ELSE q1
      normal == LastOf(q3, LAMBDA x : x.fam = fam /\ x.mode = "n")
      any == LastOf(q3, LAMBDA x : x.fam = fam)
  IN  [q |-> q3, file |-> IF own # 0 THEN own ELSE IF fault = "default" THEN 0 ELSE IF fault = "last" THEN any ELSE IF normal # 0 THEN normal ELSE any]

Painted1(file, c) ==
  LET g == GlyphOf(File(file), c)
      o == 3 - g
  IN  [file |-> file, g |-> IF fault = "glyph" THEN o ELSE g, uni |-> IF fault = "back" THEN <<131 - c>> ELSE <<c>>,
       w |-> WidthOf(File(file), IF fault = "width" THEN o ELSE g), base |-> ""]
Real(file) == TextWidth(File(file), Text, 10)
Do(o) ==
  CASE o.op = "register" ->
         /\ reg' = { x \in reg : ~(x[1] = o.fam /\ x[2] = o.mode) } \cup {<<o.fam, o.mode, o.file>>}
         /\ out' = Append(out, [ev |-> "register", fam |-> o.fam, mode |-> o.mode, file |-> o.file])
         /\ UNCHANGED <<loaded, embedded, k>>
    [] o.op = "add" ->
         /\ loaded' = [loaded EXCEPT ![o.d] = Append(@, [fam |-> o.fam, mode |-> o.mode, file |-> o.file, reg |-> FALSE])]
         /\ out' = Append(out, [ev |-> "add", d |-> o.d, fam |-> o.fam, mode |-> o.mode, file |-> o.file, how |-> "ok"])
         /\ UNCHANGED <<reg, embedded, k>>
    [] o.op = "text" ->
         LET f == Find(o.d, o.fam, o.mode)
             e == [ev |-> "text", d |-> o.d, k |-> k + 1, fam |-> o.fam, mode |-> o.mode, size |-> 10, chars |-> Text]
             was == { x \in embedded[o.d] : x[1] = o.fam /\ x[2] = o.mode }
             file == IF fault = "stale" /\ was # {} THEN The(was)[3] ELSE f.file
             normal == LastOf(f.q, LAMBDA x : x.fam = o.fam /\ x.mode = "n")
             laid == IF fault = "layout" /\ normal # 0 THEN normal ELSE file
         IN  /\ k' = k + 1
             /\ loaded' = IF fault = "shared" THEN loaded ELSE [loaded EXCEPT ![o.d] = f.q]
             /\ IF f.file = 0 THEN out' = Append(out, e @@ [how |-> "refused", file |-> 0]) /\ UNCHANGED embedded
                ELSE /\ out' = out \o <<e @@ [how |-> "ok", file |-> file],
                                        [ev |-> "place", d |-> o.d, k |-> k + 1, x |-> 0, px |-> 0, w |-> Real(laid), pw |-> Real(file)]>>
                     /\ embedded' = [embedded EXCEPT ![o.d] = @ \cup {<<o.fam, o.mode, file>>}]
             /\ UNCHANGED reg
Next1 == /\ Len(ops) < MaxOps /\ ~told
         /\ \E o \in Ops : /\ ops' = Append(ops, o) /\ Do(o)
                           \* at the end is a text
                           /\ (Len(ops) + 1 = MaxOps => o.op = "text")
                           \* the first file comes first, the first document too
                           /\ (ops = <<>> => o.op # "text" /\ o.file = 1 /\ (o.op = "add" => o.d = 1))
         /\ UNCHANGED <<fault, told>>
Texts(d) == SelectSeq(out, LAMBDA e : e.ev = "text" /\ e.d = d /\ e.how = "ok")
RECURSIVE Glyphs(_, _)
Glyphs(q, i) == IF i > Len(q) THEN <<>> ELSE [ j \in DOMAIN q[i].chars |-> Painted1(q[i].file, q[i].chars[j]) ] \o Glyphs(q, i + 1)
Tell == /\ Len(ops) = MaxOps /\ ~told /\ told' = TRUE
        /\ out' = out \o <<[ev |-> "painted", d |-> 1, glyphs |-> Glyphs(Texts(1), 1)], [ev |-> "painted", d |-> 2, glyphs |-> Glyphs(Texts(2), 1)], [ev |-> "end"]>>
        /\ UNCHANGED <<fault, ops, reg, loaded, embedded, k>>
Next == Next1 \/ Tell
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ WF_vars(Next)

RECURSIVE Judge(_, _, _)
Judge(st, q, i) == IF i > Len(q) THEN {} ELSE StBad(st, q[i]) \cup Judge(StStep(st, q[i]), q, i + 1)
Verdict == Judge(StInit(<<Def>>), out, 1)
Accepted == (told /\ fault = "none") => Verdict = {}
\* what the fault changes
TextsOf == { i \in DOMAIN out : out[i].ev = "text" }
StAt(i) == LET RECURSIVE Go(_, _)
               Go(st, j) == IF j = i THEN st ELSE Go(StStep(st, out[j]), j + 1)
           IN  Go(StInit(<<Def>>), 1)
Right(i) == Allowed(StAt(i), out[i].d, out[i].fam, out[i].mode)
Must(i) == MustBeSet(StAt(i), out[i].d, out[i].fam, out[i].mode)
Done == { i \in TextsOf : out[i].how = "ok" }
Hurt ==
  CASE fault \in {"glyph", "back", "width"} -> Done # {}
    [] fault = "default" -> \E i \in TextsOf : out[i].how = "refused" /\ Must(i)
    [] fault = "layout" -> \E i \in DOMAIN out : out[i].ev = "place" /\ out[i].w # out[i].pw
    [] OTHER -> \E i \in Done : out[i].file \notin Right(i)
Sharp == (told /\ fault # "none" /\ Hurt) => Verdict # {}
Emit == (told /\ (fault = "none" \/ Hurt)) => PrintT("@SCENARIO " \o ToJson([fault |-> fault, ops |-> ops]))
Comes == <>told
=============================================================================
