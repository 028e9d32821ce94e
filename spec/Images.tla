------------------------------- MODULE Images -------------------------------
(* Images: what is read from an image file, that it is embedded once, and   *)
(* where its uses are painted.                                              *)
(*                                                                          *)
(* Events                                                                   *)
(*   def [files, ordered, uses, ops, width, left, top, head, headAt]        *)
(*         files: [kind (jpg, png), segs, size] of every image file; segs:  *)
(*         the header segments of a JPEG file, each [m (marker), frame (what *)
(*         the bytes at its start mean as a frame header: <<depth, height,  *)
(*         width, components>>, <<>>: not one)]; size: <<width, height>> of *)
(*         a PNG file.                                                      *)
(*         uses (for a document): [file, w (of the place it fills), less    *)
(*         (it may be smaller), lefts (where the places may start)]; in the *)
(*         order in which they must be painted if ordered.                  *)
(*         ops (for calls, otherwise <<>>): [op "page"] or [op "image",     *)
(*         file, x, top, w, h (-1: not given), move]; width, left, top: of  *)
(*         the content of a page.                                           *)
(*         head: the file of the image of the running section (0: none),    *)
(*         headAt: <<left, top, width>> of it.                              *)
(*   obj [w, h, space, depth, data]  image object of the output, in order;  *)
(*         data: the file which its data is (0: none)                       *)
(*   page                                                                   *)
(*   paint [x, top, w, h, obj]  image object obj was painted                *)
(*   end                                                                    *)
(* Lengths are thousandths of a point.                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Clause(holds, name) == IF holds THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Same(a, b) == Abs(a - b) <= 2

-----------------------------------------------------------------------------
\* the reader of JPEG files: skips segments up to the first frame header
FrameMarkers == {192, 193, 194, 195, 197, 198, 199, 201, 202, 203, 205, 206, 207}
RECURSIVE FrameOf(_)
FrameOf(segs) == IF segs = <<>> THEN <<>> ELSE IF segs[1].m \in FrameMarkers THEN segs[1].frame ELSE FrameOf(Tail(segs))
Space(n) == CASE n = 3 -> "DeviceRGB" [] n = 4 -> "DeviceCMYK" [] OTHER -> "DeviceGray"
Meaning(f) ==
  IF f.kind = "png" THEN [w |-> f.size[1], h |-> f.size[2], depth |-> 8, space |-> "DeviceRGB"]
  ELSE LET r == FrameOf(f.segs) IN [w |-> r[3], h |-> r[2], depth |-> r[1], space |-> Space(r[4])]

Tenth(x) == (x + 50) \div 100
InProportion(w, h, m) == Abs(Tenth(w) * m.h - Tenth(h) * m.w) <= m.w + m.h

-----------------------------------------------------------------------------
\* calls: what is asked for the size of an image
Full(o, m, width) == IF o.w < 0 /\ o.h < 0 THEN [w |-> width, h |-> -1] ELSE [w |-> o.w, h |-> o.h]

StInit(trace) ==
  LET d == trace[1]
  IN  [files |-> [ i \in DOMAIN d.files |-> Meaning(d.files[i]) ] \o <<>>, def |-> d, objs |-> <<>>, todo |-> d.ops, left |-> d.uses,
       cur |-> <<d.left, d.top>>, heads |-> 0, page |-> 0]
FileOf(st, e) == st.objs[e.obj]

\* the calls that are next, up to an image
RECURSIVE Skip(_)
Skip(ops) == IF ops = <<>> \/ ops[1].op = "image" THEN ops ELSE Skip(Tail(ops))
NewPage(ops) == IF ops = <<>> THEN FALSE ELSE ops[1].op = "page"
Calls(st) == st.def.ops # <<>>
IsHead(st, e) == st.def.head # 0 /\ FileOf(st, e) = st.def.head

\* place of the image of call o with the cursor at c
At(o, c) == <<IF o.x < 0 THEN c[1] ELSE o.x, IF o.top < 0 THEN c[2] ELSE o.top>>
CallBad(st, e) ==
  IF st.todo = <<>> \/ st.todo[1].op = "page" THEN {"Extra"}
  ELSE LET o == st.todo[1]
           m == st.files[o.file]
           a == At(o, st.cur)
           f == Full(o, m, st.def.width)
       IN  Clause(FileOf(st, e) = o.file, "RightImage")
           \cup Clause(Same(e.x, a[1]) /\ Same(e.top, a[2]), "Place")
           \cup Clause((f.w < 0 \/ Same(e.w, f.w)) /\ (f.h < 0 \/ Same(e.h, f.h)), "Size")
           \cup Clause((f.w >= 0 /\ f.h >= 0) \/ InProportion(e.w, e.h, m), "Proportion")
CallStep(st, e) ==
  LET o == st.todo[1]
      a == At(o, st.cur)
  IN  [st EXCEPT !.todo = Tail(@), !.cur = CASE o.move = "bottom" -> <<a[1], a[2] + e.h>> [] o.move = "next" -> <<a[1] + e.w, a[2]>> [] OTHER -> a]

Fits(u, e) == (Same(e.w, u.w) \/ (u.less /\ e.w < u.w)) /\ \E i \in DOMAIN u.lefts : Same(e.x + e.w \div 2, u.lefts[i] + u.w \div 2)
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
\* the uses that e may be
Could(st, e) == { k \in DOMAIN st.left : st.left[k].file = FileOf(st, e) /\ (~st.def.ordered \/ k = 1) }
Taken(st, e) == LET C == Could(st, e)
                    G == { k \in C : Fits(st.left[k], e) }
                IN  IF G # {} THEN CHOOSE k \in G : \A j \in G : k <= j ELSE IF C # {} THEN CHOOSE k \in C : \A j \in C : k <= j ELSE 1
UseBad(st, e) ==
  IF st.left = <<>> THEN {"Extra"}
  ELSE IF Could(st, e) = {} THEN {"RightImage"}
  ELSE Clause(Fits(st.left[Taken(st, e)], e), "Place")
       \cup Clause(InProportion(e.w, e.h, st.files[FileOf(st, e)]), "Proportion")
HeadBad(st, e) ==
  LET h == st.def.headAt
  IN  Clause(Same(e.x, h[1]) /\ Same(e.top, h[2]) /\ Same(e.w, h[3]), "Place")
      \cup Clause(InProportion(e.w, e.h, st.files[FileOf(st, e)]), "Proportion")
      \cup Clause(st.heads = 0, "Extra")
PageEnd(st) == Clause(st.def.head = 0 \/ st.page = 0 \/ st.heads = 1, "HeadOnEveryPage")
               \cup Clause(~Calls(st) \/ st.todo = <<>> \/ st.todo[1].op = "page", "EveryUse")

StBad(st, e) ==
  CASE e.ev = "obj" ->
         IF e.data = 0 THEN {"Data"}
         ELSE LET m == st.files[e.data]
              IN  Clause(e.w = m.w /\ e.h = m.h, "Pixels") \cup Clause(e.depth = m.depth, "Depth") \cup Clause(e.space = m.space, "ColorSpace")
                  \cup Clause(\A i \in DOMAIN st.objs : st.objs[i] # e.data, "EmbeddedOnce")
    [] e.ev = "page" -> PageEnd(st)
    [] e.ev = "paint" ->
         IF e.obj = 0 THEN {"RightImage"} ELSE IF FileOf(st, e) = 0 THEN {}
         ELSE IF IsHead(st, e) THEN HeadBad(st, e) ELSE IF Calls(st) THEN CallBad(st, e) ELSE UseBad(st, e)
    [] e.ev = "malformed" -> {"Readable"}
    [] e.ev = "end" -> PageEnd(st) \cup Clause(Skip(st.todo) = <<>> /\ st.left = <<>>, "EveryUse")
    [] OTHER -> {}
StStep(st, e) ==
  CASE e.ev = "obj" -> [st EXCEPT !.objs = Append(@, e.data)]
    [] e.ev = "page" -> [st EXCEPT !.page = @ + 1, !.heads = 0, !.todo = IF NewPage(@) THEN Tail(@) ELSE @, !.cur = <<st.def.left, st.def.top>>]
    [] e.ev = "paint" ->
         IF e.obj = 0 \/ FileOf(st, e) = 0 THEN st
         ELSE IF IsHead(st, e) THEN [st EXCEPT !.heads = @ + 1]
         ELSE IF Calls(st) THEN (IF st.todo = <<>> \/ st.todo[1].op = "page" THEN st ELSE CallStep(st, e))
         ELSE IF st.left = <<>> \/ Could(st, e) = {} THEN st ELSE [st EXCEPT !.left = Without(@, Taken(st, e))]
    [] OTHER -> st
StHit(st, e) ==
  CASE e.ev = "obj" -> IF e.data = 0 THEN {}
                       ELSE LET f == st.def.files[e.data]
                            IN  {f.kind, e.space}
                                \cup (IF \E i \in DOMAIN f.segs : f.segs[i].m \notin FrameMarkers /\ f.segs[i].frame # <<>> THEN {"a segment like a frame"} ELSE {})
                                \cup (IF Cardinality({ i \in DOMAIN f.segs : f.segs[i].m \in FrameMarkers }) > 1 THEN {"several frames"} ELSE {})
    [] e.ev = "paint" -> IF e.obj = 0 \/ FileOf(st, e) = 0 THEN {}
                         ELSE IF IsHead(st, e) THEN {"in a running section"}
                         ELSE IF Calls(st) THEN (IF st.todo = <<>> \/ st.todo[1].op = "page" THEN {}
                                                 ELSE {"moved " \o st.todo[1].move}
                                                      \cup (IF st.todo[1].x < 0 THEN {"at the cursor"} ELSE {"at a place"})
                                                      \cup (IF st.todo[1].w < 0 /\ st.todo[1].h < 0 THEN {"as wide as the page"} ELSE {}))
                         ELSE IF st.left = <<>> \/ Could(st, e) = {} THEN {}
                         ELSE LET u == st.left[Taken(st, e)] IN IF u.less /\ ~Same(e.w, u.w) THEN {"made smaller"} ELSE {"as wide as its place"}
    [] OTHER -> {}
=============================================================================
