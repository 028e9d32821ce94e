------------------------------ MODULE ImagesMC ------------------------------
(* Exhaustive design model of images: a reader of JPEG files goes over the  *)
(* segments one by one, and a writer embeds the images of a sequence of     *)
(* calls on two pages.  What they do is accepted by the clauses of          *)
(* Images.tla, and rejected when the reader takes a segment that is not a   *)
(* frame for one (near) or the last frame (last), or exchanges the sides    *)
(* (sides), or every image is gray (gray), or the writer embeds an image    *)
(* again on another page (again) or at every use (each), takes another      *)
(* image of the page for it (mix), paints it with another height (squash),  *)
(* does not move the cursor (stay) or forgets an image (lose).              *)
EXTENDS Images, Json

CONSTANTS Segs, MaxSegs, MaxOps, Sizes, Moves, Faults
VARIABLES fault, segs, at, read, ops, k, page, cur, objs, out, done
vars == <<fault, segs, at, read, ops, k, page, cur, objs, out, done>>

\* markers: application data, tables (which lie among the markers of frames), a comment, a frame; and what follows them
Seg(s) == CASE s = "app" -> [m |-> 225, frame |-> <<>>] [] s = "thumb" -> [m |-> 225, frame |-> <<8, 7, 9, 1>>] [] s = "huff" -> [m |-> 196, frame |-> <<8, 5, 6, 3>>]
            [] s = "arith" -> [m |-> 204, frame |-> <<8, 4, 3, 1>>] [] s = "jpg" -> [m |-> 254, frame |-> <<8, 3, 8, 4>>]
            [] s = "rgb" -> [m |-> 192, frame |-> <<8, 20, 30, 3>>] [] s = "cmyk" -> [m |-> 194, frame |-> <<8, 40, 20, 4>>] [] s = "grey" -> [m |-> 193, frame |-> <<8, 30, 30, 1>>]
IsFrame(s) == Seg(s).m \in FrameMarkers
Layouts == { q \o <<f>> \o t : q \in UNION { [1..n -> { s \in Segs : ~IsFrame(s) }] : n \in 0..MaxSegs }, f \in { s \in Segs : IsFrame(s) }, t \in {<<>>, <<"grey">>} }
Ops == { [op |-> "image", file |-> f, x |-> z[1], top |-> z[2], w |-> z[3], h |-> z[4], move |-> m] : f \in 1..2, z \in Sizes, m \in Moves } \cup {[op |-> "page"]}
Files == <<[kind |-> "jpg", segs |-> [ i \in DOMAIN segs |-> Seg(segs[i]) ] \o <<>>, size |-> <<0, 0>>], [kind |-> "png", segs |-> <<>>, size |-> <<50, 20>>]>>
Left == 30000
Top == 40000
Width == 440000
Def == [ev |-> "def", files |-> Files, ordered |-> TRUE, uses |-> <<>>, ops |-> <<[op |-> "page"]>> \o ops, width |-> Width, left |-> Left, top |-> Top, head |-> 0, headAt |-> <<>>]

OneSize == {<<-1, -1, 80000, -1>>}
SomeSizes == {<<-1, -1, -1, -1>>, <<-1, -1, 80000, -1>>, <<50000, 60000, -1, 90000>>}
AllSizes == SomeSizes \cup {<<-1, 200000, -1, 45000>>, <<20000, -1, 70000, 30000>>}
Init == /\ fault \in Faults /\ segs \in Layouts /\ at = 1 /\ read = <<>>
        /\ ops = <<>> /\ k = 0 /\ page = 1 /\ cur = <<Left, Top>> /\ objs = <<>> /\ out = <<[ev |-> "page"]>> /\ done = FALSE
\* the reader
Taken1(s) == (fault = "near" /\ Seg(s).m \in 192..207) \/ IsFrame(s)
Scan == /\ at <= Len(segs) /\ (read = <<>> \/ fault = "last")
        /\ read' = IF Taken1(segs[at]) THEN Seg(segs[at]).frame ELSE read
        /\ at' = at + 1
        /\ UNCHANGED <<fault, segs, ops, k, page, cur, objs, out, done>>
Read == read # <<>> /\ (fault # "last" \/ at > Len(segs))
Plan == /\ Read /\ k = 0 /\ Len(ops) < MaxOps /\ \E o \in Ops : ops' = Append(ops, o)
        /\ UNCHANGED <<fault, segs, at, read, k, page, cur, objs, out, done>>
Start == /\ Read /\ k = 0 /\ Len(ops) > 0 /\ k' = 1
         /\ UNCHANGED <<fault, segs, at, read, ops, page, cur, objs, out, done>>
\* the writer
Dim(f) == IF f = 2 THEN [w |-> 50, h |-> 20, depth |-> 8, space |-> "DeviceRGB"]
          ELSE LET r == IF fault = "sides" THEN <<read[1], read[3], read[2], read[4]>> ELSE read
               IN  [w |-> r[3], h |-> r[2], depth |-> r[1], space |-> IF fault = "gray" THEN "DeviceGray" ELSE Space(r[4])]
SizeOf(o) ==
  LET d == Dim(o.file)
      w == IF o.w >= 0 THEN o.w ELSE IF o.h >= 0 THEN (o.h * d.w) \div d.h ELSE Width
      h == IF o.h >= 0 THEN o.h ELSE IF fault = "squash" THEN w ELSE (w * d.h) \div d.w
  IN  <<w, h>>
Key(f) == CASE fault = "again" -> <<f, page>> [] fault = "each" -> <<f, k>> [] fault = "mix" -> <<0, page>> [] OTHER -> <<f, 0>>
Known(f) == { i \in DOMAIN objs : objs[i].key = Key(f) }
Do ==
  /\ k > 0 /\ k <= Len(ops)
  /\ LET o == ops[k]
     IN  IF o.op = "page" THEN /\ page' = page + 1 /\ cur' = <<Left, Top>> /\ out' = Append(out, [ev |-> "page"]) /\ objs' = objs
         ELSE LET a == At(o, cur)
                  z == SizeOf(o)
                  n == IF Known(o.file) # {} THEN CHOOSE i \in Known(o.file) : TRUE ELSE Len(objs) + 1
              IN  /\ objs' = IF n > Len(objs) THEN Append(objs, [key |-> Key(o.file), file |-> o.file]) ELSE objs
                  /\ out' = IF fault = "lose" /\ k > 1 /\ ops[k - 1].op = "page" THEN out
                            ELSE Append(out, [ev |-> "paint", x |-> a[1], top |-> a[2], w |-> z[1], h |-> z[2], obj |-> n])
                  /\ cur' = CASE fault = "stay" -> a [] o.move = "bottom" -> <<a[1], a[2] + z[2]>> [] o.move = "next" -> <<a[1] + z[1], a[2]>> [] OTHER -> a
                  /\ UNCHANGED page
  /\ k' = k + 1
  /\ UNCHANGED <<fault, segs, at, read, ops, done>>
End == k > Len(ops) /\ k > 0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<fault, segs, at, read, ops, k, page, cur, objs, out>>
Next == Scan \/ Plan \/ Start \/ Do \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Scan \/ Start \/ Do \/ End)

Obj(i) == LET d == Dim(objs[i].file) IN [ev |-> "obj", w |-> d.w, h |-> d.h, space |-> d.space, depth |-> d.depth, data |-> objs[i].file]
Trace == [ i \in DOMAIN objs |-> Obj(i) ] \o out \o <<[ev |-> "end"]>>
RECURSIVE BadOf(_, _)
BadOf(st, es) == IF es = <<>> THEN {} ELSE StBad(st, es[1]) \cup BadOf(StStep(st, es[1]), Tail(es))
Verdict == BadOf(StInit(<<Def>>), Trace)

Images == { i \in DOMAIN ops : ops[i].op = "image" }
Of(f) == { i \in Images : ops[i].file = f }
PageOf(i) == Cardinality({ j \in 1..i : ops[j].op = "page" })
First == CHOOSE i \in DOMAIN segs : IsFrame(segs[i]) /\ \A j \in 1..(i - 1) : ~IsFrame(segs[j])
Hurt ==
  CASE fault = "none" -> FALSE
    [] fault = "near" -> Of(1) # {} /\ \E i \in 1..(First - 1) : segs[i] \in {"huff", "arith"}
    [] fault = "last" -> Of(1) # {} /\ segs[Len(segs)] # segs[First]
    [] fault = "sides" -> Of(1) # {} /\ segs[First] # "grey"
    [] fault = "gray" -> Of(1) # {} /\ segs[First] # "grey"
    [] fault = "again" -> \E i, j \in Images : ops[i].file = ops[j].file /\ PageOf(i) # PageOf(j)
    [] fault = "each" -> \E i, j \in Images : i # j /\ ops[i].file = ops[j].file
    [] fault = "mix" -> \E i, j \in Images : ops[i].file # ops[j].file /\ PageOf(i) = PageOf(j)
    [] fault = "squash" -> \E i \in Images : ops[i].h < 0 /\ (ops[i].file = 2 \/ segs[First] # "grey")
    [] fault = "stay" -> \E i, j \in Images : i < j /\ PageOf(i) = PageOf(j) /\ ops[i].move # "none" /\ \A q \in (i + 1)..j : ops[q].op = "image" /\ ops[q].x < 0 /\ ops[q].top < 0
    [] fault = "lose" -> \E i \in Images : i > 1 /\ ops[i - 1].op = "page"
Accepted == (done /\ fault = "none") => Verdict = {}
Sharp == (done /\ fault # "none" /\ Hurt) => Verdict # {}
Emit == (done /\ (fault = "none" \/ Hurt)) => PrintT("@SCENARIO " \o ToJson([fault |-> fault, segs |-> segs, ops |-> ops]))
Ends == <>(done \/ k = 0)
=============================================================================
