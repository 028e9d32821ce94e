------------------------------- MODULE Calls -------------------------------
(* The elements added to a PDF by its own calls: every call uses the        *)
(* defaults of the PDF as they are at that time, unless it gives other      *)
(* values; what it adds starts at the cursor of the current page (or where  *)
(* it says), goes on in new pages if the call makes them, and leaves the    *)
(* cursor at its end.                                                       *)
(*                                                                          *)
(* Events, one for every call (what was painted is read back from the       *)
(* finished file)                                                           *)
(*   def [size, rot, m, f, s, c, al, lh, ind, roman]  PDF(...)              *)
(*   set [what, v]  attribute of the PDF                                    *)
(*   setup [size, rot, m]   fmt [name, st]   ctx [name, v]                  *)
(*   head [x, y, w, h, st, opts, elems]  add_running_section                *)
(*   page [size, rot, m, made]                                              *)
(*   go [page]   at [x, y]                                                  *)
(*   para [own, box, gap, move, st, opts, elems, obs, made]  text, content  *)
(*         (own) and _text, _content                                        *)
(*   image [x, y, w, h, move, num, den, obs]                                *)
(*   table [own, box, move, rows, cols, st, boxes, obs, made]               *)
(*   end [pages, strange]                                                   *)
(* All but def have cur: <<page, x, y, pages>>, after the call.             *)
(*   size: [kind, v] ("none", "named" with a name, "square", "pair")        *)
(*   m: [kind, v] ("none", "list" of up to four, "sides" top, right,        *)
(*         bottom and left, -1: not given)                                  *)
(*   st: [name, f, s, c, b] ("", -1: not given), opts: [al, lh, ind]        *)
(*   elems: [st, opts, list, items] paragraphs, items: [n, st, var] their   *)
(*         lines: n digits and the value of a variable; list: [n, ind]      *)
(*   obs: [k, page, x, base, w, s, f, b, c, tail] painted lines, in order   *)
(*         (k: which of the lines; -k: the text on the left of line k)      *)
(*   made: [w, h, heads] the pages made in the call; heads: obs of every    *)
(*         running section                                                  *)
(* Lengths are thousandths of a point, from the top and left of a page.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Clause(holds, name) == IF holds THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Same(a, b) == Abs(a - b) <= 4
\* heights: the moves from line to line are rounded
Near(a, b) == Abs(a - b) <= 60
Or(x, none, default) == IF x = none THEN default ELSE x

-----------------------------------------------------------------------------
\* pages
Named == [a5 |-> <<419528, 595276>>, a4 |-> <<595276, 841890>>, a3 |-> <<841890, 1190551>>, b5 |-> <<498898, 708661>>, b4 |-> <<708661, 1000630>>,
          letter |-> <<612000, 792000>>, legal |-> <<612000, 1008000>>, ledger |-> <<792000, 1224000>>] @@ ("jis-b5" :> <<515906, 728504>>) @@ ("jis-b4" :> <<728504, 1031812>>)
Size(s, base) == CASE s.kind = "none" -> base [] s.kind = "named" -> Named[s.v[1]] [] s.kind = "square" -> <<s.v[1], s.v[1]>> [] OTHER -> <<s.v[1], s.v[2]>>
Sides(m, base) ==
  CASE m.kind = "none" -> base
    [] m.kind = "sides" -> [ i \in 1..4 |-> Or(m.v[i], -1, base[i]) ]
    [] OTHER -> LET v == m.v IN CASE Len(v) = 0 -> <<0, 0, 0, 0>> [] Len(v) = 1 -> <<v[1], v[1], v[1], v[1]>> [] Len(v) = 2 -> <<v[1], v[2], v[1], v[2]>>
                                  [] Len(v) = 3 -> <<v[1], v[2], v[3], v[2]>> [] OTHER -> <<v[1], v[2], v[3], v[4]>>
Setup(su, e) == [size |-> Size(e.size, su.size), rot |-> Or(e.rot, -1, su.rot), m |-> IF e.m.kind = "none" THEN su.m ELSE Sides(e.m, <<0, 0, 0, 0>>)]
Plain == [size |-> [kind |-> "none", v |-> <<>>], rot |-> -1, m |-> [kind |-> "none", v |-> <<>>]]
NewPage(su, e) ==
  LET z == Size(e.size, su.size)
      r == Or(e.rot, -1, su.rot) = 1
      m == Sides(e.m, su.m)
  IN  [w |-> IF r THEN z[2] ELSE z[1], h |-> IF r THEN z[1] ELSE z[2], m |-> m, x |-> m[4], y |-> m[1]]

Numerals == <<<<1000, "M">>, <<900, "CM">>, <<500, "D">>, <<400, "CD">>, <<100, "C">>, <<90, "XC">>, <<50, "L">>, <<40, "XL">>, <<10, "X">>, <<9, "IX">>, <<5, "V">>, <<4, "IV">>, <<1, "I">>>>
RECURSIVE Roman(_, _)
Roman(n, i) == IF n = 0 THEN "" ELSE IF n >= Numerals[i][1] THEN Numerals[i][2] \o Roman(n - Numerals[i][1], i) ELSE Roman(n, i + 1)
Value(st, var, page) == CASE var = "" -> "" [] var = "$page" -> IF st.d.roman = 1 THEN Roman(page, 1) ELSE ToString(page)
                          [] var \in DOMAIN st.ctx -> st.ctx[var] [] OTHER -> ""

-----------------------------------------------------------------------------
\* what the lines of a call look like: given with the line, its paragraph, the call, or the PDF
Style(st, s) == IF s.name = "" THEN s ELSE st.fmts[s.name]
Pick(l, what, none) == IF \E i \in DOMAIN l : l[i][what] # none THEN l[CHOOSE i \in DOMAIN l : l[i][what] # none /\ \A j \in 1..(i - 1) : l[j][what] = none][what] ELSE none
Look(st, l) == [f |-> Pick(l \o <<st.d>>, "f", ""), s |-> Pick(l \o <<st.d>>, "s", -1), c |-> Pick(l \o <<st.d>>, "c", -1), b |-> Or(Pick(l, "b", -1), -1, 0)]
Set(st, l) == [al |-> Pick(l \o <<st.d>>, "al", ""), lh |-> Pick(l \o <<st.d>>, "lh", -1), ind |-> Pick(l \o <<st.d>>, "ind", -1)]
Digit(f) == CASE f = "Courier" -> 600 [] f = "Helvetica" -> 556 [] f = "Times" -> 500 [] OTHER -> 0
Wide(look, n) == (look.s * Digit(look.f) * n) \div 1000

LineOf(st, e, q, i) ==
  LET el == e.elems[q]
      it == el.items[i]
      look == Look(st, <<Style(st, it.st), Style(st, el.st), Style(st, e.st)>>)
      head == Look(st, <<Style(st, el.items[1].st), Style(st, el.st), Style(st, e.st)>>)
  IN  [look |-> look, set |-> Set(st, <<el.opts, e.opts>>), n |-> it.n, var |-> it.var, first |-> i = 1, gap |-> IF i = 1 /\ q > 1 THEN e.gap ELSE 0,
       list |-> el.list, li |-> IF el.list.n = 0 THEN 0 ELSE IF el.list.ind >= 0 THEN el.list.ind ELSE Wide(head, el.list.n)]
RECURSIVE Lines(_, _, _, _)
Lines(st, e, q, i) ==
  IF q > Len(e.elems) THEN <<>> ELSE IF i > Len(e.elems[q].items) THEN Lines(st, e, q + 1, 1)
  ELSE <<LineOf(st, e, q, i)>> \o Lines(st, e, q, i + 1)

\* where they go: a: area [page, x, y, w, h], used: height used of it.  The first line of a paragraph or area, and a line that begins after a
\* line break, may be lead lower
Need(l, top, lead) ==
  IF top THEN l.look.s + lead ELSE l.gap + (IF l.first THEN l.look.s + lead ELSE ((l.look.s + lead) * l.set.lh) \div 1000)
Start(l, a, w) ==
  LET free == a.w - l.li - w
  IN  a.x + l.li + (CASE l.set.al = "r" -> free [] l.set.al = "c" -> free \div 2 [] OTHER -> IF l.first THEN l.set.ind ELSE 0)
LineBad(st, l, o, a, base) ==
  Clause(o.page = a.page /\ Near(o.base, base) /\ Same(o.x, Start(l, a, o.w)), "Place")
  \cup Clause(o.f = l.look.f /\ o.b = l.look.b /\ o.s = l.look.s /\ o.c = l.look.c, "Look")
  \cup Clause(o.tail = Value(st, l.var, a.page), "Variable")
  \cup Clause(l.var # "" \/ Same(o.w, Wide(l.look, l.n)), "Width")
ListBad(l, o, a, base) ==
  Clause(o.page = a.page /\ Near(o.base, base) /\ Same(o.x, a.x), "ListPlace")
  \cup Clause(o.s = l.look.s /\ o.f = l.look.f /\ o.c = l.look.c, "ListLook")

Cursor(st) == LET p == st.pages[st.cur] IN <<st.cur, p.x, p.y, Len(st.pages)>>
Rest(st) == LET p == st.pages[st.cur] IN [page |-> st.cur, x |-> p.m[4], y |-> p.y, w |-> p.w - p.m[2] - p.m[4], h |-> p.h - p.m[3] - p.y]
Box(st, b) ==
  LET p == st.pages[st.cur]
      x == Or(b.x, -1, p.x)
      y == Or(b.y, -1, p.y)
  IN  [page |-> st.cur, x |-> x, y |-> y, w |-> Or(b.w, -1, p.w - p.m[2] - x), h |-> Or(b.h, -1, p.h - p.m[3] - y)]
Area(st, e) == IF e.own THEN Rest(st) ELSE Box(st, e.box)
Put(st, x, y) == [st EXCEPT !.pages[st.cur].x = x, !.pages[st.cur].y = y]

NoPage == [w |-> -1, h |-> -1, heads |-> <<>>]
RECURSIVE HeadsBad(_, _, _)
\* walk over the lines: w [st, bad, l (lines left), k, o (painted lines left), a, used, top, made (pages left), own]
RECURSIVE Walk(_)
\* a page made: size and running sections
MadeBad(st, page, mk) ==
  Clause(Same(mk.w, page.w) /\ Same(mk.h, page.h), "PageSize")
  \cup HeadsBad([st EXCEPT !.pages = Append(@, page), !.cur = Len(st.pages) + 1], mk, 1)
HeadsBad(st, mk, i) ==
  IF i > Len(st.heads) THEN {}
  ELSE LET h == st.heads[i]
           o == IF i <= Len(mk.heads) THEN mk.heads[i] ELSE <<>>
           r == Walk([st |-> st, bad |-> {}, l |-> Lines(st, h, 1, 1), k |-> 1, o |-> o, a |-> [page |-> st.cur, x |-> h.x, y |-> h.y, w |-> h.w, h |-> h.h],
                      used |-> 0, top |-> TRUE, made |-> <<>>, own |-> FALSE])
       IN  { "Running" \o b : b \in r.bad \cup Clause(r.o = <<>>, "Extra") \cup Clause(r.l = <<>>, "Lost") } \cup HeadsBad(st, mk, i + 1)
Turn(st) == [st EXCEPT !.pages = Append(@, NewPage(st.su, Plain)), !.cur = Len(st.pages) + 1]
Walk(w) ==
  IF w.l = <<>> THEN w
  ELSE LET l == w.l[1]
           less == Need(l, w.top, 0)
           more == Need(l, w.top, l.set.lh)
           list == l.first /\ l.list.n > 0
           got == w.o # <<>> /\ (IF list THEN Len(w.o) > 1 /\ w.o[2].k = w.k ELSE w.o[1].k = w.k)
           here == IF w.used + more < w.a.h - 60 THEN TRUE ELSE IF w.used + less > w.a.h + 60 THEN FALSE ELSE w.o # <<>> /\ w.o[1].page = w.a.page
       IN  IF here THEN
             IF ~got THEN [w EXCEPT !.bad = @ \cup {"Lost"}, !.l = <<>>]
             ELSE LET o == IF list THEN w.o[2] ELSE w.o[1]
                      need == IF Near(o.base, w.a.y + w.used + less) THEN less ELSE more
                      base == w.a.y + w.used + need
                  IN  Walk([w EXCEPT !.bad = @ \cup LineBad(w.st, l, o, w.a, base) \cup (IF list THEN (IF w.o[1].k = 0 - w.k THEN ListBad(l, w.o[1], w.a, base) ELSE {"ListText"}) ELSE {}),
                                     !.l = Tail(@), !.k = @ + 1, !.o = SubSeq(@, IF list THEN 3 ELSE 2, Len(@)), !.used = IF Near(o.base, base) THEN o.base - w.a.y ELSE w.used + need, !.top = FALSE])
           ELSE IF ~w.own THEN w
           ELSE IF w.made = <<>> THEN [w EXCEPT !.bad = @ \cup {IF w.o # <<>> THEN "OverTheEnd" ELSE "Lost"}, !.l = <<>>, !.o = <<>>]
           ELSE LET s == Turn(Put(w.st, w.a.x, w.a.y + w.used))
                    p == s.pages[s.cur]
                IN  Walk([w EXCEPT !.bad = @ \cup MadeBad(w.st, p, w.made[1]), !.st = s, !.made = Tail(@), !.a = Rest(s), !.used = 0, !.top = TRUE])

Walked(st, e) ==
  LET a == Area(st, e)
  IN  Walk([st |-> st, bad |-> {}, l |-> Lines(st, e, 1, 1), k |-> 1, o |-> e.obs, a |-> a, used |-> 0, top |-> TRUE, made |-> e.made, own |-> e.own])
ParaBad(st, e) ==
  LET r == Walked(st, e)
  IN  r.bad \cup Clause(r.o = <<>>, "Extra") \cup Clause(r.made = <<>>, "PageTooMany")
Left(st, a, used, move) ==
  CASE move = "bottom" -> Put(st, a.x, a.y + used) [] move = "next" -> Put(st, a.x + a.w, a.y) [] OTHER -> Put(st, a.x, a.y)
ParaStep(st, e) ==
  LET r == Walked(st, e)
  IN  Left(r.st, r.a, r.used, IF e.own THEN "bottom" ELSE e.move)

-----------------------------------------------------------------------------
\* tables: boxes: what their borders enclose, in order
RowAtMost(st, e) == Look(st, <<Style(st, e.st)>>).s + 24000
RECURSIVE Boxes(_)
\* w [st, bad, boxes, made, a, own, row (height a row may need), used, any]
Boxes(w) ==
  IF w.boxes = <<>> THEN w
  ELSE LET b == w.boxes[1]
       IN  IF b.page = w.a.page /\ ~w.any THEN
             Boxes([w EXCEPT !.bad = @ \cup Clause(Near(b.top, w.a.y) /\ Same(b.left, w.a.x) /\ Same(b.right, w.a.x + w.a.w), "Place")
                                       \cup Clause(b.bottom <= w.a.y + w.a.h + 5000, "OverTheEnd"),
                             !.boxes = Tail(@), !.used = b.bottom - b.top, !.any = TRUE])
           ELSE IF ~w.own \/ w.made = <<>> THEN [w EXCEPT !.bad = @ \cup {"Place"}, !.boxes = <<>>]
           ELSE LET s == Turn(Put(w.st, w.a.x, w.a.y + w.used))
                    p == s.pages[s.cur]
                IN  Boxes([w EXCEPT !.bad = @ \cup MadeBad(w.st, p, w.made[1]) \cup Clause(w.used + w.row > w.a.h, "Early"),
                                    !.st = s, !.made = Tail(@), !.a = Rest(s), !.used = 0, !.any = FALSE])
Boxed(st, e) ==
  Boxes([st |-> st, bad |-> {}, boxes |-> e.boxes, made |-> e.made, a |-> Area(st, e), own |-> e.own, row |-> RowAtMost(st, e), used |-> 0, any |-> FALSE])
Within(o, b) == o.page = b.page /\ o.x >= b.left /\ o.x + o.w <= b.right + 4 /\ o.base > b.top /\ o.base < b.bottom + 4
TableBad(st, e) ==
  LET r == Boxed(st, e)
      look == Look(st, <<Style(st, e.st)>>)
  IN  r.bad \cup Clause(r.made = <<>>, "PageTooMany")
      \cup Clause(\A i \in DOMAIN e.obs : e.obs[i].k = i, "Order")
      \cup Clause(IF e.own THEN Len(e.obs) = e.rows * e.cols ELSE (Len(e.obs) % e.cols = 0 /\ (Len(e.obs) = e.rows * e.cols \/ r.used + r.row > r.a.h)), "Lost")
      \cup Clause(\A i \in DOMAIN e.obs : e.obs[i].f = look.f /\ e.obs[i].s = look.s /\ e.obs[i].c = look.c /\ e.obs[i].b = look.b, "Look")
      \cup Clause(\A i \in DOMAIN e.obs : \E j \in DOMAIN e.boxes : Within(e.obs[i], e.boxes[j]), "Inside")
TableStep(st, e) ==
  LET r == Boxed(st, e)
  IN  Left(r.st, r.a, r.used, IF e.own THEN "bottom" ELSE e.move)

-----------------------------------------------------------------------------
\* images
ImageAt(st, e) ==
  LET p == st.pages[st.cur]
      full == e.w < 0 /\ e.h < 0
      w == IF full THEN p.w - p.m[2] - p.m[4] ELSE IF e.w >= 0 THEN e.w ELSE ((e.h \div 100) * e.num * 100) \div e.den
      h == IF e.h >= 0 THEN e.h ELSE ((w \div 100) * e.den * 100) \div e.num
  IN  [x |-> Or(e.x, -1, p.x), y |-> Or(e.y, -1, p.y), w |-> w, h |-> h]
Close(a, b) == Abs(a - b) <= 2000
ImageBad(st, e) ==
  LET i == ImageAt(st, e)
  IN  IF Len(e.obs) # 1 THEN {"ImageOnce"}
      ELSE LET o == e.obs[1]
           IN  Clause(o.page = st.cur /\ Same(o.x, i.x) /\ Near(o.y, i.y), "ImagePlace")
               \cup Clause(Close(o.w, i.w) /\ Close(o.h, i.h) /\ (e.w < 0 \/ Same(o.w, e.w)) /\ (e.h < 0 \/ Same(o.h, e.h)), "ImageSize")
ImageStep(st, e) ==
  LET i == ImageAt(st, e)
      w == IF e.obs = <<>> THEN i.w ELSE e.obs[1].w
      h == IF e.obs = <<>> THEN i.h ELSE e.obs[1].h
  IN  CASE e.move = "bottom" -> Put(st, i.x, i.y + h) [] e.move = "next" -> Put(st, i.x + w, i.y) [] OTHER -> Put(st, i.x, i.y)

-----------------------------------------------------------------------------
StInit(trace) ==
  LET d == trace[1]
  IN  [d |-> [f |-> Or(d.f, "", "Helvetica"), s |-> Or(d.s, -1, 11000), c |-> Or(d.c, -1, 100), al |-> Or(d.al, "", "l"), lh |-> Or(d.lh, -1, 1100),
              ind |-> Or(d.ind, -1, 0), roman |-> d.roman],
       su |-> Setup([size |-> Named["a4"], rot |-> 0, m |-> <<56693, 56693, 56693, 56693>>], d),
       pages |-> <<>>, cur |-> 0, heads |-> <<>>, fmts |-> <<>>, ctx |-> <<>>]
Step1(st, e) ==
  CASE e.ev = "set" -> [st EXCEPT !.d[e.what] = e.v]
    [] e.ev = "setup" -> [st EXCEPT !.su = Setup(st.su, e)]
    [] e.ev = "fmt" -> [st EXCEPT !.fmts = (e.name :> e.st) @@ @]
    [] e.ev = "ctx" -> [st EXCEPT !.ctx = (e.name :> e.v) @@ @]
    [] e.ev = "head" -> [st EXCEPT !.heads = Append(@, e)]
    [] e.ev = "page" -> [st EXCEPT !.pages = Append(@, NewPage(st.su, e)), !.cur = Len(st.pages) + 1]
    [] e.ev = "go" -> [st EXCEPT !.cur = e.page]
    [] e.ev = "at" -> Put(st, Or(e.x, -1, st.pages[st.cur].x), Or(e.y, -1, st.pages[st.cur].y))
    [] e.ev = "para" -> ParaStep(st, e)
    [] e.ev = "table" -> TableStep(st, e)
    [] e.ev = "image" -> ImageStep(st, e)
    [] OTHER -> st
Sees(st, e) == \/ e.ev \in {"def", "end", "malformed"} \/ st.pages = <<>>
               \/ LET c == Cursor(st) IN e.cur[1] = c[1] /\ Same(e.cur[2], c[2]) /\ Near(e.cur[3], c[3]) /\ e.cur[4] = c[4]
StBad(st, e) ==
  Clause(Sees(Step1(st, e), e), "Cursor")
  \cup CASE e.ev = "page" -> IF Len(e.made) # 1 THEN {"PageMade"} ELSE MadeBad(st, NewPage(st.su, e), e.made[1])
         [] e.ev = "para" -> ParaBad(st, e)
         [] e.ev = "table" -> TableBad(st, e)
         [] e.ev = "image" -> ImageBad(st, e)
         [] e.ev = "malformed" -> {"Readable"}
         [] e.ev = "end" -> Clause(e.pages = Len(st.pages), "Pages") \cup Clause(e.strange = 0, "NothingElse")
         [] OTHER -> {}
\* the walk goes on from what was seen
StStep(st, e) ==
  LET s == Step1(st, e)
  IN  IF e.ev \in {"def", "end", "malformed"} \/ s.pages = <<>> \/ e.cur[1] \notin DOMAIN s.pages THEN s
      ELSE [s EXCEPT !.cur = e.cur[1], !.pages[e.cur[1]].x = e.cur[2], !.pages[e.cur[1]].y = e.cur[3]]

Given(e) == { a \in {"al", "lh", "ind"} : LET none == IF a = "al" THEN "" ELSE -1 IN e.opts[a] # none \/ \E i \in DOMAIN e.elems : e.elems[i].opts[a] # none }
StHit(st, e) ==
  CASE e.ev = "para" -> {IF e.gap = 0 THEN (IF e.own THEN "text" ELSE "_text") ELSE IF e.own THEN "content" ELSE "_content"}
                        \cup (IF Len(e.made) > 0 THEN {"in new pages"} ELSE {}) \cup (IF Len(e.made) > 0 /\ st.cur < Len(st.pages) THEN {"in new pages, from another page"} ELSE {})
                        \cup (IF ~e.own /\ e.move = "next" THEN {"next"} ELSE {}) \cup { "own " \o a : a \in Given(e) }
                        \cup (IF ~e.own /\ e.box.x < 0 THEN {"at the cursor"} ELSE {})
                        \cup (IF \E i \in DOMAIN e.elems : \E j \in DOMAIN e.elems[i].items : e.elems[i].items[j].var = "$page" THEN {"number of the page"} ELSE {})
                        \cup (IF \E i \in DOMAIN e.elems : e.elems[i].list.n > 0 THEN {"list text"} ELSE {})
                        \cup (IF Walked(st, e).l # <<>> THEN {"unfinished"} ELSE {})
    [] e.ev = "table" -> {IF e.own THEN "table" ELSE "_table"} \cup (IF Len(e.made) > 0 THEN {"table in new pages"} ELSE {})
    [] e.ev = "page" -> (IF st.heads # <<>> THEN {"running sections"} ELSE {}) \cup {"margins " \o e.m.kind, "size " \o e.size.kind}
    [] e.ev = "set" -> {"set " \o e.what}
    [] e.ev \in {"setup", "go", "at", "image", "fmt", "ctx"} -> {e.ev}
    [] OTHER -> {}
=============================================================================
