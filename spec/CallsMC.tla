------------------------------ MODULE CallsMC ------------------------------
(* Exhaustive design model of the calls of a PDF: a writer executes every   *)
(* short sequence of calls, painting line by line and making pages when     *)
(* they are full.  What it leaves is accepted by the clauses of Calls.tla,  *)
(* and rejected when it keeps the arguments of a page for the next pages    *)
(* (sticky), ignores attributes that were set (fixed), makes pages like the *)
(* page before (same) or without running sections (bare), leaves the cursor *)
(* below a content box (low), starts a paragraph beside the margin (aside), *)
(* paints a line below the end of the page (late), loses the first line of  *)
(* a new page (drop), takes the number of the last page for that of the     *)
(* page (number), paints on the last page (last), keeps an option of a call *)
(* for the next ones (option), or does not move beside a paragraph (keep).  *)
EXTENDS Calls, Json

CONSTANTS MaxOps, Kinds, Faults
VARIABLES fault, ops, k, d, su, pages, cur, heads, work, out, done
vars == <<fault, ops, k, d, su, pages, cur, heads, work, out, done>>

NoSt == [name |-> "", f |-> "", s |-> -1, c |-> -1, b |-> -1]
NoOpt == [al |-> "", lh |-> -1, ind |-> -1]
NoList == [n |-> 0, ind |-> -1]
NoBox == [x |-> -1, y |-> -1, w |-> -1, h |-> -1]
None == [kind |-> "none", v |-> <<>>]
Item(var) == [n |-> 6, st |-> NoSt, var |-> var]
Elem(n, opts, st) == [st |-> st, opts |-> opts, list |-> NoList, items |-> [ i \in 1..n |-> Item(IF i = 1 THEN "$page" ELSE "") ] \o <<>>]
Right == [NoOpt EXCEPT !.al = "r"]
Red == [NoSt EXCEPT !.c = 2]
Para(own, n, opts, st, box, move) == [ev |-> "para", own |-> own, box |-> box, gap |-> 0, move |-> move, st |-> NoSt, opts |-> NoOpt, elems |-> <<Elem(n, opts, st)>>]
Content(a, b) == [ev |-> "para", own |-> TRUE, box |-> NoBox, gap |-> 5000, move |-> "bottom", st |-> NoSt, opts |-> NoOpt, elems |-> <<Elem(a, NoOpt, NoSt), Elem(b, NoOpt, NoSt)>>]
Op(q) ==
  CASE q = "text" -> Para(TRUE, 2, NoOpt, NoSt, NoBox, "bottom")
    [] q = "right" -> Para(TRUE, 1, Right, Red, NoBox, "bottom")
    [] q = "long" -> Para(TRUE, 9, NoOpt, NoSt, NoBox, "bottom")
    [] q = "content" -> Content(1, 1)
    [] q = "longer" -> Content(3, 6)
    [] q = "beside" -> Para(FALSE, 1, NoOpt, NoSt, [NoBox EXCEPT !.x = 20000, !.w = 160000], "next")
    [] q = "there" -> Para(FALSE, 3, NoOpt, NoSt, [NoBox EXCEPT !.y = 40000, !.h = 25000], "bottom")
    [] q = "color" -> [ev |-> "set", what |-> "c", v |-> 3]
    [] q = "size" -> [ev |-> "set", what |-> "s", v |-> 8000]
    [] q = "page" -> [ev |-> "page", size |-> None, rot |-> -1, m |-> None]
    [] q = "wide" -> [ev |-> "page", size |-> [kind |-> "pair", v |-> <<300000, 220000>>], rot |-> -1, m |-> [kind |-> "sides", v |-> <<-1, -1, -1, 30000>>]]
    [] q = "setup" -> [ev |-> "setup", size |-> None, rot |-> 1, m |-> None]
    [] q = "head" -> [ev |-> "head", x |-> 5000, y |-> 0, w |-> 160000, h |-> 60000, gap |-> 5000, st |-> NoSt, opts |-> NoOpt, elems |-> <<Elem(1, NoOpt, NoSt)>>]
    [] q = "first" -> [ev |-> "go", page |-> 1]
Def == [ev |-> "def", size |-> [kind |-> "pair", v |-> <<220000, 230000>>], rot |-> -1, m |-> [kind |-> "list", v |-> <<75000, 10000>>], f |-> "Courier", s |-> 10000, c |-> 100,
        al |-> "l", lh |-> 1000, ind |-> 0, roman |-> 0]

Idle == [lines |-> <<>>, k |-> 0, a |-> <<>>, used |-> 0, top |-> TRUE, obs |-> <<>>, made |-> <<>>]
Init == /\ fault \in Faults /\ ops = <<"page">> /\ k = 0 /\ d = [f |-> "Courier", s |-> 10000, c |-> 100, al |-> "l", lh |-> 1000, ind |-> 0, roman |-> 0]
        /\ su = [size |-> <<220000, 230000>>, rot |-> 0, m |-> <<75000, 10000, 75000, 10000>>] /\ pages = <<>> /\ cur = 0 /\ heads = <<>> /\ work = Idle
        /\ out = <<Def>> /\ done = FALSE
Plan == /\ k = 0 /\ Len(ops) <= MaxOps /\ \E q \in Kinds : ops' = Append(ops, q)
        /\ UNCHANGED <<fault, k, d, su, pages, cur, heads, work, out, done>>
Go == k = 0 /\ Len(ops) > 1 /\ k' = 1 /\ UNCHANGED <<fault, ops, d, su, pages, cur, heads, work, out, done>>

\* the writer
Seen(p, c) == <<c, p[c].x, p[c].y, Len(p)>>
Emit1(e, p, c) == out' = Append(out, e @@ [cur |-> IF p = <<>> THEN <<0, 0, 0, 0>> ELSE Seen(p, c)])
Paint(page, x, base, i, look, tail) ==
  [k |-> i, page |-> page, x |-> x, base |-> base, w |-> (look.s * 3600) \div 1000 + ((look.s * 600) \div 1000) * (IF tail = "" THEN 0 ELSE 1), s |-> look.s, f |-> look.f, b |-> 0, c |-> look.c, tail |-> tail]
Number(page) == ToString(IF fault = "number" THEN Len(pages) ELSE page)
HeadOf(page) == [ i \in DOMAIN heads |-> <<Paint(page, 5000, d.s + d.lh, 1, d, ToString(page))>> ] \o <<>>
Make(s, p, bare) == [w |-> p.w, h |-> p.h, heads |-> IF bare THEN [ i \in DOMAIN heads |-> <<>> ] \o <<>> ELSE HeadOf(Len(pages) + 1)]
Now == ops[k]
Def0 == IF fault = "fixed" THEN [d EXCEPT !.s = 10000, !.c = 100] ELSE d
Simple ==
  /\ k \in DOMAIN ops /\ work.k = 0 /\ Op(Now).ev # "para"
  /\ LET o == Op(Now)
     IN  CASE o.ev = "set" -> /\ d' = [d EXCEPT ![o.what] = o.v] /\ Emit1(o, pages, cur) /\ UNCHANGED <<su, pages, cur, heads>>
           [] o.ev = "setup" -> /\ su' = [su EXCEPT !.rot = 1] /\ Emit1(o, pages, cur) /\ UNCHANGED <<d, pages, cur, heads>>
           [] o.ev = "head" -> /\ heads' = Append(heads, o) /\ Emit1(o, pages, cur) /\ UNCHANGED <<d, su, pages, cur>>
           [] o.ev = "go" -> /\ cur' = 1 /\ Emit1(o, pages, 1) /\ UNCHANGED <<d, su, pages, heads>>
           [] OTHER -> LET z == IF o.size.kind = "none" THEN su.size ELSE <<300000, 220000>>
                           m == IF o.m.kind = "none" THEN su.m ELSE [su.m EXCEPT ![4] = 30000]
                           p == [w |-> z[IF su.rot = 1 THEN 2 ELSE 1], h |-> z[IF su.rot = 1 THEN 1 ELSE 2], m |-> m, x |-> m[4], y |-> m[1]]
                       IN  /\ pages' = Append(pages, p) /\ cur' = Len(pages) + 1
                           /\ su' = IF fault = "sticky" THEN [su EXCEPT !.size = z, !.m = m] ELSE su
                           /\ out' = Append(out, o @@ [made |-> <<Make(su, p, FALSE)>>, cur |-> <<Len(pages) + 1, p.x, p.y, Len(pages) + 1>>])
                           /\ UNCHANGED <<d, heads>>
  /\ k' = k + 1 /\ UNCHANGED <<fault, ops, work, done>>
\* the lines of a call, with what they look like
RECURSIVE Flat(_, _)
Flat(o, q) == IF q > Len(o.elems) THEN <<>>
              ELSE LET el == o.elems[q]
                   IN  [ i \in DOMAIN el.items |-> [first |-> i = 1, gap |-> IF i = 1 /\ q > 1 THEN 5000 ELSE 0, var |-> el.items[i].var,
                                                    look |-> [s |-> Def0.s, f |-> Def0.f, c |-> IF el.st.c = -1 THEN Def0.c ELSE el.st.c],
                                                    al |-> IF el.opts.al = "" THEN d.al ELSE el.opts.al] ] \o Flat(o, q + 1)
AreaOf(o, p, c) ==
  IF o.own THEN LET x == IF fault = "aside" THEN p.x ELSE p.m[4] IN [page |-> c, x |-> x, y |-> p.y, w |-> p.w - p.m[2] - p.m[4], h |-> p.h - p.m[3] - p.y]
  ELSE LET x == IF o.box.x < 0 THEN p.x ELSE o.box.x
           y == IF o.box.y < 0 THEN p.y ELSE o.box.y
       IN  [page |-> c, x |-> x, y |-> y, w |-> IF o.box.w < 0 THEN p.w - p.m[2] - x ELSE o.box.w, h |-> IF o.box.h < 0 THEN p.h - p.m[3] - y ELSE o.box.h]
Begin ==
  /\ k \in DOMAIN ops /\ work.k = 0 /\ Op(Now).ev = "para"
  /\ LET c == IF fault = "last" THEN Len(pages) ELSE cur
     IN  /\ work' = [Idle EXCEPT !.k = 1, !.lines = Flat(Op(Now), 1), !.a = AreaOf(Op(Now), pages[c], c)]
         /\ cur' = c
  /\ d' = IF fault = "option" /\ Op(Now).elems[1].opts.al # "" THEN [d EXCEPT !.al = Op(Now).elems[1].opts.al] ELSE d
  /\ UNCHANGED <<fault, ops, k, su, pages, heads, out, done>>
High(l, top) == (IF top THEN 0 ELSE l.gap) + l.look.s + d.lh
Fit(l) == work.used + High(l, work.top) - (IF fault = "late" THEN 6000 ELSE 0) <= work.a.h
Line ==
  /\ work.k > 0 /\ work.k <= Len(work.lines) /\ Fit(work.lines[work.k])
  /\ LET l == work.lines[work.k]
         h == High(l, work.top)
         o == Paint(work.a.page, 0, work.a.y + work.used + h, work.k, l.look, IF l.var = "" THEN "" ELSE Number(work.a.page))
         x == IF l.al = "r" THEN work.a.x + work.a.w - o.w ELSE work.a.x
     IN  work' = [work EXCEPT !.k = @ + 1, !.used = @ + h, !.top = FALSE,
                              !.obs = IF fault = "drop" /\ work.top /\ Len(work.made) > 0 THEN @ ELSE Append(@, [o EXCEPT !.x = x])]
  /\ UNCHANGED <<fault, ops, k, d, su, pages, cur, heads, out, done>>
TurnPage ==
  /\ work.k > 0 /\ work.k <= Len(work.lines) /\ ~Fit(work.lines[work.k]) /\ Op(Now).own
  /\ LET old == pages[work.a.page]
         p == IF fault = "same" THEN [old EXCEPT !.x = old.m[4], !.y = old.m[1]]
              ELSE [w |-> su.size[IF su.rot = 1 THEN 2 ELSE 1], h |-> su.size[IF su.rot = 1 THEN 1 ELSE 2], m |-> su.m, x |-> su.m[4], y |-> su.m[1]]
         n == Len(pages) + 1
     IN  /\ pages' = Append([pages EXCEPT ![work.a.page].x = work.a.x, ![work.a.page].y = work.a.y + work.used], p)
         /\ cur' = n
         /\ work' = [work EXCEPT !.a = AreaOf(Op(Now), p, n), !.used = 0, !.top = TRUE, !.made = Append(@, Make(su, p, fault = "bare"))]
  /\ UNCHANGED <<fault, ops, k, d, su, heads, out, done>>
Finish ==
  /\ work.k > 0 /\ (IF work.k > Len(work.lines) THEN TRUE ELSE ~Fit(work.lines[work.k]) /\ ~Op(Now).own)
  /\ LET o == Op(Now)
         a == work.a
         p == CASE o.move = "bottom" -> [pages EXCEPT ![cur].x = a.x, ![cur].y = a.y + work.used + (IF fault = "low" /\ o.gap > 0 THEN 12000 ELSE 0)]
                [] OTHER -> [pages EXCEPT ![cur].x = IF fault = "keep" THEN a.x ELSE a.x + a.w, ![cur].y = a.y]
     IN  /\ pages' = p
         /\ out' = Append(out, o @@ [obs |-> work.obs, made |-> work.made, cur |-> Seen(p, cur)])
  /\ work' = Idle /\ k' = k + 1
  /\ UNCHANGED <<fault, ops, d, su, cur, heads, done>>
End == k > Len(ops) /\ ~done /\ done' = TRUE /\ out' = Append(out, [ev |-> "end", pages |-> Len(pages), strange |-> 0])
       /\ UNCHANGED <<fault, ops, k, d, su, pages, cur, heads, work>>
Next == Plan \/ Go \/ Simple \/ Begin \/ Line \/ TurnPage \/ Finish \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Go \/ Simple \/ Begin \/ Line \/ TurnPage \/ Finish \/ End)

RECURSIVE BadOf(_, _)
BadOf(st, es) == IF es = <<>> THEN {} ELSE StBad(st, es[1]) \cup BadOf(StStep(st, es[1]), Tail(es))
Verdict == BadOf(StInit(out), out)
\* did the fault show
Has(q) == \E i \in DOMAIN ops : ops[i] = q
Before(a, b) == \E i, j \in DOMAIN ops : i < j /\ ops[i] \in a /\ ops[j] \in b
Made == \E i \in DOMAIN out : out[i].ev = "para" /\ Len(out[i].made) > 0
Shown(j) == out[j].ev = "para" /\ out[j].obs # <<>>
Hurt ==
  CASE fault = "none" -> FALSE
    [] fault = "sticky" -> Before({"wide"}, {"page"})
    [] fault = "fixed" -> \E i, j \in DOMAIN out : i < j /\ out[i].ev = "set" /\ Shown(j) /\ out[j].elems[1].st.c = -1
    [] fault = "same" -> \E i \in DOMAIN out : out[i].ev = "para" /\ \E j \in DOMAIN out[i].made : out[i].made[j].w = 300000
    [] fault = "bare" -> heads # <<>> /\ \E i, j \in DOMAIN out : i < j /\ out[i].ev = "head" /\ out[j].ev = "para" /\ Len(out[j].made) > 0
    [] fault = "low" -> Has("content")
    [] fault = "aside" -> \E j \in 3..Len(out) : Shown(j) /\ out[j].own /\ out[j].made = <<>> /\ out[j - 1].ev = "para" /\ out[j - 1].move = "next"
    [] fault = "late" -> \E i \in DOMAIN out : out[i].ev = "para" /\ \E j \in DOMAIN out[i].obs : out[i].own /\ out[i].obs[j].base > 155000 + 1000 /\ Len(pages) = 1 /\ ~Has("setup")
    [] fault = "drop" -> Made
    [] fault = "number" -> \E i \in DOMAIN out : out[i].ev = "para" /\ \E j \in DOMAIN out[i].obs : out[i].obs[j].tail # "" /\ out[i].obs[j].tail # ToString(out[i].obs[j].page)
    [] fault = "last" -> \E i, j \in DOMAIN out : i + 1 = j /\ out[i].ev = "go" /\ out[i].cur[4] > 1 /\ Shown(j) /\ out[j].made = <<>>
    [] fault = "option" -> \E i, j \in DOMAIN out : i < j /\ out[i].ev = "para" /\ out[i].elems[1].opts.al # "" /\ Shown(j) /\ out[j].elems[1].opts.al = ""
    [] fault = "keep" -> Has("beside")
Accepted == (done /\ fault = "none") => Verdict = {}
Sharp == (done /\ fault # "none" /\ Hurt) => Verdict # {}
Emit == (done /\ (fault = "none" \/ Hurt)) => PrintT("@SCENARIO " \o ToJson([fault |-> fault, ops |-> [ i \in DOMAIN ops |-> Op(ops[i]) ], def |-> Def]))
Ends == <>(done \/ k = 0)
=============================================================================
