-------------------------------- MODULE Doc ---------------------------------
(* Documents: sections on pages, the layout of every page, its running      *)
(* sections and its number.                                                 *)
(*                                                                          *)
(* Pages count from 0.  Settings: size <<w, h>> or <<>>, rot (0, 1, None),  *)
(* margin <<top, right, bottom, left>> or <<>>; off (None or a number), sty *)
(* ("", "arabic", "roman"), reset.  Events                                  *)
(*   def [base, sections, rules, runs]  base: settings of the document;     *)
(*         sections: set (settings), runs, n (lines), nums (lines that show *)
(*         the page number); rules: pages (ranges  *)
(*         <<from, to, step>>), set, exc, inc; runs: x, y, w, h (each       *)
(*         [t, v]: num, none, left, right, top, bottom, full), right        *)
(*         (aligned), n (lines, the last one shows the page number)         *)
(*   page [w, h, atoms, runs, nums]  atoms: sec, k, right, x1, x2, top, bot *)
(*         (right: aligned there); runs: run, k, x1, x2, top, bot, in the   *)
(*         order of painting; nums: page numbers shown: run (0 in the       *)
(*         content), k, text                                                *)
(*   wrote [i, off, sty, text, back]  on a PDF without sections: on page i, *)
(*         made current with that numbering                                 *)
(*   end                                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Clause(holds, name) == IF holds THEN {} ELSE {name}
Tol == 60
None == 9999999
Near(a, b) == a - b <= Tol /\ b - a <= Tol
Line == 12210
Lead == 1100
Gap == 5000
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

-----------------------------------------------------------------------------
\* roman numerals of 1..3999
Digit(d, i, v, x) == CASE d = 0 -> "" [] d = 1 -> i [] d = 2 -> i \o i [] d = 3 -> i \o i \o i [] d = 4 -> i \o v [] d = 5 -> v
                       [] d = 6 -> v \o i [] d = 7 -> v \o i \o i [] d = 8 -> v \o i \o i \o i [] OTHER -> i \o x
Roman(n) == Digit(n \div 1000, "M", "", "") \o Digit((n \div 100) % 10, "C", "D", "M") \o Digit((n \div 10) % 10, "X", "L", "C") \o Digit(n % 10, "I", "V", "X")
Figure(d) == CASE d = 0 -> "0" [] d = 1 -> "1" [] d = 2 -> "2" [] d = 3 -> "3" [] d = 4 -> "4" [] d = 5 -> "5" [] d = 6 -> "6" [] d = 7 -> "7" [] d = 8 -> "8" [] OTHER -> "9"
RECURSIVE Arabic(_)
Arabic(n) == IF n < 0 THEN "-" \o Arabic(0 - n) ELSE IF n < 10 THEN Figure(n) ELSE Arabic(n \div 10) \o Figure(n % 10)
Numeral(n, sty) == IF sty = "roman" THEN Roman(n) ELSE Arabic(n)

-----------------------------------------------------------------------------
\* later settings win
Over(a, b) == [size |-> IF b.size = <<>> THEN a.size ELSE b.size, rot |-> IF b.rot = None THEN a.rot ELSE b.rot,
               margin |-> IF b.margin = <<>> THEN a.margin ELSE b.margin]
InRange(p, g) == p >= g[1] /\ p < g[2] /\ (p - g[1]) % g[3] = 0
Applies(rule, p) == \E i \in DOMAIN rule.pages : InRange(p, rule.pages[i])
RECURSIVE Layout(_, _, _, _)
Layout(d, s, p, k) == IF k = 0 THEN Over(d.base, d.sections[s].set)
                      ELSE LET l == Layout(d, s, p, k - 1) IN IF Applies(d.rules[k], p) THEN Over(l, d.rules[k].set) ELSE l
LayoutOf(d, s, p) == Layout(d, s, p, Len(d.rules))
Wide(l) == IF l.rot = 1 THEN l.size[2] ELSE l.size[1]
High(l) == IF l.rot = 1 THEN l.size[1] ELSE l.size[2]
Within(q, S) == SelectSeq(q, LAMBDA x : x \in S)
Elems(q) == { q[i] : i \in DOMAIN q }
Without(q, r) == SelectSeq(q, LAMBDA x : x \notin Elems(r))
RECURSIVE Once(_)
Once(q) == IF q = <<>> THEN <<>> ELSE LET f == Once(SubSeq(q, 1, Len(q) - 1)) IN IF q[Len(q)] \in Elems(f) THEN f ELSE Append(f, q[Len(q)])
RECURSIVE Running(_, _, _, _)
Running(d, s, p, k) == IF k = 0 THEN d.sections[s].runs
                       ELSE LET q == Running(d, s, p, k - 1) IN IF Applies(d.rules[k], p) THEN Without(q, d.rules[k].exc) \o d.rules[k].inc ELSE q
RunningOf(d, s, p) == Once(Running(d, s, p, Len(d.rules)))
\* place of a running section: what is not given is the left or top edge of the page, or the size of its content area
RunX(r, l) == CASE r.x.t = "num" -> r.x.v [] r.x.t = "left" -> l.margin[4] [] r.x.t = "right" -> Wide(l) - l.margin[2] [] OTHER -> 0
RunY(r, l) == CASE r.y.t = "num" -> r.y.v [] r.y.t = "top" -> l.margin[1] [] r.y.t = "bottom" -> High(l) - l.margin[3] [] OTHER -> 0
RunW(r, l) == CASE r.w.t = "num" -> r.w.v [] r.w.t = "left" -> l.margin[4] [] r.w.t = "right" -> l.margin[2] [] r.w.t = "full" -> Wide(l)
                [] OTHER -> Wide(l) - l.margin[2] - l.margin[4]
RunH(r, l) == CASE r.h.t = "num" -> r.h.v [] r.h.t = "top" -> l.margin[1] [] r.h.t = "bottom" -> l.margin[3] [] r.h.t = "full" -> High(l)
                [] OTHER -> High(l) - l.margin[1] - l.margin[3]
RunTop(r, l, k) == High(l) - RunY(r, l) - Lead - (k - 1) * Line
RunFits(r, l, k) == RunTop(r, l, k) - 10000 >= High(l) - RunY(r, l) - RunH(r, l) - 300
RunFitsWell(r, l, k) == RunTop(r, l, k) - 10000 >= High(l) - RunY(r, l) - RunH(r, l) + 300

-----------------------------------------------------------------------------
DcInit(trace) == [d |-> trace[1], p |-> 0, sec |-> 0, k |-> 0, off |-> 0, sty |-> "arabic"]
\* numbering in force from the start of section s: what the section sets, else what the document sets, else what was in force
OffOf(d, st, s) == LET q == d.sections[s].set
                   IN  IF q.reset \/ d.base.reset THEN 0 - st.p
                       ELSE IF q.off # None THEN q.off ELSE IF d.base.off # None THEN d.base.off ELSE st.off
StyOf(d, st, s) == LET q == d.sections[s].set IN IF q.sty # "" THEN q.sty ELSE IF d.base.sty # "" THEN d.base.sty ELSE st.sty
\* the state on the next page: a section starts when the one before is all placed
Turn(st) == IF st.sec = 0 \/ st.k >= st.d.sections[st.sec].n
            THEN LET s == st.sec + 1
                 IN  IF s > Len(st.d.sections) THEN [st EXCEPT !.sec = s]
                     ELSE [st EXCEPT !.sec = s, !.k = 0, !.off = OffOf(st.d, st, s), !.sty = StyOf(st.d, st, s)]
            ELSE st
DcStep(st, e) == IF e.ev # "page" THEN st
                 ELSE LET t == Turn(st)
                          K == { e.atoms[i].k : i \in { j \in DOMAIN e.atoms : e.atoms[j].sec = t.sec } }
                      IN  [t EXCEPT !.p = @ + 1, !.k = IF K = {} THEN @ ELSE MaxOf(K)]

DcBad(st, e) ==
  CASE e.ev = "malformed" -> {"WellFormed_" \o e.rule}
    [] e.ev = "end" -> Clause(st.sec = Len(st.d.sections) /\ (st.sec = 0 \/ st.k = st.d.sections[st.sec].n), "NothingLost")
    [] e.ev = "page" ->
         LET t == Turn(st)
             d == t.d
         IN  IF t.sec > Len(d.sections) THEN {"NoPageTooMany"}
             ELSE
             LET l == LayoutOf(d, t.sec, t.p)
                 A == e.atoms
                 last == A[Len(A)]
                 runs == RunningOf(d, t.sec, t.p)
                 shown == Once([ i \in DOMAIN e.runs |-> e.runs[i].run ])
                 must == SelectSeq(runs, LAMBDA r : RunFitsWell(d.runs[r], l, 1))
             IN  Clause(Near(e.w, Wide(l)) /\ Near(e.h, High(l)), "PageSize")
                 \cup Clause(\A i \in DOMAIN A : A[i].sec = t.sec /\ A[i].k = t.k + i, "SectionsOnTheirPagesInOrder")
                 \cup Clause(\A i \in DOMAIN A : /\ (~A[i].right => Near(A[i].x1, l.margin[4]))
                                                 /\ (A[i].right => Near(A[i].x2, Wide(l) - l.margin[2])), "ContentBetweenTheMargins")
                 \cup Clause(A # <<>> => /\ Near(A[1].top + Lead, High(l) - l.margin[1]) /\ last.bot >= l.margin[3] - Tol, "ContentUnderTheTopMargin")
                 \cup Clause((A = <<>> => d.sections[t.sec].n = 0)
                             /\ ((A # <<>> /\ last.k < d.sections[t.sec].n) => last.bot - Gap - Line - Lead <= l.margin[3] + Tol), "PagesAreFull")
                 \cup Clause(Within(shown, Elems(must)) = must /\ \A i \in DOMAIN shown : shown[i] \in Elems(runs), "RunningSectionsOfThePage")
                 \cup Clause(\A i \in DOMAIN e.runs :
                               LET u == e.runs[i]
                                   r == d.runs[u.run]
                               IN  /\ RunFits(r, l, u.k) /\ Near(u.top, RunTop(r, l, u.k))
                                   /\ IF r.right THEN Near(u.x2, RunX(r, l) + RunW(r, l)) ELSE Near(u.x1, RunX(r, l)), "RunningSectionsInTheirPlace")
                 \cup Clause(\A r \in Elems(runs) : \A k \in 1..d.runs[r].n :
                               LET c == Cardinality({ i \in DOMAIN e.runs : e.runs[i].run = r /\ e.runs[i].k = k })
                               IN  c <= 1 /\ (RunFitsWell(d.runs[r], l, k) => c = 1), "RunningSectionsComplete")
    [] OTHER -> {}

\* page numbers
NmBad(st, e) ==
  CASE e.ev = "malformed" -> {"WellFormed_" \o e.rule}
    [] e.ev = "page" ->
         LET t == Turn(st)
             n == t.p + 1 + t.off
         IN  IF t.sec > Len(t.d.sections) THEN {}
             ELSE Clause(\A i \in DOMAIN e.nums : e.nums[i].text = Numeral(n, t.sty), "NumberOfThePage")
                  \cup Clause(\A i \in DOMAIN e.atoms : (e.atoms[i].sec = t.sec /\ e.atoms[i].k \in Elems(t.d.sections[t.sec].nums))
                                                      => (\E j \in DOMAIN e.nums : e.nums[j].run = 0 /\ e.nums[j].k = e.atoms[i].k), "NumbersInTheContent")
                  \cup Clause(\A i \in DOMAIN e.runs : e.runs[i].k = t.d.runs[e.runs[i].run].n
                                                      => (\E j \in DOMAIN e.nums : e.nums[j].run = e.runs[i].run), "NumbersInRunningSections")
    \* on one PDF: the page at index i was made current with this numbering and the number written
    [] e.ev = "wrote" -> Clause(e.text = Numeral(e.i + 1 + e.off, e.sty), "NumberOfThePage")
    [] OTHER -> {}

DcHit(st, e) ==
  IF e.ev = "wrote" THEN {IF e.sty = "roman" THEN "roman" ELSE "arabic", IF e.back THEN "earlier page" ELSE "new page"}
  ELSE IF e.ev # "page" THEN {}
  ELSE LET t == Turn(st)
           d == t.d
       IN  IF t.sec > Len(d.sections) THEN {}
           ELSE LET l == LayoutOf(d, t.sec, t.p)
                    app == { k \in DOMAIN d.rules : Applies(d.rules[k], t.p) }
                IN  (IF l # Over(d.base, d.sections[t.sec].set) THEN {"rule changes the layout"} ELSE {})
                    \cup (IF st.p > 0 /\ st.sec = t.sec /\ l # LayoutOf(d, t.sec, t.p - 1) THEN {"layout changes in a section"} ELSE {})
                    \cup (IF t.sec > 1 /\ d.sections[t.sec - 1].set # d.sections[t.sec].set THEN {"section with another style"} ELSE {})
                    \cup (IF l.rot = 1 THEN {"rotated"} ELSE {})
                    \cup (IF Cardinality(app) > 1 THEN {"several rules"} ELSE {})
                    \cup (IF \E k \in app : Elems(d.rules[k].exc) \cap Elems(d.sections[t.sec].runs) # {} THEN {"running section excluded"} ELSE {})
                    \cup (IF \E k \in app : d.rules[k].inc # <<>> THEN {"running section included"} ELSE {})
                    \cup (IF \E k \in app : \E g \in DOMAIN d.rules[k].pages : d.rules[k].pages[g][3] > 1 THEN {"range with a step"} ELSE {})
                    \cup (IF t.sec = st.sec /\ e.atoms # <<>> THEN {"section goes on"} ELSE {})
                    \cup (IF \E i \in DOMAIN e.runs : \E r \in DOMAIN d.runs : d.runs[r].n > 1 /\ ~RunFits(d.runs[r], l, d.runs[r].n) THEN {"running section too long"} ELSE {})
                    \cup (IF e.nums # <<>> THEN {IF t.sty = "roman" THEN "roman" ELSE "arabic"} ELSE {})
                    \cup (IF t.sec # st.sec /\ t.p > 0 /\ t.off = 0 - t.p THEN {"numbers start again"} ELSE {})
                    \cup (IF t.sec # st.sec /\ t.p > 0 /\ t.off # 0 /\ t.off = st.off THEN {"numbers go on"} ELSE {})
                    \cup (IF \E i \in DOMAIN e.nums : e.nums[i].run = 0 THEN {"number in the content"} ELSE {})
                    \cup (IF \E i \in DOMAIN e.nums : e.nums[i].run > 0 THEN {"number in a running section"} ELSE {})
                    \cup (IF e.nums # <<>> /\ t.p + 1 + t.off <= 0 THEN {"number below one"} ELSE {})
=============================================================================
