------------------------------- MODULE DocMC --------------------------------
(* Exhaustive design model of documents: sections of lines put on pages one *)
(* after another by a process that, like the library, keeps the layout and  *)
(* the numbering in variables and changes them as sections start and pages  *)
(* are added.  The pages it makes are accepted by the clauses of Doc.tla,   *)
(* and rejected when a rule's style stays on later pages (leak), a          *)
(* section's style stays in later sections (stay), a range includes its end *)
(* (endin), a rule includes before it excludes (order), a running section   *)
(* is painted twice (twice), numbers start again at 0 (zero), the style of  *)
(* numbers or the offset is forgotten in the next section (forget), numbers *)
(* do not go on on the second page of a section (still), or a line is lost  *)
(* between pages (lose).  Each definition is a scenario.                    *)
EXTENDS Doc, TLC, Json

CONSTANTS Sets, Ns, RunLists, Rules, MaxSections, MaxRules, Fault

None0 == [size |-> <<>>, rot |-> None, margin |-> <<>>, off |-> None, sty |-> "", reset |-> FALSE]
SetOf(q) == CASE q = "-" -> None0
              [] q = "size" -> [None0 EXCEPT !.size = <<340000, 220000>>]
              [] q = "turn" -> [None0 EXCEPT !.rot = 1]
              [] q = "margin" -> [None0 EXCEPT !.margin = <<60000, 70000, 60000, 90000>>]
              [] q = "off" -> [None0 EXCEPT !.off = 7]
              [] q = "roman" -> [None0 EXCEPT !.sty = "roman"]
              [] q = "reset" -> [None0 EXCEPT !.reset = TRUE]
              [] q = "reset roman" -> [None0 EXCEPT !.reset = TRUE, !.sty = "roman"]
Rule(pages, set, exc, inc) == [pages |-> pages, set |-> SetOf(set), exc |-> exc, inc |-> inc]
RuleOf(q) == CASE q = "1 margin" -> Rule(<< <<1, 2, 1>> >>, "margin", <<>>, <<>>)
               [] q = "0:2 turn" -> Rule(<< <<0, 2, 1>> >>, "turn", <<>>, <<>>)
               [] q = "1::2 size" -> Rule(<< <<1, 100000, 2>> >>, "size", <<>>, <<>>)
               [] q = ":1,2 -1" -> Rule(<< <<0, 1, 1>>, <<2, 3, 1>> >>, "-", <<1>>, <<>>)
               [] q = "1: +2" -> Rule(<< <<1, 100000, 1>> >>, "-", <<>>, <<2>>)
               [] q = ": -1+1" -> Rule(<< <<0, 100000, 1>> >>, "-", <<1>>, <<1, 2, 1>>)
Runs(q) == CASE q = "" -> <<>> [] q = "1" -> <<1>> [] q = "12" -> <<1, 2>> [] q = "21" -> <<2, 1>>
Run(y, h) == [x |-> [t |-> "left", v |-> 0], y |-> [t |-> y, v |-> 0], w |-> [t |-> "none", v |-> 0], h |-> [t |-> h, v |-> 0], right |-> FALSE, n |-> 1]
Base == [size |-> <<300000, 240000>>, rot |-> 0, margin |-> <<90000, 80000, 90000, 80000>>, off |-> None, sty |-> "", reset |-> FALSE]

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE SeqsUpTo(S, n - 1) \cup { Append(q, k) : q \in SeqsUpTo(S, n - 1), k \in S }
Section == [set : Sets, n : Ns, runs : RunLists]

VARIABLES secs, rules, s, k, p, off, sty, kept, out, done, hurt
vars == <<secs, rules, s, k, p, off, sty, kept, out, done, hurt>>
D == [base |-> Base, runs |-> << Run("none", "top"), Run("bottom", "bottom") >>,
      rules |-> [ i \in DOMAIN rules |-> RuleOf(rules[i]) ],
      sections |-> [ i \in DOMAIN secs |-> [set |-> SetOf(secs[i].set), runs |-> Runs(secs[i].runs), n |-> secs[i].n, nums |-> [ j \in 1..secs[i].n |-> j ]] ]]
Bare(set) == [size |-> set.size, rot |-> set.rot, margin |-> set.margin]

Init == /\ secs \in SeqsUpTo(Section, MaxSections) \ {<<>>}
        /\ rules \in SeqsUpTo(Rules, MaxRules)
        /\ s = 0 /\ k = 0 /\ p = 0 /\ off = 0 /\ sty = "arabic" /\ kept = Bare(Base)
        /\ out = <<>> /\ done = FALSE /\ hurt = FALSE

\* a section starts: its numbering, and the layout its pages start from
Begins == IF s = 0 THEN TRUE ELSE k = D.sections[s].n
Start == /\ ~done /\ Begins /\ s < Len(secs)
         /\ LET set == D.sections[s + 1].set
                new == Over(IF Fault = "stay" THEN kept ELSE Bare(Base), set)
                reset == IF Fault = "zero" THEN 0 - p - 1 ELSE 0 - p
            IN  /\ kept' = new
                /\ off' = IF set.reset THEN reset ELSE IF set.off # None THEN set.off ELSE IF Fault = "forget" THEN 0 ELSE off
                /\ sty' = IF set.sty # "" THEN set.sty ELSE IF Fault = "forget" THEN "arabic" ELSE sty
                /\ hurt' = (hurt \/ (Fault = "zero" /\ set.reset)
                                 \/ (Fault = "forget" /\ ((set.sty = "" /\ sty = "roman") \/ (set.off = None /\ ~set.reset /\ off # 0))))
         /\ s' = s + 1 /\ k' = 0
         /\ UNCHANGED <<secs, rules, p, out, done>>
End == /\ ~done /\ Begins /\ s = Len(secs)
       /\ done' = TRUE
       /\ UNCHANGED <<secs, rules, s, k, p, off, sty, kept, out, hurt>>

Match(r) == IF Fault = "endin" THEN \E i \in DOMAIN r.pages : p >= r.pages[i][1] /\ p <= r.pages[i][2] /\ (p - r.pages[i][1]) % r.pages[i][3] = 0
            ELSE Applies(r, p)
RECURSIVE Laid(_, _)
Laid(l, i) == IF i > Len(D.rules) THEN l ELSE Laid(IF Match(D.rules[i]) THEN Over(l, D.rules[i].set) ELSE l, i + 1)
RECURSIVE Furniture(_, _)
Furniture(q, i) == IF i > Len(D.rules) THEN q
                   ELSE LET r == D.rules[i]
                        IN  Furniture(IF ~Match(r) THEN q ELSE IF Fault = "order" THEN Without(q \o r.inc, r.exc) ELSE Without(q, r.exc) \o r.inc, i + 1)
Room(l) == (High(l) - l.margin[1] - l.margin[3]) \div Line
Left == D.sections[s].n - k
Page ==
  /\ ~done /\ ~Begins
  /\ LET l == Laid(kept, 1)
         lost == Fault = "lose" /\ k > 0
         first == IF lost THEN k + 2 ELSE k + 1
         last == IF k + Room(l) < D.sections[s].n THEN k + Room(l) ELSE D.sections[s].n
         at(j) == High(l) - l.margin[1] - Lead - (j - first) * Line
         raw == Furniture(D.sections[s].runs, 1)
         runs == IF Fault = "twice" THEN raw ELSE Once(raw)
         number == Numeral(p + 1 + off - (IF Fault = "still" /\ k > 0 THEN 1 ELSE 0), sty)
         ptop(r) == High(l) - RunY(D.runs[r], l) - Lead
         e == [ev |-> "page", w |-> Wide(l), h |-> High(l),
               atoms |-> [ i \in 1..(last - first + 1) |-> [sec |-> s, k |-> first + i - 1, right |-> FALSE, x1 |-> l.margin[4], x2 |-> l.margin[4] + 60000,
                                                            top |-> at(first + i - 1), bot |-> at(first + i - 1) - 10000] ],
               runs |-> [ i \in DOMAIN runs |-> [run |-> runs[i], k |-> 1, x1 |-> RunX(D.runs[runs[i]], l), x2 |-> RunX(D.runs[runs[i]], l) + 60000,
                                                 top |-> ptop(runs[i]), bot |-> ptop(runs[i]) - 10000] ],
               nums |-> [ i \in 1..(last - first + 1) |-> [run |-> 0, k |-> first + i - 1, text |-> number] ]
                        \o [ i \in DOMAIN runs |-> [run |-> runs[i], k |-> 1, text |-> number] ]]
     IN  /\ out' = Append(out, e)
         /\ k' = last
         /\ p' = p + 1
         /\ kept' = IF Fault = "leak" THEN l ELSE kept
         /\ hurt' = (hurt \/ lost \/ (Fault \in {"leak", "stay"} /\ l # LayoutOf(D, s, p)) \/ (Fault = "endin" /\ (l # LayoutOf(D, s, p) \/ Once(raw) # RunningOf(D, s, p)))
                          \/ (Fault = "order" /\ Elems(runs) # Elems(RunningOf(D, s, p))) \/ (Fault = "twice" /\ Once(raw) # raw)
                          \/ (Fault = "still" /\ k > 0))
  /\ UNCHANGED <<secs, rules, s, off, sty, done>>
Next == Start \/ Page \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE BadOf(_, _)
BadOf(st, es) == IF es = <<>> THEN {} ELSE DcBad(st, es[1]) \cup NmBad(st, es[1]) \cup BadOf(DcStep(st, es[1]), Tail(es))
Verdict == BadOf(DcInit(<<D>>), Append(out, [ev |-> "end"]))
Accepted == (done /\ Fault = "none") => Verdict = {}
Sharp == (done /\ hurt /\ Fault # "none") => Verdict # {}
Ends == <>done
Emit == (done /\ (Fault = "none" \/ hurt)) => PrintT("@SCENARIO " \o ToJson([secs |-> secs, rules |-> rules]))
=============================================================================
