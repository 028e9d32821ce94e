-------------------------------- MODULE IsoMC --------------------------------
(* Exhaustive design model of builds in one process: builds of definitions  *)
(* that share a part, interleaved step by step.  A build copies what it     *)
(* changes, keeps its own fonts, formats, names and counters, and goes      *)
(* through its content in order.  The outcome is the same for every         *)
(* schedule; it is not, and Iso.tla says so, when a build writes in the     *)
(* shared part (alias), numbers with a counter of the process (counter),    *)
(* keeps a registry by name in the process (names), changes the defaults    *)
(* (defaults), changes the shared part only while it runs (borrow) or goes  *)
(* through a set (hash).  Every schedule is a scenario.                     *)
EXTENDS Iso, TLC, Json

CONSTANTS Docs, Builds, Steps, Faults
Shared(d) == d # 3      \* definitions 1 and 2 share a part
VARIABLES fault, docof, at, sched, part, counter, reg, style, own, trace, done
vars == <<fault, docof, at, sched, part, counter, reg, style, own, trace, done>>
B == 1..Builds
Res(t) == [pages |-> "1", text |-> t, graphics |-> "", images |-> "", links |-> "", outline |-> ""]
\* what a fresh process makes of a definition: what its steps read
Pure(d) == SubSeq(<< d, 0, d, 0 >>, 1, IF Steps < 4 THEN Steps ELSE 4)
Text(q) == ToString(q)
Init == /\ fault \in Faults
        /\ docof \in [B -> Docs]
        /\ at = [ b \in B |-> 0 ] /\ sched = <<>> /\ part = 0 /\ counter = 0 /\ reg = 0 /\ style = 0
        /\ own = [ b \in B |-> <<>> ] /\ done = FALSE
        /\ trace = <<>>
Running(b) == at[b] \in 1..Steps
Move(b) ==
  /\ at[b] <= Steps
  /\ at' = [at EXCEPT ![b] = @ + 1]
  /\ sched' = Append(sched, b)
  /\ LET d == docof[b]
         k == at[b]
         \* the attributes a step of a build reads
         value == CASE k = 1 -> (IF fault = "names" /\ reg # 0 THEN reg ELSE d)
                    [] k = 2 -> (IF fault \in {"alias", "borrow"} /\ Shared(d) THEN part ELSE 0)
                    [] k = 3 -> d
                    [] k = 4 -> (IF fault = "defaults" THEN style ELSE IF fault = "counter" THEN counter ELSE 0)
                    [] OTHER -> 0
     IN  /\ own' = IF k \in 1..4 THEN [own EXCEPT ![b] = Append(@, value)] ELSE own
         /\ part' = IF fault = "alias" /\ Shared(d) /\ k = 2 THEN d
                    ELSE IF fault = "borrow" /\ Shared(d) THEN (IF k = 2 THEN d ELSE IF k = Steps THEN 0 ELSE part) ELSE part
         /\ counter' = IF fault = "counter" /\ k = 4 THEN counter + 1 ELSE counter
         /\ reg' = IF fault = "names" /\ k = 1 /\ reg = 0 THEN d ELSE reg
         /\ style' = IF fault = "defaults" /\ k = 4 THEN d ELSE style
         /\ trace' = Append(trace, IF k = 0 THEN [ev |-> "begin", b |-> b, doc |-> d]
                                   ELSE IF k = Steps THEN [ev |-> "end", b |-> b, res |-> Res(Text(own'[b]))] ELSE [ev |-> "step", b |-> b])
  /\ UNCHANGED <<fault, docof, done>>
\* the first build starts first
End == ~done /\ (\A b \in B : at[b] > Steps) /\ done' = TRUE /\ UNCHANGED <<fault, docof, at, sched, part, counter, reg, style, own, trace>>
Next == (\E b \in B : (at[b] = 0 => \A c \in 1..(b - 1) : at[c] > 0) /\ Move(b)) \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NDocs == Cardinality(Docs)
Def == [docs |-> NDocs, builds |-> Builds]
Alone == [ d \in 1..NDocs |-> [ev |-> "alone", doc |-> d, res |-> Res(Text(Pure(d)))] ]
Other == IF fault = "hash" THEN << [ev |-> "alone", doc |-> 1, res |-> Res("2")] >> ELSE <<>>
Last == << [ev |-> "check", doc |-> 1, before |-> "0", after |-> ToString(part)], [ev |-> "end_"] >>
RECURSIVE BadOf(_, _)
BadOf(st, es) == IF es = <<>> THEN {} ELSE IsBad(st, es[1]) \cup BadOf(IsStep(st, es[1]), Tail(es))
Verdict == BadOf(IsInit(<<Def>>), Alone \o Other \o trace \o Last)
Hurt == \/ fault = "hash" \/ part # 0
        \/ \E b \in B : own[b] # Pure(docof[b])
Accepted == (done /\ fault = "none") => Verdict = {}
Sharp == (done /\ Hurt /\ fault # "none") => Verdict # {}
Ends == <>done
Emit == (done /\ (fault = "none" \/ Hurt)) => PrintT("@SCENARIO " \o ToJson([fault |-> fault, docs |-> docof, sched |-> sched]))
=============================================================================
