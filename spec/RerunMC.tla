------------------------------ MODULE RerunMC -------------------------------
(* Exhaustive design model: histories of runs, saves and restores of a      *)
(* layout of Total units that fills areas of given capacities.  It keeps    *)
(* its position, and working data that a run leaves behind and the next one *)
(* starts over.  Its runs are accepted by Rerun.tla; the same layout with a *)
(* position that a restore does not set back (Leaky) is not, once a         *)
(* history runs, restores and runs again.  Each history is a scenario.      *)
EXTENDS Rerun, Integers, TLC, Json

CONSTANTS Areas, Slots, MaxOps, Total, Leaky
Cap(a) == a
VARIABLES pos, sum, path, slots, hist, ev
vars == <<pos, sum, path, slots, hist, ev>>
None == [p |-> 0 - 1, sum |-> 0, path |-> <<>>]
Init == pos = 0 /\ sum = 0 /\ path = <<>> /\ slots = [k \in Slots |-> None] /\ hist = <<>> /\ ev = <<>>
Fin == pos >= Total
LastOp == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
Run(a) == LET to == IF pos + Cap(a) > Total THEN Total ELSE pos + Cap(a)
          IN  /\ ~Fin
              /\ ev' = Append(ev, [ev |-> "run", path |-> path, area |-> a, out |-> <<pos, to>>, fin |-> to = Total, all |-> IF to = Total THEN sum + to - pos ELSE 0, fresh |-> FALSE])
              /\ pos' = to
              /\ sum' = sum + to - pos
              /\ path' = Append(path, a)
              /\ hist' = Append(hist, [op |-> "run", k |-> a])
              /\ UNCHANGED slots
Save(k) == /\ LastOp # "save"
           /\ ~Fin
           /\ \A j \in Slots : slots[j].path # path \/ slots[j] = None
           /\ \A j \in Slots : j < k => slots[j] # None
           /\ slots' = [slots EXCEPT ![k] = [p |-> pos, sum |-> sum, path |-> path]]
           /\ hist' = Append(hist, [op |-> "save", k |-> k])
           /\ UNCHANGED <<pos, sum, path, ev>>
Restore(k) == /\ slots[k] # None
              /\ LastOp = "run"
              /\ pos' = IF Leaky THEN pos ELSE slots[k].p
              /\ sum' = slots[k].sum
              /\ path' = slots[k].path
              /\ hist' = Append(hist, [op |-> "restore", k |-> k])
              /\ UNCHANGED <<slots, ev>>
Next == Len(hist) < MaxOps /\ (\E a \in Areas : Run(a) \/ \E k \in Slots : Save(k) \/ Restore(k))
Spec == Init /\ [][Next]_vars

RECURSIVE BadOf(_, _)
BadOf(s, es) == IF es = <<>> THEN {} ELSE RrBad(s, es[1]) \cup BadOf(RrStep(s, es[1]), Tail(es))
\* the history as the trace judge sees it
Accepted == ~Leaky => BadOf(RrInit(<<>>), ev) = {}
Restored == \E i \in DOMAIN hist : hist[i].op = "restore"
Again == \E i, j \in DOMAIN ev : i < j /\ ev[i].path = ev[j].path /\ ev[i].area = ev[j].area
Sharp == (Leaky /\ Again) => BadOf(RrInit(<<>>), ev) # {}
Emit == (LastOp = "run" /\ Restored /\ Again) => PrintT("@SCENARIO " \o ToJson([hist |-> hist]))
=============================================================================
