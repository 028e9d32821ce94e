----------------------------- MODULE TraceJudge -----------------------------
(* Gives every recorded trace a verdict.                                    *)
(*                                                                          *)
(* A trace is a sequence of events recorded from the real code.  The        *)
(* specification the trace is judged against supplies, through the model    *)
(* configuration, the initial abstract state, the set of names of the       *)
(* clauses an event violates in a state, the abstract state after the       *)
(* event, and the names of the situations the event exercises (used to show *)
(* that no clause is decided vacuously).  The judge is total: a violated    *)
(* clause is recorded and the walk goes on, so that every trace ends with a *)
(* verdict that names every violated clause and the event that violates it. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS InitOf(_), Bad(_, _), Step(_, _), Hit(_, _)

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, st, bad, hit
jvars == <<tid, l, st, bad, hit>>

JInit == /\ tid \in 1..Len(Traces)
         /\ l = 1
         /\ st = InitOf(Traces[tid])
         /\ bad = {}
         /\ hit = {}

Cap == 12

JNext == /\ l <= Len(Traces[tid])
         /\ LET e == Traces[tid][l]
                b == Bad(st, e)
            IN  /\ bad' = IF Cardinality(bad) > Cap THEN bad
                          ELSE bad \cup { [c |-> n, l |-> l] : n \in b }
                /\ st' = Step(st, e)
                /\ hit' = hit \cup Hit(st, e)
         /\ l' = l + 1
         /\ tid' = tid
         /\ IF l = Len(Traces[tid])
            THEN PrintT("@VERDICT " \o ToJson([tid |-> tid, bad |-> bad', hit |-> hit']))
            ELSE TRUE

JSpec == JInit /\ [][JNext]_jvars
=============================================================================
