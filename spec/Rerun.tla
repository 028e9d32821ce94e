------------------------------- MODULE Rerun --------------------------------
(* Re-running layouts from checkpoints.                                     *)
(* A layout object (paragraph, table, content box) has one abstract state:  *)
(* the sequence of the areas it was committed to since it was made.  A run  *)
(* in an area appends that area, restoring a saved state goes back to the   *)
(* sequence of that state, and what a run paints is a function of that      *)
(* sequence and the area alone.                                             *)
(* Events                                                                   *)
(*   run [path, area, out, fin, all, fresh]  run in area in the state path; *)
(*         out identifies what was painted, fin whether the layout is       *)
(*         finished, and all, if it is, everything painted by the runs of   *)
(*         the path up to here, whatever the places;                        *)
(*         fresh: the object was newly made and only ever run in path       *)
EXTENDS Naturals, Sequences, FiniteSets

Clause(holds, name) == IF holds THEN {} ELSE {name}
RrInit(trace) == [runs |-> <<>>, last |-> [path |-> <<>>, fin |-> FALSE, fresh |-> FALSE]]
Same(s, e) == { k \in DOMAIN s.runs : s.runs[k].path = e.path /\ s.runs[k].area = e.area }
RrBad(s, e) ==
  CASE e.ev = "run" ->
         Clause(\A k \in Same(s, e) : s.runs[k].fresh # e.fresh \/ (s.runs[k].out = e.out /\ s.runs[k].fin = e.fin), "RunAgainPaintsTheSame")
         \cup Clause(\A k \in Same(s, e) : s.runs[k].fresh = e.fresh \/ (s.runs[k].out = e.out /\ s.runs[k].fin = e.fin), "DiscardedRunsLeaveNoTrace")
         \* a state is finished or not: runs that start in it agree on whether there is anything left to run
         \cup Clause(\A k \in DOMAIN s.runs : Append(s.runs[k].path, s.runs[k].area) # e.path \/ ~s.runs[k].fin, "NothingAfterTheEnd")
         \* all ways to the end paint the same things, in some places
         \cup Clause(e.fin => \A k \in DOMAIN s.runs : s.runs[k].fin => s.runs[k].all = e.all, "EveryWayToTheEndPaintsAll")
    [] OTHER -> {}
RrStep(s, e) == CASE e.ev = "run" -> [s EXCEPT !.runs = Append(@, e), !.last = e]
                  [] OTHER -> s
RrHit(s, e) ==
  CASE e.ev = "run" ->
         (IF \E k \in Same(s, e) : s.runs[k].fresh = e.fresh THEN {"run again"} ELSE {})
         \cup (IF \E k \in Same(s, e) : s.runs[k].fresh # e.fresh THEN {"compared with a fresh object"} ELSE {})
         \cup (IF e.path # <<>> /\ \E k \in Same(s, e) : TRUE THEN {"run again from the middle"} ELSE {})
         \cup (IF e.fin /\ e.path # <<>> THEN {"finished in a later area"} ELSE {})
         \cup (IF e.fin /\ \E k \in DOMAIN s.runs : s.runs[k].fin /\ s.runs[k].path # e.path THEN {"another way to the end"} ELSE {})
         \cup (IF \E k \in Same(s, e) : \E j \in (k + 1)..Len(s.runs) : s.runs[j].area # e.area /\ s.runs[j].fresh = e.fresh
               THEN {"other areas in between"} ELSE {})
    [] OTHER -> {}
=============================================================================
