----------------------------- MODULE PageTreeMC -----------------------------
(* Exhaustive design model: histories of setups, page additions and writes, *)
(* with a writer that groups nodes by Fan until one is left.  Every tree    *)
(* the writer makes is accepted by the walk of PageTree.tla, and histories  *)
(* are emitted as scenarios for the real code.                              *)
EXTENDS PageTree, TLC, Json

CONSTANTS Fan, MaxOps, Bulk
Sizes == {<<400000, 300000>>, <<250000, 612000>>}

VARIABLES st, ops, bad
vars == <<st, ops, bad>>

\* leaves and groups of one level; a node is [kind, id, kids, name, box]
Chunks(s, k) == [i \in 1..((Len(s) + k - 1) \div k) |-> SubSeq(s, (i - 1) * k + 1, IF i * k < Len(s) THEN i * k ELSE Len(s))]
RECURSIVE CountOf(_)
CountOf(n) == IF n.kind = "page" THEN 1
              ELSE LET RECURSIVE Sum(_) Sum(s) == IF s = <<>> THEN 0 ELSE CountOf(s[1]) + Sum(Tail(s)) IN Sum(n.kids)
RECURSIVE Build(_, _)
Build(level, nodes) ==
  LET g == [i \in 1..Len(Chunks(nodes, Fan)) |->
              [kind |-> "node", id |-> level * 1000 + i, kids |-> Chunks(nodes, Fan)[i], name |-> 0, box |-> <<>>]]
  IN  IF Len(g) = 1 THEN g[1] ELSE Build(level + 1, g)
RECURSIVE Walk(_, _), WalkAll(_, _)
Walk(n, parent) ==
  IF n.kind = "page" THEN <<[ev |-> "page", id |-> n.id, parent |-> parent, name |-> n.name, box |-> n.box]>>
  ELSE <<[ev |-> "node", id |-> n.id, parent |-> parent, count |-> CountOf(n), nkids |-> Len(n.kids)]>>
       \o WalkAll(n.kids, n.id) \o <<[ev |-> "up"]>>
WalkAll(s, parent) == IF s = <<>> THEN <<>> ELSE Walk(s[1], parent) \o WalkAll(Tail(s), parent)

TreeEvents(s) ==
  LET leaves == [i \in 1..Len(s.pages) |-> [kind |-> "page", id |-> i, kids |-> <<>>, name |-> i,
                                            box |-> <<0, 0, s.pages[i][1], s.pages[i][2]>>]]
  IN  <<[ev |-> "walk"]>> \o Walk(Build(1, leaves), 0) \o <<[ev |-> "done"]>>

RECURSIVE Fold(_, _), BadOf(_, _)
Fold(s, es) == IF es = <<>> THEN s ELSE Fold(PtStep(s, es[1]), Tail(es))
BadOf(s, es) == IF es = <<>> THEN {} ELSE PtBad(s, es[1]) \cup BadOf(PtStep(s, es[1]), Tail(es))

Do(e) == /\ ops' = Append(ops, e)
         /\ st' = PtStep(st, e)
         /\ bad' = bad \cup PtBad(st, e)

Init == /\ \E s \in Sizes, r \in {"y", "n"} :
             /\ ops = <<[ev |-> "setup", size |-> s, rot |-> r]>>
             /\ st = PtInit(ops)
        /\ bad = {}
Setup == \E s \in Sizes \cup {<<>>}, r \in {"", "y", "n"} :
           /\ <<s, r>> # <<<<>>, "">>
           /\ Do([ev |-> "setup", size |-> s, rot |-> r])
Add == \E s \in Sizes \cup {<<>>}, r \in {"", "y", "n"} : Do([ev |-> "add", size |-> s, rot |-> r])
\* many plain pages at once
RECURSIVE AddN(_, _)
AddN(s, n) == IF n = 0 THEN s ELSE AddN(PtStep(s, [ev |-> "add", size |-> <<>>, rot |-> ""]), n - 1)
AddMany == \E n \in Bulk : /\ ops' = Append(ops, [ev |-> "many", n |-> n])
                           /\ st' = AddN(st, n)
                           /\ UNCHANGED bad
Write == /\ st.pages # <<>>
         /\ ops' = Append(ops, [ev |-> "write"])
         /\ bad' = bad \cup BadOf(st, TreeEvents(st))
         /\ st' = Fold(st, TreeEvents(st))
Next == /\ Len(ops) < MaxOps
        /\ Setup \/ Add \/ AddMany \/ Write
Spec == Init /\ [][Next]_vars

Accepted == bad = {}
Emit == (Len(ops) = MaxOps /\ ops[MaxOps].ev = "write") => PrintT("@SCENARIO " \o ToJson(ops))
=============================================================================
