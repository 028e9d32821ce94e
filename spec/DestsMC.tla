------------------------------ MODULE DestsMC ------------------------------
(* Exhaustive design model: labels are added one by one in any order, then  *)
(* the file is written: keys are sorted and grouped by Fan, level after     *)
(* level, until one node is left.  The tree is accepted by Dests.tla for    *)
(* every set of labels, and every order of labels is a scenario.            *)
EXTENDS Dests, TLC, Json, SequencesExt

CONSTANTS Fan, NKeys, MaxLabels, Sizes

\* short keys in which some are prefixes of others
KeyOf(i) == CASE i = 1 -> <<97>> [] i = 2 -> <<97, 98>> [] i = 3 -> <<97, 98, 99>> [] i = 4 -> <<98>>
              [] i = 5 -> <<66>> [] i = 6 -> <<40>> [] i = 7 -> <<233>> [] i = 8 -> <<98, 32>>
              [] OTHER -> <<100 + (i \div 10), 48 + (i % 10)>>

VARIABLES labels, phase, bad
vars == <<labels, phase, bad>>

PlaceOf(i) == [page |-> i % 3, x |-> 1000 * i, y |-> 5000 * i]
Declared(ls) == [i \in DOMAIN ls |-> [ev |-> "declared", key |-> KeyOf(ls[i]), size |-> 0] @@ PlaceOf(ls[i])]

Chunks(s) == [i \in 1..((Len(s) + Fan - 1) \div Fan) |-> SubSeq(s, (i - 1) * Fan + 1, IF i * Fan < Len(s) THEN i * Fan ELSE Len(s))]
\* nodes of one level: records with a private list of their keys' limits
RECURSIVE Levels(_, _)
Levels(level, nodes) ==
  IF Len(nodes) = 1 THEN nodes
  ELSE LET ch == Chunks(nodes)
           up == [i \in DOMAIN ch |->
                    [ev |-> "node", id |-> level * 1000 + i, root |-> FALSE,
                     limits |-> <<ch[i][1].limits[1], ch[i][Len(ch[i])].limits[2]>>,
                     kids |-> [k \in DOMAIN ch[i] |-> ch[i][k].id], names |-> <<>>, at |-> <<>>]]
       IN  nodes \o Levels(level + 1, up)
Tree(ls) ==
  LET s == SortSeq(ls, LAMBDA a, b : Less(KeyOf(a), KeyOf(b)))
      ch == Chunks(s)
      leaves == [i \in DOMAIN ch |-> [ev |-> "node", id |-> i, root |-> FALSE,
                   limits |-> <<KeyOf(ch[i][1]), KeyOf(ch[i][Len(ch[i])])>>, kids |-> <<>>,
                   names |-> [k \in DOMAIN ch[i] |-> KeyOf(ch[i][k])],
                   at |-> [k \in DOMAIN ch[i] |-> PlaceOf(ch[i][k])]]]
      all == Levels(1, leaves)
  IN  [all EXCEPT ![Len(all)] = [@ EXCEPT !.root = TRUE, !.limits = <<>>]]

RECURSIVE BadOf(_, _)
BadOf(s, es) == IF es = <<>> THEN {} ELSE DsBad(s, es[1]) \cup BadOf(DsStep(s, es[1]), Tail(es))

Init == labels = <<>> /\ phase = "add" /\ bad = {}
Add(i) == /\ phase = "add" /\ Len(labels) < MaxLabels
          /\ i \notin { labels[k] : k \in DOMAIN labels }
          /\ labels' = Append(labels, i)
          /\ UNCHANGED <<phase, bad>>
\* a whole range of labels at once
AddAll(n) == /\ labels = <<>>
             /\ labels' = [i \in 1..n |-> ((i * 7) % n) + 1 + NKeys]
             /\ Cardinality({ labels'[i] : i \in 1..n }) = n
             /\ UNCHANGED <<phase, bad>>
Write == /\ phase = "add" /\ labels # <<>>
         /\ bad' = BadOf(DsInit(<<>>), Declared(labels) \o Tree(labels) \o <<[ev |-> "end"]>>)
         /\ phase' = "written"
         /\ UNCHANGED labels
Next == \/ \E i \in 1..NKeys : Add(i)
        \/ phase = "add" /\ \E n \in Sizes : AddAll(n)
        \/ Write
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
Emit == (phase = "written") => PrintT("@SCENARIO " \o ToJson([i \in DOMAIN labels |-> KeyOf(labels[i])]))
=============================================================================
