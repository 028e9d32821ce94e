----------------------------- MODULE OutlineMC -----------------------------
(* Exhaustive design model: entries are declared one by one, each at most   *)
(* one level below the one before, and inserted in a tree by a recursive    *)
(* writer; the tree is accepted by Outline.tla for every sequence of levels *)
(* and every number of open levels, and every sequence is a scenario.       *)
EXTENDS Outline, TLC, Json

CONSTANTS MaxEntries, MaxLevel, OpenLevels

VARIABLES levels, open, tree
vars == <<levels, open, tree>>
\* tree: sequence of [lv, kids] made by inserting each entry below the last one of the level above
Node(n) == [n |-> n, kids |-> <<>>]
RECURSIVE Insert(_, _, _)
Insert(t, lv, n) == IF lv = 1 THEN Append(t, Node(n))
                    ELSE [t EXCEPT ![Len(t)] = [@ EXCEPT !.kids = Insert(@, lv - 1, n)]]

RECURSIVE CountAll(_, _)
\* visible entries of a list of nodes; lv: levels that are still open
CountAll(t, lv) == IF t = <<>> THEN 0
                   ELSE 1 + (IF lv > 1 THEN CountAll(t[1].kids, lv - 1) ELSE 0) + CountAll(Tail(t), lv)
RECURSIVE Emitted(_, _, _, _)
\* items of a list of siblings t[k..], below parent id
Emitted(t, k, parent, lv) ==
  IF k > Len(t) THEN <<>>
  ELSE LET x == t[k]
           c == CountAll(x.kids, lv - 1)
       IN  <<[ev |-> "item", id |-> x.n, title |-> x.n, parent |-> parent,
              prev |-> IF k = 1 THEN 0 ELSE t[k - 1].n, next |-> IF k = Len(t) THEN 0 ELSE t[k + 1].n,
              first |-> IF x.kids = <<>> THEN 0 ELSE x.kids[1].n,
              last |-> IF x.kids = <<>> THEN 0 ELSE x.kids[Len(x.kids)].n,
              count |-> IF x.kids = <<>> THEN 0 ELSE IF lv > 1 THEN c ELSE -c, hascount |-> x.kids # <<>>,
              page |-> 0, x |-> 0, y |-> 0]>>
           \o Emitted(x.kids, 1, x.n, lv - 1) \o Emitted(t, k + 1, parent, lv)

Events == <<[ev |-> "open", levels |-> open]>>
          \o [i \in DOMAIN levels |-> [ev |-> "declared", level |-> levels[i], title |-> i, page |-> 0, x |-> 0, y |-> 0, size |-> 0]]
          \o <<[ev |-> "root", id |-> 999, first |-> tree[1].n, last |-> tree[Len(tree)].n, count |-> CountAll(tree, open)]>>
          \o Emitted(tree, 1, 999, open) \o <<[ev |-> "end"]>>
RECURSIVE BadOf(_, _)
BadOf(s, es) == IF es = <<>> THEN {} ELSE OlBad(s, es[1]) \cup BadOf(OlStep(s, es[1]), Tail(es))

Init == levels = <<>> /\ open \in OpenLevels /\ tree = <<>>
Declare(lv) == /\ Len(levels) < MaxEntries
               /\ lv <= (IF levels = <<>> THEN 1 ELSE levels[Len(levels)] + 1)
               /\ levels' = Append(levels, lv)
               /\ tree' = Insert(tree, lv, Len(levels) + 1)
               /\ UNCHANGED open
Next == \E lv \in 1..MaxLevel : Declare(lv)
Spec == Init /\ [][Next]_vars
Accepted == levels # <<>> => BadOf(OlInit(<<>>), Events) = {}
Emit == levels # <<>> => PrintT("@SCENARIO " \o ToJson([levels |-> levels, open |-> open]))
=============================================================================
