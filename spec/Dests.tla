------------------------------- MODULE Dests -------------------------------
(* C04: the tree of named destinations, and what links name.                *)
(*                                                                          *)
(* Keys are byte sequences.  Events, in the order a reader meets them:      *)
(*   declared [key, page, x, y, size]  a label of the document, and where   *)
(*        its text starts: page index, left edge, baseline and size of its  *)
(*        first character                                                   *)
(*   node [id, root, limits, kids, names, at]  a node of the tree: limits   *)
(*        is <<>> or <<lo, hi>>; kids are ids; names are keys and at[i] is  *)
(*        the [page, x, y] its i-th key leads to                            *)
(*   link [want, got]  text with a ref to want, and the names of the links  *)
(*                     that cover it                                        *)
(*   stray [name]      a link to a name over no text with that ref          *)
(*   end                                                                    *)
(* Positions are in milli-points.                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Clause(holds, name) == IF holds THEN {} ELSE {name}

DsInit(trace) == [want |-> <<>>, nodes |-> <<>>]

RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Leq(a, b) == a = b \/ Less(a, b)

Ids(st) == { st.nodes[i].id : i \in DOMAIN st.nodes }
NodeOf(st, id) == st.nodes[CHOOSE i \in DOMAIN st.nodes : st.nodes[i].id = id]
Root(st) == { i \in DOMAIN st.nodes : st.nodes[i].root }

\* every key below a node, from left to right
RECURSIVE Below(_, _, _)
Below(st, n, depth) ==
  IF depth = 0 THEN <<>>
  ELSE IF n.kids = <<>> THEN n.names
  ELSE LET RECURSIVE All(_)
           All(ks) == IF ks = <<>> THEN <<>>
                      ELSE (IF ks[1] \in Ids(st) THEN Below(st, NodeOf(st, ks[1]), depth - 1) ELSE <<>>) \o All(Tail(ks))
       IN  All(n.kids)

\* descending by Limits, as a reader does; <<>> if the key is not found
RECURSIVE Lookup(_, _, _, _)
Lookup(st, n, key, depth) ==
  IF depth = 0 THEN <<>>
  ELSE IF n.kids = <<>>
  THEN LET at == { i \in DOMAIN n.names : n.names[i] = key }
       IN  IF at = {} THEN <<>> ELSE <<n.at[CHOOSE i \in at : TRUE]>>
  ELSE LET fit == { i \in DOMAIN n.kids :
                      /\ n.kids[i] \in Ids(st)
                      /\ LET k == NodeOf(st, n.kids[i])
                         IN  k.limits # <<>> /\ Leq(k.limits[1], key) /\ Leq(key, k.limits[2]) }
       IN  IF fit = {} THEN <<>>
           ELSE Lookup(st, NodeOf(st, n.kids[CHOOSE i \in fit : \A j \in fit : i <= j]), key, depth - 1)

MaxDepth == 20
Tol == 60

DsBad(st, e) ==
  CASE e.ev = "node" ->
         Clause(~(e.kids # <<>> /\ e.names # <<>>), "LeafOrInner")
         \cup Clause(e.root \/ e.limits # <<>>, "LimitsPresent")
         \cup Clause(e.id \notin Ids(st), "NodeListedOnce")
         \cup Clause(\A i \in 1..(Len(e.names) - 1) : Less(e.names[i], e.names[i + 1]), "KeysAscending")
    [] e.ev = "link" -> Clause(\E i \in DOMAIN e.got : e.got[i] = e.want, "LinkNamesItsLabel")
    [] e.ev = "stray" -> {"LinkOnlyWhereGiven"}
    [] e.ev = "end" ->
         IF st.nodes = <<>> THEN Clause(st.want = <<>>, "EveryLabelFound")
         ELSE
         LET r == st.nodes[CHOOSE i \in Root(st) : TRUE]
             keys == Below(st, r, MaxDepth)
         IN  Clause(\A i \in 1..(Len(keys) - 1) : Less(keys[i], keys[i + 1]), "KeysAscendingAcrossLeaves")
             \cup Clause(Len(keys) = Len(st.want)
                         /\ \A i \in DOMAIN keys : \E j \in DOMAIN st.want : st.want[j].key = keys[i], "EveryLabelOnceAndNoOther")
             \cup UNION { LET n == st.nodes[i]
                              b == Below(st, n, MaxDepth)
                          IN  IF n.limits = <<>> \/ b = <<>> THEN Clause(b # <<>>, "NoEmptyNode")
                              ELSE Clause(n.limits[1] = b[1] /\ n.limits[2] = b[Len(b)], "LimitsExact")
                        : i \in DOMAIN st.nodes }
             \cup UNION { LET w == st.want[j]
                              f == Lookup(st, r, w.key, MaxDepth)
                          IN  IF f = <<>> THEN {"EveryLabelFound"}
                              ELSE Clause(f[1].page = w.page, "LeadsToThePageOfItsText")
                                   \cup Clause(f[1].x - w.x <= Tol /\ w.x - f[1].x <= Tol, "LeadsToTheStartOfItsText")
                                   \cup Clause(LET top == w.y + (w.size * 3) \div 4
                                               IN  f[1].y - top <= Tol /\ top - f[1].y <= Tol, "LeadsToTheTopOfItsText")
                        : j \in DOMAIN st.want }
    [] e.ev = "malformed" -> {"WellFormed_" \o e.rule}
    [] OTHER -> {}

DsStep(st, e) ==
  CASE e.ev = "declared" -> [st EXCEPT !.want = Append(@, e)]
    [] e.ev = "node" -> [st EXCEPT !.nodes = Append(@, e)]
    [] OTHER -> st

DsHit(st, e) ==
  CASE e.ev = "node" /\ ~e.root /\ e.names # <<>> -> {"leaf below the root"}
    [] e.ev = "node" /\ ~e.root /\ e.kids # <<>> -> {"inner node below the root"}
    [] e.ev = "declared" /\ e.page > 0 -> {"label on a later page"}
    [] e.ev = "link" -> {"link"}
    [] OTHER -> {}
=============================================================================
