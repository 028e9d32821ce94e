------------------------------ MODULE Outline ------------------------------
(* C05: the outline tree.                                                   *)
(*                                                                          *)
(* Events:                                                                  *)
(*   open [levels]                    the number of open levels configured  *)
(*   declared [level, title, page, x, y, size]  an entry of the document in *)
(*        document order, and where its text starts                         *)
(*   root [id, first, last, count]    the outline dictionary                *)
(*   item [id, title, parent, prev, next, first, last, count, hascount,     *)
(*         page, x, y]  an entry, in preorder along First and Next; 0 is an *)
(*        absent link; page, x, y is what its destination resolves to       *)
(*   end                                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Clause(holds, name) == IF holds THEN {} ELSE {name}
OlInit(trace) == [levels |-> 1, want |-> <<>>, root |-> [id |-> 0, first |-> 0, last |-> 0, count |-> 0], items |-> <<>>]

\* index of the entry that entry i is nested under: the closest preceding one of the level above
ParentOf(w, i) == LET s == { j \in 1..(i - 1) : w[j].level = w[i].level - 1 }
                  IN  IF w[i].level = 1 \/ s = {} THEN 0 ELSE CHOOSE j \in s : \A k \in s : k <= j
Kids(w, i) == { j \in DOMAIN w : ParentOf(w, j) = i }
First(s) == IF s = {} THEN 0 ELSE CHOOSE j \in s : \A k \in s : j <= k
Last(s) == IF s = {} THEN 0 ELSE CHOOSE j \in s : \A k \in s : k <= j

\* entries shown below entry i (0: the root) when it is open
RECURSIVE Shown(_, _, _)
Shown(w, lv, i) ==
  LET ks == Kids(w, i)
      RECURSIVE Sum(_)
      Sum(s) == IF s = {} THEN 0
                ELSE LET k == CHOOSE x \in s : TRUE
                     IN  1 + (IF w[k].level < lv THEN Shown(w, lv, k) ELSE 0) + Sum(s \ {k})
  IN  Sum(ks)

Tol == 60
Near(a, b) == a - b <= Tol /\ b - a <= Tol

OlBad(st, e) ==
  CASE e.ev = "end" ->
    LET w == st.want
        it == st.items
        Id(i) == IF i = 0 THEN 0 ELSE it[i].id
        POf(i) == LET p == ParentOf(w, i) IN IF p = 0 THEN st.root.id ELSE it[p].id
    IN  IF Len(w) # Len(it) THEN {"EveryEntryOnce"}
        ELSE IF w = <<>> THEN {}
        ELSE
        Clause(\A i \in DOMAIN w : it[i].title = w[i].title, "EntriesInDocumentOrder")
        \cup Clause(Cardinality({ it[i].id : i \in DOMAIN it }) = Len(it), "EntriesDistinct")
        \cup Clause(\A i \in DOMAIN w : it[i].parent = POf(i), "NestedUnderTheLevelAbove")
        \cup Clause(\A i \in DOMAIN w : LET ks == Kids(w, i) IN it[i].first = Id(First(ks)) /\ it[i].last = Id(Last(ks)), "FirstAndLastAreChildren")
        \cup Clause(st.root.first = Id(First(Kids(w, 0))) /\ st.root.last = Id(Last(Kids(w, 0))), "FirstAndLastOfRoot")
        \cup Clause(\A i \in DOMAIN w : LET sib == Kids(w, ParentOf(w, i))
                                        IN  it[i].prev = Id(Last({ j \in sib : j < i })) /\ it[i].next = Id(First({ j \in sib : j > i })),
                    "PrevAndNextAreSiblings")
        \cup Clause(st.root.count = Shown(w, st.levels, 0), "RootCountsVisible")
        \cup Clause(\A i \in DOMAIN w :
                       LET n == Shown(w, st.levels, i)
                       IN  IF Kids(w, i) = {} THEN ~it[i].hascount \/ it[i].count = 0
                           ELSE it[i].hascount /\ it[i].count = (IF w[i].level < st.levels THEN n ELSE -n),
                    "CountIsVisibleDescendants")
        \cup Clause(\A i \in DOMAIN w : it[i].page = w[i].page /\ Near(it[i].x, w[i].x)
                                        /\ Near(it[i].y, w[i].y + (w[i].size * 3) \div 4), "LeadsToTheStartOfItsText")
    [] e.ev = "malformed" -> {"WellFormed_" \o e.rule}
    [] OTHER -> {}

OlStep(st, e) ==
  CASE e.ev = "open" -> [st EXCEPT !.levels = e.levels]
    [] e.ev = "declared" -> [st EXCEPT !.want = Append(@, e)]
    [] e.ev = "root" -> [st EXCEPT !.root = e]
    [] e.ev = "item" -> [st EXCEPT !.items = Append(@, e)]
    [] OTHER -> st

OlHit(st, e) ==
  CASE e.ev = "item" /\ e.count > 0 -> {"open entry"}
    [] e.ev = "item" /\ e.count < 0 -> {"closed entry"}
    [] e.ev = "item" /\ e.prev # 0 -> {"sibling"}
    [] e.ev = "declared" /\ e.level > 2 -> {"third level"}
    [] e.ev = "declared" /\ e.page > 0 -> {"later page"}
    [] OTHER -> {}
=============================================================================
