-------------------------------- MODULE Words --------------------------------
(* The words of all paragraphs of a document on all its pages: every        *)
(* paragraph is read word by word, wherever columns, cells and pages break. *)
(* Events                                                                   *)
(*   want [par, n]                    a paragraph of n words, declared      *)
(*   painted [par, k, page, x, x2, y] a word found on a page, in the order  *)
(*                                    of painting                           *)
(*   stray                            something that is in no paragraph     *)
(*   end                                                                    *)
EXTENDS Naturals, Integers, Sequences

Clause(holds, name) == IF holds THEN {} ELSE {name}
WoInit(trace) == [n |-> <<>>, at |-> <<>>, last |-> <<>>]
Nowhere == [page |-> -1, x |-> 0, x2 |-> 0, y |-> 0]
\* b can be read right after a: on the same line, on a line below, at the top of a column
\* to the right, or on a later page
Follows(a, b) == \/ a.page = -1
                 \/ b.page > a.page
                 \/ b.page = a.page /\ ( \/ b.y >= a.y - 20 /\ b.y <= a.y + 20 /\ b.x > a.x
                                         \/ b.y < a.y - 20
                                         \/ b.y > a.y + 20 /\ (b.x > a.x \/ b.x2 > a.x2) )
WoBad(st, e) ==
  CASE e.ev = "painted" ->
         Clause(e.k = st.at[e.par] + 1, "EveryWordOnceInOrder")
         \cup Clause(e.k = st.at[e.par] + 1 => Follows(st.last[e.par], e), "ReadsOn")
    [] e.ev = "stray" -> {"NothingElseIsPainted"}
    [] e.ev = "end" -> Clause(\A p \in DOMAIN st.n : st.at[p] = st.n[p], "EveryWordPainted")
    [] e.ev = "malformed" -> {"WellFormed_" \o e.rule}
    [] OTHER -> {}
WoStep(st, e) ==
  CASE e.ev = "want" -> [n |-> Append(st.n, e.n), at |-> Append(st.at, 0), last |-> Append(st.last, Nowhere)]
    [] e.ev = "painted" -> [st EXCEPT !.at[e.par] = e.k, !.last[e.par] = [page |-> e.page, x |-> e.x, x2 |-> e.x2, y |-> e.y]]
    [] OTHER -> st
WoHit(st, e) ==
  CASE e.ev = "painted" -> (IF e.k > 1 /\ e.page > st.last[e.par].page THEN {"paragraph over two pages"} ELSE {})
                           \cup (IF e.k > 1 /\ e.page = st.last[e.par].page /\ e.y > st.last[e.par].y + 20 THEN {"paragraph over two columns"} ELSE {})
    [] OTHER -> {}
==============================================================================
