--------------------------------- MODULE Iso ---------------------------------
(* Builds of documents in one process.                                      *)
(*                                                                          *)
(* Events                                                                   *)
(*   def [docs, builds]  how many definitions and builds there are          *)
(*   alone [doc, seed, res]  what a fresh process made of a definition that *)
(*         shares nothing, with some order of hashes                        *)
(*   begin [b, doc, ctx]   build b of a definition starts in the process    *)
(*   step [b]         it goes on                                            *)
(*   end [b, res]     it ends                                               *)
(*   check [doc, before, after]  the definition before the first build and  *)
(*         now                                                              *)
(*   end_             nothing more happens                                  *)
(* res: what a reader of the file sees, by aspect: pages, text, graphics,   *)
(* images, links, outline.  Builds are isolated: whatever the schedule, a   *)
(* build of a definition makes what a fresh process makes of it.            *)
EXTENDS Naturals, Sequences, FiniteSets

Clause(holds, name) == IF holds THEN {} ELSE {name}
Aspects == {"pages", "text", "graphics", "images", "links", "outline"}
None == [pages |-> "none"]
IsInit(trace) == [n |-> trace[1].docs, builds |-> trace[1].builds, alone |-> [ d \in 1..trace[1].docs |-> None ],
                  doc |-> [ b \in {} |-> 0 ], open |-> {}, ended |-> {}, steps |-> [ b \in {} |-> 0 ]]

Differ(r, s) == { a \in Aspects : r[a] # s[a] }
Names(base, r, s) == { CASE a = "pages" -> base \o "Pages" [] a = "text" -> base \o "Text" [] a = "graphics" -> base \o "Graphics"
                         [] a = "images" -> base \o "Images" [] a = "links" -> base \o "Links" [] a = "outline" -> base \o "Outline" : a \in Differ(r, s) }
IsBad(st, e) ==
  CASE e.ev = "alone" -> IF st.alone[e.doc] = None THEN {} ELSE Names("AnyHashOrder", st.alone[e.doc], e.res)
    [] e.ev = "begin" -> Clause(e.b \notin st.open \cup st.ended, "BuildStartsOnce")
    [] e.ev = "step" -> Clause(e.b \in st.open, "BuildRuns")
    [] e.ev = "end" -> Clause(e.b \in st.open, "BuildRuns")
                       \cup IF e.b \notin st.open THEN {} ELSE Names("AnyHistory", st.alone[st.doc[e.b]], e.res)
    [] e.ev = "check" -> Clause(e.before = e.after, "DefinitionKept")
    [] e.ev = "end_" -> Clause(st.open = {} /\ Cardinality(st.ended) = st.builds, "EveryBuildEnds")
    [] OTHER -> {}
IsStep(st, e) ==
  CASE e.ev = "alone" -> IF st.alone[e.doc] = None THEN [st EXCEPT !.alone[e.doc] = e.res] ELSE st
    [] e.ev = "begin" -> [st EXCEPT !.open = @ \cup {e.b}, !.doc = [ b \in DOMAIN @ \cup {e.b} |-> IF b = e.b THEN e.doc ELSE @[b] ],
                                    !.steps = [ b \in DOMAIN @ \cup {e.b} |-> IF b = e.b THEN 0 ELSE @[b] ]]
    [] e.ev = "step" /\ e.b \in st.open -> [st EXCEPT !.steps[e.b] = @ + 1]
    [] e.ev = "end" -> [st EXCEPT !.open = @ \ {e.b}, !.ended = @ \cup {e.b}]
    [] OTHER -> st
IsHit(st, e) ==
  CASE e.ev = "alone" -> IF st.alone[e.doc] = None THEN {} ELSE {"another order of hashes"}
    [] e.ev = "end" /\ e.b \in st.open ->
         (IF \E b \in st.ended : st.doc[b] = st.doc[e.b] THEN {"built again"} ELSE {})
         \cup (IF \E b \in st.ended : st.doc[b] # st.doc[e.b] THEN {"after another"} ELSE {})
         \cup (IF \E b \in st.open \ {e.b} : st.doc[b] # st.doc[e.b] THEN {"at the same time as another"} ELSE {})
         \cup (IF \E b \in st.open \ {e.b} : st.doc[b] = st.doc[e.b] THEN {"twice at the same time"} ELSE {})
         \cup (IF e.res.pages = "error" THEN {"refused"} ELSE {})
    [] e.ev = "check" -> {"definition looked at"}
    [] OTHER -> {}
=============================================================================
