------------------------------- MODULE PdfFile -------------------------------
(* C01: the physical structure of a written PDF file.                       *)
(*                                                                          *)
(* Abstract state of the reader that walks a file from its first byte to    *)
(* its last.  The file is a sequence of events:                             *)
(*   write  [n, refs..]  a write of a store that holds n objects begins     *)
(*   header [end]        the header line(s) end at byte offset end          *)
(*   object [num, gen, off, end, declared, actual, refs]                    *)
(*                       an indirect object found at byte off; declared is  *)
(*                       the /Length of its stream (-1: no stream), actual  *)
(*                       the number of bytes found up to endstream          *)
(*   xref   [off, start, count]  the cross-reference section                *)
(*   entry  [i, off, gen, kind]  its i-th entry                             *)
(*   trailer [size, root, roottype, refs]                                   *)
(*   startxref [at]                                                         *)
(*   eof                 end of this write                                  *)
(*   malformed [rule]    the bytes are not a PDF file at all                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Range(s) == { s[i] : i \in DOMAIN s }

PfEmpty == [phase |-> "start", n |-> 0, pos |-> 0, offs |-> <<>>, refs |-> {},
            xoff |-> -1, xcount |-> -1, seen |-> 0, writes |-> 0]

PfInit(trace) == PfEmpty

Clause(holds, name) == IF holds THEN {} ELSE {name}

PfBad(st, e) ==
  CASE e.ev = "write" ->
         Clause(st.phase \in {"start", "done"}, "EachWriteIsComplete")
    [] e.ev = "header" ->
         Clause(st.phase = "begun", "HeaderFirst")
    [] e.ev = "object" ->
         Clause(st.phase = "body", "ObjectsBetweenHeaderAndXref")
         \cup Clause(e.num = Len(st.offs) + 1, "NumberedWithoutGaps")
         \cup Clause(e.gen = 0, "GenerationZero")
         \cup Clause(e.off >= st.pos, "ObjectsDoNotOverlap")
         \cup Clause(e.declared = e.actual, "StreamLengthExact")
    [] e.ev = "xref" ->
         Clause(st.phase = "body", "XrefAfterObjects")
         \cup Clause(Len(st.offs) = st.n, "EveryObjectStoredOnce")
         \cup Clause(e.start = 0 /\ e.count = st.n + 1, "XrefSize")
    [] e.ev = "entry" ->
         Clause(e.i = st.seen, "XrefEntriesInOrder")
         \cup (IF e.i = 0
               THEN Clause(e.kind = "f" /\ e.gen = 65535, "FreeListHead")
               ELSE Clause(e.i \in DOMAIN st.offs /\ e.off = st.offs[e.i], "XrefOffsetExact")
                    \cup Clause(e.kind = "n" /\ e.gen = 0, "XrefEntryInUse"))
    [] e.ev = "trailer" ->
         Clause(st.phase = "xref" /\ st.seen = st.xcount, "XrefEntryCount")
         \cup Clause(e.size = st.n + 1, "TrailerSize")
         \cup Clause(e.roottype = "Catalog" /\ e.root \in 1..st.n, "RootIsCatalog")
         \cup Clause((st.refs \cup Range(e.refs)) \subseteq 1..st.n, "ReferencesResolve")
    [] e.ev = "startxref" ->
         Clause(st.phase = "trailer" /\ e.at = st.xoff, "StartxrefExact")
    [] e.ev = "eof" ->
         Clause(st.phase = "startxref", "FileComplete")
    [] e.ev = "end" ->
         Clause(st.phase = "done", "EveryWriteFinished")
    [] OTHER -> {"WellFormed_" \o e.rule}

PfStep(st, e) ==
  CASE e.ev = "write" -> [PfEmpty EXCEPT !.phase = "begun", !.n = e.n, !.writes = st.writes + 1]
    [] e.ev = "header" -> [st EXCEPT !.phase = "body", !.pos = e.end]
    [] e.ev = "object" -> [st EXCEPT !.offs = Append(@, e.off), !.pos = e.end,
                                     !.refs = @ \cup Range(e.refs)]
    [] e.ev = "xref" -> [st EXCEPT !.phase = "xref", !.xoff = e.off, !.xcount = e.count]
    [] e.ev = "entry" -> [st EXCEPT !.seen = @ + 1]
    [] e.ev = "trailer" -> [st EXCEPT !.phase = "trailer"]
    [] e.ev = "startxref" -> [st EXCEPT !.phase = "startxref"]
    [] e.ev = "eof" -> [st EXCEPT !.phase = "done"]
    [] OTHER -> st

PfHit(st, e) ==
  CASE e.ev = "object" /\ e.declared >= 0 -> {"stream"}
    [] e.ev = "object" /\ e.refs # <<>> -> {"reference"}
    [] e.ev = "write" /\ st.writes >= 1 -> {"rewrite"}
    [] e.ev = "entry" /\ e.i > 1 -> {"entry"}
    [] OTHER -> {}
=============================================================================
