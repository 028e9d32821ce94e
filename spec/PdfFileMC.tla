------------------------------ MODULE PdfFileMC ------------------------------
(* Exhaustive design model of the object store and its writer.              *)
(*                                                                          *)
(* Store actions: add an object of some kind, replace one, write the store. *)
(* Write emits the physical file as the events of PdfFile.tla; the          *)
(* invariant is that every file the design can write is accepted by the     *)
(* reader of PdfFile.tla, and that a reader that goes through startxref,    *)
(* cross-reference table and object headers gets back the store.  The       *)
(* histories (ops) are emitted as scenarios that the harness replays on the *)
(* real object store.                                                       *)
EXTENDS PdfFile, TLC, Json

CONSTANTS MaxObjs, MaxOps, Kinds

VARIABLES store, ops, files, dirty

vars == <<store, ops, files, dirty>>

\* abstract size in bytes of the serialisation of a kind of object
SizeOf(k) == CASE k = "num" -> 5 [] k = "str" -> 9 [] k = "dict" -> 17
               [] k = "ref" -> 6 [] k = "stream" -> 41 [] k = "flate" -> 53 [] OTHER -> 3
RefsOf(k) == IF k = "ref" THEN <<1>> ELSE <<>>
LenOf(k) == IF k \in {"stream", "flate"} THEN 12 ELSE -1

HeaderEnd == 18

RECURSIVE Objects(_, _, _)
Objects(s, i, pos) ==
  IF i > Len(s) THEN <<>>
  ELSE LET end == pos + SizeOf(s[i]) + 15
       IN  <<[ev |-> "object", num |-> i, gen |-> 0, off |-> pos, end |-> end,
              declared |-> LenOf(s[i]), actual |-> LenOf(s[i]), refs |-> RefsOf(s[i])]>>
           \o Objects(s, i + 1, end)

FileOf(s) ==
  LET objs == Objects(s, 1, HeaderEnd)
      endb == IF s = <<>> THEN HeaderEnd ELSE objs[Len(objs)].end
  IN  <<[ev |-> "write", n |-> Len(s)], [ev |-> "header", end |-> HeaderEnd]>>
      \o objs
      \o <<[ev |-> "xref", off |-> endb + 1, start |-> 0, count |-> Len(s) + 1]>>
      \o <<[ev |-> "entry", i |-> 0, off |-> 0, gen |-> 65535, kind |-> "f"]>>
      \o [i \in 1..Len(s) |-> [ev |-> "entry", i |-> i, off |-> objs[i].off, gen |-> 0, kind |-> "n"]]
      \o <<[ev |-> "trailer", size |-> Len(s) + 1, root |-> 1, roottype |-> "Catalog", refs |-> <<1>>],
           [ev |-> "startxref", at |-> endb + 1], [ev |-> "eof"]>>

RECURSIVE BadOf(_, _, _)
BadOf(st, f, i) == IF i > Len(f) THEN {}
                   ELSE PfBad(st, f[i]) \cup BadOf(PfStep(st, f[i]), f, i + 1)

Init == store = <<"dict">> /\ ops = <<>> /\ files = <<>> /\ dirty = TRUE

Add(k) == /\ Len(store) < MaxObjs
          /\ store' = Append(store, k)
          /\ ops' = Append(ops, [op |-> "add", i |-> Len(store) + 1, kind |-> k])
          /\ dirty' = TRUE
          /\ UNCHANGED files

Replace(i, k) == /\ i \in 2..Len(store)
                 /\ store' = [store EXCEPT ![i] = k]
                 /\ ops' = Append(ops, [op |-> "set", i |-> i, kind |-> k])
                 /\ dirty' = TRUE
                 /\ UNCHANGED files

Write == /\ files' = FileOf(store)
         /\ ops' = Append(ops, [op |-> "write", i |-> 0, kind |-> ""])
         /\ dirty' = FALSE
         /\ UNCHANGED store

Next == /\ Len(ops) < MaxOps
        /\ \/ \E k \in Kinds : Add(k)
           \/ \E i \in 2..MaxObjs, k \in Kinds : Replace(i, k)
           \/ Write

Spec == Init /\ [][Next]_vars

\* every file the writer can emit satisfies every clause of the reader
Accepted == files # <<>> => BadOf(PfEmpty, files, 1) = {}

\* looking an object up through startxref and its entry finds that object
Lookup(f, n) == LET sx == CHOOSE i \in DOMAIN f : f[i].ev = "startxref"
                    x == CHOOSE i \in DOMAIN f : f[i].ev = "xref" /\ f[i].off = f[sx].at
                    ent == f[x + 1 + n]
                IN  CHOOSE i \in DOMAIN f : f[i].ev = "object" /\ f[i].off = ent.off
ReadsBack == (files # <<>> /\ ~dirty) =>
               \A n \in 1..Len(store) : LET o == files[Lookup(files, n)]
                                        IN  o.num = n /\ o.end - o.off = SizeOf(store[n]) + 15

\* emits every maximal history that ends in a write
Emit == (Len(ops) = MaxOps /\ ops[MaxOps].op = "write")
          => PrintT("@SCENARIO " \o ToJson(ops))
=============================================================================
