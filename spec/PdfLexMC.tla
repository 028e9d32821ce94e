------------------------------ MODULE PdfLexMC ------------------------------
(* Exhaustive design model of the value writer.                             *)
(*                                                                          *)
(* A value is built step by step (leaves, lists and dictionaries of the     *)
(* values made so far), written by the abstract writer, and read back one   *)
(* byte per step by the reader automaton of PdfLex.tla.  The writer uses    *)
(* the least separation and escaping the language allows; the invariant is  *)
(* that reading gives back the value.  Every value is emitted as a          *)
(* scenario and written by the real code.                                   *)
EXTENDS PdfLex, TLC, Json

CONSTANTS MaxStr, StrBytes, Deep

Leaves == {Node("bool", <<1>>, <<>>), Node("bool", <<0>>, <<>>),
           Node("num", <<48>>, <<>>), Node("num", <<45, 55>>, <<>>), Node("num", <<49, 46, 53>>, <<>>),
           Node("str", <<97, 41>>, <<>>), Node("str", <<>>, <<>>), Node("name", <<78, 49>>, <<>>),
           Node("ref", <<49>>, <<>>),
           Node("array", <<>>, <<>>), Node("dict", <<>>, <<>>)}

Strings == { Node("str", s, <<>>) : s \in UNION { [1..n -> StrBytes] : n \in 0..MaxStr } }
Pairs == { Node("array", <<>>, <<x, y>>) : x, y \in Leaves }
K1 == Node("name", <<65>>, <<>>)
K2 == Node("name", <<66, 50>>, <<>>)
Dicts == { Node("dict", <<>>, <<K1, x>>) : x \in Leaves } \cup
         { Node("dict", <<>>, <<K1, x, K2, y>>) : x, y \in Leaves }
Small == { Node("num", <<48>>, <<>>), Node("str", <<92>>, <<>>), Node("ref", <<49>>, <<>>), Node("name", <<78>>, <<>>) }
Nest1 == Small \cup { Node("array", <<>>, <<x>>) : x \in Small } \cup { Node("dict", <<>>, <<K1, x>>) : x \in Small }
Triples == { Node("array", <<>>, <<x, y, z>>) : x, y, z \in Nest1 }
Nested == { Node("dict", <<>>, <<K1, x, K2, y>>) : x, y \in Nest1 }

Universe == Leaves \cup Strings \cup Pairs \cup Dicts \cup Nested \cup (IF Deep THEN Triples ELSE {})

\* the abstract writer -----------------------------------------------------
Esc(s) == FoldLeft(LAMBDA acc, x : acc \o (CASE x \in {40, 41, 92} -> <<92, x>> [] x = 13 -> <<92, 114>> [] OTHER -> <<x>>), <<>>, s)
RECURSIVE Write(_), WriteAll(_, _)
Write(v) == CASE v.k = "bool" -> IF v.b = <<1>> THEN KwTrue ELSE KwFalse
              [] v.k = "num" -> v.b
              [] v.k = "str" -> <<40>> \o Esc(v.b) \o <<41>>
              [] v.k = "name" -> <<47>> \o v.b
              [] v.k = "ref" -> v.b \o <<32, 48, 32, 82>>
              [] v.k = "array" -> <<91>> \o WriteAll(v.c, <<>>) \o <<93>>
              [] v.k = "dict" -> <<60, 60>> \o WriteAll(v.c, <<>>) \o <<62, 62>>
              [] OTHER -> <<>>
WriteAll(c, acc) ==
  IF c = <<>> THEN acc
  ELSE LET w == Write(c[1])
           sep == IF acc = <<>> \/ w[1] \in DELIM \/ acc[Len(acc)] \in DELIM THEN <<>> ELSE <<32>>
       IN  WriteAll(Tail(c), acc \o sep \o w)

WriteObject(v) == KwObj \o <<10>> \o Write(v) \o <<10>> \o KwEndobj \o <<10>>

VARIABLES v, bytes, pos, rd
vars == <<v, bytes, pos, rd>>
Init == v \in Universe /\ bytes = WriteObject(v) /\ pos = 0 /\ rd = LxEmpty
Next == /\ pos < Len(bytes)
        /\ pos' = pos + 1
        /\ rd' = LxByte(rd, bytes[pos'])
        /\ UNCHANGED <<v, bytes>>
Spec == Init /\ [][Next]_vars

NoError == rd.err = {}
ReadsBack == pos = Len(bytes) => LxBad(rd, [ev |-> "end", want |-> v]) = {}
Emit == pos = 0 => PrintT("@SCENARIO " \o ToJson(v))
=============================================================================
