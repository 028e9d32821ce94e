------------------------------- MODULE PdfLex -------------------------------
(* C02: what a conforming reader makes of the bytes of one indirect object. *)
(*                                                                          *)
(* The reader is an automaton over bytes (ISO 32000, 7.2-7.3).  A value is  *)
(* a node [k, b, c]: its kind, its bytes and its children.                  *)
(*   bool  b = <<0>> or <<1>>          null   b = c = <<>>                  *)
(*   num   b = the bytes of the token                                       *)
(*   str   b = the bytes of the string  name  b = the bytes of the name     *)
(*   ref   b = <<object number digits>> array c = elements                  *)
(*   dict  c = key, value, key, value..                                     *)
(*   stream b = the stored bytes, c = <<its dictionary>>                    *)
(* Events: bytes [b] (a chunk of the object), inflated [raw, b] (what the   *)
(* stored bytes decompress to), end [want].                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

WS == {0, 9, 10, 12, 13, 32}
DELIM == {40, 41, 60, 62, 91, 93, 123, 125, 47, 37}
DIGIT == 48..57
OCTAL == 48..55
HEX == DIGIT \cup 65..70 \cup 97..102

Node(k, b, c) == [k |-> k, b |-> b, c |-> c]
HexVal(x) == IF x \in DIGIT THEN x - 48 ELSE IF x >= 97 THEN x - 87 ELSE x - 55

\* decimal number of a digit sequence (at most nine digits)
RECURSIVE Dec(_)
Dec(s) == IF s = <<>> THEN 0 ELSE Dec(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)] - 48

AllDigits(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in DIGIT
IsNumber(s) ==
  LET t == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
      dots == { i \in DOMAIN t : t[i] = 46 }
  IN  /\ \A i \in DOMAIN t : t[i] \in DIGIT \cup {46}
      /\ Cardinality(dots) <= 1
      /\ Len(t) > Cardinality(dots)

KwTrue == <<116,114,117,101>>
KwFalse == <<102,97,108,115,101>>
KwNull == <<110,117,108,108>>
KwR == <<82>>
KwObj == <<111,98,106>>
KwEndobj == <<101,110,100,111,98,106>>
KwStream == <<115,116,114,101,97,109>>
KwEndstream == <<101,110,100>> \o KwStream
NameLength == <<76,101,110,103,116,104>>

\* stack: open containers, the bottom one collects the values of the object
LxEmpty == [mode |-> "ws", tok |-> <<>>, depth |-> 0, acc |-> 0, left |-> 0,
            stack |-> <<Node("top", <<>>, <<>>)>>, open |-> FALSE, closed |-> FALSE,
            raw |-> <<>>, hasraw |-> FALSE, err |-> {}]

LxInit(trace) == LxEmpty

Err(st, name) == [st EXCEPT !.err = @ \cup {name}, !.mode = "dead"]

Push(st, v) ==
  LET n == Len(st.stack)
  IN  IF ~st.open \/ st.closed THEN Err(st, "ValueInsideObject")
      ELSE [st EXCEPT !.stack[n].c = Append(@, v), !.mode = "ws", !.tok = <<>>]

\* the last n children of the innermost container
Lasts(st, n) == LET c == st.stack[Len(st.stack)].c IN SubSeq(c, Len(c) - n + 1, Len(c))

Token(st) ==
  LET t == st.tok
      n == Len(st.stack)
      c == st.stack[n].c
  IN  CASE t = KwTrue -> Push(st, Node("bool", <<1>>, <<>>))
        [] t = KwFalse -> Push(st, Node("bool", <<0>>, <<>>))
        [] t = KwNull -> Push(st, Node("null", <<>>, <<>>))
        [] t = KwR -> IF Len(c) >= 2 /\ \A i \in 0..1 : c[Len(c) - i].k = "num" /\ AllDigits(c[Len(c) - i].b)
                      THEN [st EXCEPT !.stack[n].c = Append(SubSeq(c, 1, Len(c) - 2), Node("ref", c[Len(c) - 1].b, <<>>)),
                                      !.mode = "ws", !.tok = <<>>]
                      ELSE Err(st, "ReferenceWellFormed")
        [] t = KwObj -> IF ~st.open /\ n = 1
                        THEN [st EXCEPT !.open = TRUE, !.mode = "ws", !.tok = <<>>]
                        ELSE Err(st, "ObjectOpenedOnce")
        [] t = KwEndobj -> IF st.open /\ n = 1 /\ Len(c) = 1
                           THEN [st EXCEPT !.closed = TRUE, !.mode = "ws", !.tok = <<>>]
                           ELSE Err(st, "ObjectHoldsOneValue")
        [] t = KwStream -> Err(st, "StreamKeywordFollowedByEol")
        [] t = KwEndstream -> IF c # <<>> /\ c[Len(c)].k = "stream"
                              THEN [st EXCEPT !.mode = "ws", !.tok = <<>>]
                              ELSE Err(st, "EndstreamClosesStream")
        [] IsNumber(t) -> IF st.open THEN Push(st, Node("num", t, <<>>))
                          ELSE [st EXCEPT !.mode = "ws", !.tok = <<>>]
        [] OTHER -> Err(st, "KeywordKnown")

\* the value of /Length in a dictionary node, or -1
LengthOf(d) ==
  LET at == { i \in DOMAIN d.c : i % 2 = 1 /\ d.c[i].k = "name" /\ d.c[i].b = NameLength }
  IN  IF Cardinality(at) = 1 /\ d.c[(CHOOSE i \in at : TRUE) + 1].k = "num"
         /\ AllDigits(d.c[(CHOOSE i \in at : TRUE) + 1].b)
      THEN Dec(d.c[(CHOOSE i \in at : TRUE) + 1].b) ELSE -1

StartStream(st) ==
  LET c == st.stack[Len(st.stack)].c
  IN  IF Len(st.stack) = 1 /\ Len(c) = 1 /\ c[1].k = "dict" /\ LengthOf(c[1]) >= 0
      THEN [st EXCEPT !.mode = IF LengthOf(c[1]) = 0 THEN "ws" ELSE "data",
                      !.left = LengthOf(c[1]), !.tok = <<>>, !.hasraw = TRUE,
                      !.stack[1].c = <<Node("stream", <<>>, <<c[1]>>)>>]
      ELSE Err(st, "StreamHasLength")

CloseArray(st) ==
  LET n == Len(st.stack)
  IN  IF n > 1 /\ st.stack[n].k = "array"
      THEN Push([st EXCEPT !.stack = SubSeq(@, 1, n - 1)], Node("array", <<>>, st.stack[n].c))
      ELSE Err(st, "ArrayBalanced")

CloseDict(st) ==
  LET n == Len(st.stack)
      c == st.stack[n].c
      keys == { i \in DOMAIN c : i % 2 = 1 }
  IN  IF n > 1 /\ st.stack[n].k = "dict"
      THEN IF Len(c) % 2 = 0 /\ (\A i \in keys : c[i].k = "name")
                /\ (\A i, j \in keys : i # j => c[i].b # c[j].b)
           THEN Push([st EXCEPT !.stack = SubSeq(@, 1, n - 1)], Node("dict", <<>>, c))
           ELSE Err(st, "DictionaryKeysAreNames")
      ELSE Err(st, "DictionaryBalanced")

Open(st, k) == IF st.open /\ ~st.closed
               THEN [st EXCEPT !.stack = Append(@, Node(k, <<>>, <<>>)), !.mode = "ws"]
               ELSE Err(st, "ValueInsideObject")

\* a byte between tokens
Between(st, x) ==
  CASE x \in WS -> st
    [] x = 40 -> [st EXCEPT !.mode = "str", !.tok = <<>>, !.depth = 1]
    [] x = 47 -> [st EXCEPT !.mode = "name", !.tok = <<>>]
    [] x = 91 -> Open(st, "array")
    [] x = 93 -> CloseArray(st)
    [] x = 60 -> [st EXCEPT !.mode = "lt"]
    [] x = 62 -> [st EXCEPT !.mode = "gt"]
    [] x = 37 -> [st EXCEPT !.mode = "comment"]
    [] x \in {41, 123, 125} -> Err(st, "DelimiterExpected")
    [] OTHER -> [st EXCEPT !.mode = "regular", !.tok = <<x>>]

Escaped(x) == CASE x = 110 -> 10 [] x = 114 -> 13 [] x = 116 -> 9 [] x = 98 -> 8 [] x = 102 -> 12 [] OTHER -> x

\* a byte of a literal string
InString(st, x) ==
  CASE x = 92 -> [st EXCEPT !.mode = "esc"]
    [] x = 40 -> [st EXCEPT !.mode = "str", !.depth = @ + 1, !.tok = Append(@, x)]
    [] x = 41 -> IF st.depth = 1 THEN Push(st, Node("str", st.tok, <<>>))
                 ELSE [st EXCEPT !.mode = "str", !.depth = @ - 1, !.tok = Append(@, x)]
    [] x = 13 -> [st EXCEPT !.mode = "strcr", !.tok = Append(@, 10)]
    [] OTHER -> [st EXCEPT !.mode = "str", !.tok = Append(@, x)]

OctalDone(st) == [st EXCEPT !.mode = "str", !.tok = Append(@, st.acc % 256)]

\* hexadecimal digits to bytes, an odd last one counts as followed by 0
Unhex(s) == [i \in 1..((Len(s) + 1) \div 2) |->
               HexVal(s[2*i - 1]) * 16 + (IF 2*i <= Len(s) THEN HexVal(s[2*i]) ELSE 0)]

LxByte(st, x) ==
  CASE st.mode = "dead" -> st
    [] st.mode = "ws" -> Between(st, x)
    [] st.mode = "comment" -> IF x \in {10, 13} THEN [st EXCEPT !.mode = "ws"] ELSE st
    [] st.mode = "regular" ->
         IF x \notin WS \cup DELIM THEN [st EXCEPT !.tok = Append(@, x)]
         ELSE IF st.tok = KwStream /\ x = 10 THEN StartStream(st)
         ELSE IF st.tok = KwStream /\ x = 13 THEN [st EXCEPT !.mode = "streamcr"]
         ELSE LET s == Token(st) IN IF s.mode = "dead" THEN s ELSE Between(s, x)
    [] st.mode = "streamcr" -> IF x = 10 THEN StartStream(st) ELSE Err(st, "StreamKeywordFollowedByEol")
    [] st.mode = "data" ->
         LET s == [st EXCEPT !.raw = Append(@, x), !.left = @ - 1]
         IN  IF s.left = 0 THEN [s EXCEPT !.mode = "ws"] ELSE s
    [] st.mode = "name" ->
         IF x = 35 THEN [st EXCEPT !.mode = "hash", !.acc = 0, !.left = 2]
         ELSE IF x \notin WS \cup DELIM THEN [st EXCEPT !.tok = Append(@, x)]
         ELSE LET s == Push(st, Node("name", st.tok, <<>>)) IN IF s.mode = "dead" THEN s ELSE Between(s, x)
    [] st.mode = "hash" ->
         IF x \notin HEX THEN Err(st, "NameEscape")
         ELSE IF st.left = 2 THEN [st EXCEPT !.acc = HexVal(x), !.left = 1]
         ELSE [st EXCEPT !.mode = "name", !.tok = Append(@, st.acc * 16 + HexVal(x)), !.left = 0]
    [] st.mode = "str" -> InString(st, x)
    [] st.mode = "strcr" -> IF x = 10 THEN [st EXCEPT !.mode = "str"] ELSE InString(st, x)
    [] st.mode = "esc" ->
         CASE x \in OCTAL -> [st EXCEPT !.mode = "octal", !.acc = x - 48, !.left = 2]
           [] x = 10 -> [st EXCEPT !.mode = "str"]
           [] x = 13 -> [st EXCEPT !.mode = "escnl"]
           [] OTHER -> [st EXCEPT !.mode = "str", !.tok = Append(@, Escaped(x))]
    [] st.mode = "escnl" -> IF x = 10 THEN [st EXCEPT !.mode = "str"] ELSE InString([st EXCEPT !.mode = "str"], x)
    [] st.mode = "octal" ->
         IF x \in OCTAL
         THEN LET s == [st EXCEPT !.acc = @ * 8 + x - 48, !.left = @ - 1]
              IN  IF s.left = 0 THEN OctalDone(s) ELSE s
         ELSE InString([OctalDone(st) EXCEPT !.left = 0], x)
    [] st.mode = "lt" -> IF x = 60 THEN Open(st, "dict")
                         ELSE IF x \in HEX THEN [st EXCEPT !.mode = "hex", !.tok = <<x>>]
                         ELSE IF x \in WS THEN [st EXCEPT !.mode = "hex", !.tok = <<>>]
                         ELSE IF x = 62 THEN Push(st, Node("str", <<>>, <<>>))
                         ELSE Err(st, "HexString")
    [] st.mode = "hex" -> IF x \in HEX THEN [st EXCEPT !.tok = Append(@, x)]
                          ELSE IF x \in WS THEN st
                          ELSE IF x = 62 THEN Push(st, Node("str", Unhex(st.tok), <<>>))
                          ELSE Err(st, "HexString")
    [] st.mode = "gt" -> IF x = 62 THEN CloseDict(st) ELSE Err(st, "DictionaryBalanced")
    [] OTHER -> Err(st, "ReaderMode")

LxBytes(st, s) == FoldLeft(LxByte, st, s)

---------------------------------------------------------------------------
(* Comparing what was read with what was given.                            *)
(*                                                                         *)
(* A wanted number is an interval [lo, hi] of decimals: every decimal that *)
(* a reader rounds to the given value.                                     *)
RECURSIVE LeadZ(_), TrailZ(_)
LeadZ(s) == IF s # <<>> /\ s[1] = 48 THEN LeadZ(Tail(s)) ELSE s
TrailZ(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN TrailZ(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* token bytes to [neg, int digits, fraction digits]
Norm(t) ==
  LET u == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
      dots == { i \in DOMAIN u : u[i] = 46 }
      d == IF dots = {} THEN Len(u) + 1 ELSE CHOOSE i \in dots : TRUE
      ip == LeadZ(SubSeq(u, 1, d - 1))
      fp == TrailZ(SubSeq(u, d + 1, Len(u)))
  IN  [neg |-> t # <<>> /\ t[1] = 45 /\ (ip # <<>> \/ fp # <<>>), i |-> ip, f |-> fp]

RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLe(Tail(a), Tail(b))
MagLe(x, y) == IF Len(x.i) # Len(y.i) THEN Len(x.i) < Len(y.i)
               ELSE IF x.i # y.i THEN LexLe(x.i, y.i) ELSE LexLe(x.f, y.f)
NumLe(x, y) == IF x.neg # y.neg THEN x.neg ELSE IF x.neg THEN MagLe(y, x) ELSE MagLe(x, y)

RECURSIVE Match(_, _)
\* want may hold num nodes whose children are the bounds <<[b = lo], [b = hi]>>
Match(want, got) ==
  CASE want.k = "num" -> /\ got.k = "num"
                         /\ IF want.c = <<>> THEN Norm(want.b) = Norm(got.b)
                            ELSE NumLe(Norm(want.c[1].b), Norm(got.b)) /\ NumLe(Norm(got.b), Norm(want.c[2].b))
    [] want.k = "array" -> /\ got.k = "array" /\ Len(want.c) = Len(got.c)
                           /\ \A i \in DOMAIN want.c : Match(want.c[i], got.c[i])
    [] want.k = "dict" -> /\ got.k = "dict" /\ Len(want.c) = Len(got.c)
                          /\ \A i \in DOMAIN want.c : i % 2 = 1 =>
                               \E j \in DOMAIN got.c : j % 2 = 1 /\ got.c[j].b = want.c[i].b
                                                       /\ Match(want.c[i + 1], got.c[j + 1])
    [] want.k = "ref" -> got.k = "ref" /\ LeadZ(got.b) = LeadZ(want.b)
    [] OTHER -> got.k = want.k /\ got.b = want.b

\* the dictionary of a stream holds what was given, its length, and nothing else
MatchStream(want, st) ==
  LET got == st.stack[1].c[1]
      d == got.c[1]
      w == want.c[1]
  IN  /\ \A i \in DOMAIN w.c : i % 2 = 1 =>
            \E j \in DOMAIN d.c : j % 2 = 1 /\ d.c[j].b = w.c[i].b /\ Match(w.c[i + 1], d.c[j + 1])
      /\ Len(d.c) = Len(w.c) + 2

LxBad(st, e) ==
  CASE e.ev = "bytes" -> LxBytes(st, e.b).err \ st.err
    [] e.ev = "inflated" -> IF st.hasraw /\ st.raw = e.raw THEN {} ELSE {"StoredBytesRead"}
    [] e.ev = "end" ->
         IF st.err # {} THEN {}
         ELSE IF ~(st.closed /\ st.mode = "ws" /\ st.depth <= 1) THEN {"ObjectComplete"}
         ELSE LET v == st.stack[1].c[1]
              IN  IF e.want.k = "stream"
                  THEN IF v.k # "stream" THEN {"ValueKept_stream"}
                       ELSE (IF MatchStream(e.want, st) THEN {} ELSE {"StreamDictionaryKept"})
                            \cup (IF st.raw = e.want.b THEN {} ELSE {"StreamBytesKept"})
                  ELSE IF Match(e.want, v) THEN {} ELSE {"ValueKept_" \o e.want.k}
    [] OTHER -> {"WellFormed_" \o e.rule}

LxStep(st, e) ==
  CASE e.ev = "bytes" -> LxBytes(st, e.b)
    [] e.ev = "inflated" -> [st EXCEPT !.raw = e.b]
    [] OTHER -> st

LxHit(st, e) ==
  CASE e.ev = "end" -> {e.want.k} \cup (IF e.want.k = "array" /\ Len(e.want.c) > 1 THEN {"adjacent"} ELSE {})
                       \cup (IF e.want.k = "str" /\ \E i \in DOMAIN e.want.b : e.want.b[i] \in {13, 40, 41, 92} THEN {"escaped"} ELSE {})
    [] e.ev = "inflated" -> {"compressed"}
    [] OTHER -> {}
=============================================================================
