-------------------------------- MODULE GfxMC --------------------------------
(* Exhaustive design model of content streams: a writer that puts texts,    *)
(* justified texts, underlined texts on a background, rules with a fill and *)
(* images on two pages in any order.  What it writes is accepted by the     *)
(* clauses of Gfx.tla, and rejected when it does not save the state around  *)
(* rules (unwrap), keeps the attributes of text from one page to another    *)
(* (cache), does not reset the word spacing (tw) or the dash (dash),        *)
(* declares a font on one page only (font), gives two images one name       *)
(* (image), does not restore on the second page (open) or draws inside      *)
(* text (nest).  Each sequence is a scenario.                               *)
EXTENDS Gfx, Json

CONSTANTS Kinds, Most, Faults
VARIABLES fault, els, done
vars == <<fault, els, done>>
Init == fault \in Faults /\ els = <<>> /\ done = FALSE

Plain == <<200, 0, 0>>
Own(i) == <<300, 100 * i, 0>>
Back(i) == <<400, 100 * i, 0>>
Rule(i) == <<500, 100 * i, 0>>
TextColor(i) == IF els[i].kind = "t" THEN Plain ELSE Own(i)
Is(i, ks) == els[i].kind \in ks
Def == [toks |-> [ i \in DOMAIN els |-> [font |-> "F", size |-> 10000, c |-> TextColor(i), just |-> Is(i, {"j"}), under |-> Is(i, {"u"})] ] \o <<>>,
        lines |-> LET R == SelectSeq([ i \in DOMAIN els |-> i ], LAMBDA i : Is(i, {"r"}))
                  IN  [ k \in 1..(2 * Len(R)) |-> [c |-> Rule(R[(k + 1) \div 2]), w |-> 1000, d |-> IF k % 2 = 1 THEN "dashed" ELSE "solid", must |-> TRUE] ] \o <<>>,
        fills |-> LET R == SelectSeq([ i \in DOMAIN els |-> i ], LAMBDA i : Is(i, {"r", "u"}))
                  IN  [ k \in DOMAIN R |-> [c |-> Back(R[k]), must |-> TRUE] ] \o <<>>,
        imgs |-> LET R == SelectSeq([ i \in DOMAIN els |-> i ], LAMBDA i : Is(i, {"i"}))
                 IN  [ k \in DOMAIN R |-> [w |-> 300 + R[k], h |-> 200, must |-> TRUE] ] \o <<>>]
Op(o) == [ev |-> "op", op |-> o, sig |-> "", n |-> <<>>]
Num(o, n) == [ev |-> "op", op |-> o, sig |-> Sig[o], n |-> n]
Color(o, c) == Num(o, c)
Dash(a) == [ev |-> "op", op |-> "d", sig |-> "an", n |-> <<0>>, dash |-> a]
Font(f) == [ev |-> "op", op |-> "Tf", sig |-> "Nn", n |-> <<10000>>, font |-> f]
Show(i) == [ev |-> "op", op |-> "Tj", sig |-> "s", n |-> <<>>, toks |-> <<i>>, blank |-> FALSE]
Image(i) == [ev |-> "op", op |-> "Do", sig |-> "N", n |-> <<>>, img |-> <<300 + i, 200>>]
Line == <<Num("m", <<0, 0>>), Num("l", <<0, 0>>), Op("S")>>
\* elements before i on its page, and anywhere
Before(i, ks) == { j \in 1..(i - 1) : els[j].page = els[i].page /\ Is(j, ks) }
Earlier(i, ks) == { j \in 1..(i - 1) : Is(j, ks) }
Top(S) == CHOOSE x \in S : \A y \in S : x >= y
Last(S, k) == els[Top(S)].kind = k
TextOf(i) ==
  LET cached == (fault = "unwrap" /\ Is(i, {"t"}) /\ Before(i, {"t", "j", "u"}) # {} /\ Last(Before(i, {"t", "j", "u"}), "t"))
      gone == fault = "cache" /\ Earlier(i, {"t", "j", "u"}) # {}
      first == Earlier(i, {"t", "j", "u"}) = {} \/ \E j \in Earlier(i, {"t", "j", "u"}) : els[j].page = els[i].page
      font == IF fault = "font" /\ ~first THEN "" ELSE "F"
  IN  <<Op("BT")>> \o (IF gone THEN <<>> ELSE <<Font(font)>>) \o (IF cached THEN <<>> ELSE <<Color("rg", TextColor(i))>>)
      \o (IF fault = "tw" /\ ~Is(i, {"j"}) THEN <<>> ELSE <<Num("Tw", <<IF Is(i, {"j"}) THEN 500 ELSE 0>>)>>) \o <<Show(i), Op("ET")>>
Graphics(i) ==
  (IF fault = "unwrap" THEN <<>> ELSE <<Op("q")>>)
  \o <<Color("rg", Back(i)), Num("re", <<0, 0, 0, 0>>), Op("F")>>
  \o (IF Is(i, {"u"}) THEN <<Color("RG", Own(i)), Num("w", <<700>>)>> \o Line
      ELSE <<Color("RG", Rule(i)), Num("w", <<1000>>), Dash(<<3000, 1500>>)>> \o Line \o (IF fault = "dash" THEN <<>> ELSE <<Dash(<<>>)>>) \o Line)
  \o (IF fault = "unwrap" \/ (fault = "open" /\ els[i].page = 2) THEN <<>> ELSE <<Op("Q")>>)
Ops(i) ==
  CASE Is(i, {"t", "j"}) -> TextOf(i)
    [] Is(i, {"u"}) -> IF fault = "nest" THEN <<Op("BT")>> \o Graphics(i) \o Tail(TextOf(i)) ELSE Graphics(i) \o TextOf(i)
    [] Is(i, {"r"}) -> Graphics(i)
    [] Is(i, {"i"}) -> <<Op("q"), Num("cm", <<0, 0, 0, 0, 0, 0>>), Image(IF fault = "image" /\ Earlier(i, {"i"}) # {} THEN CHOOSE j \in Earlier(i, {"i"}) : TRUE ELSE i), Op("Q")>>
RECURSIVE OpsOf(_, _)
OpsOf(p, i) == IF i > Len(els) THEN <<>> ELSE (IF els[i].page = p THEN Ops(i) ELSE <<>>) \o OpsOf(p, i + 1)
Trace == <<Def, [ev |-> "page"]>> \o OpsOf(1, 1) \o <<[ev |-> "close"], [ev |-> "page"]>> \o OpsOf(2, 1) \o <<[ev |-> "close"], [ev |-> "end"]>>

Add == ~done /\ Len(els) < Most /\ \E k \in Kinds, p \in 1..2 : els' = Append(els, [kind |-> k, page |-> p]) /\ UNCHANGED <<fault, done>>
End == ~done /\ els # <<>> /\ done' = TRUE /\ UNCHANGED <<fault, els>>
Next == Add \/ End
Spec == Init /\ [][Next]_vars

Texts == {"t", "j", "u"}
Hurt == CASE fault = "none" -> FALSE
          [] fault = "unwrap" -> \E i \in DOMAIN els : Is(i, {"t"}) /\ Before(i, Texts) # {} /\ Last(Before(i, Texts), "t")
                                    /\ \E j \in Before(i, {"r"}) : j > Top(Before(i, Texts))
          [] fault = "cache" -> \E i \in DOMAIN els : Is(i, Texts) /\ Earlier(i, Texts) # {} /\ Before(i, Texts) = {}
          [] fault = "tw" -> \E i \in DOMAIN els : Is(i, {"t", "u"}) /\ Before(i, {"j"}) # {}
          [] fault = "dash" -> \E i \in DOMAIN els : Is(i, {"r"})
          [] fault = "font" -> \E i \in DOMAIN els : Is(i, Texts) /\ Earlier(i, Texts) # {} /\ Before(i, Texts) = {}
          [] fault = "image" -> \E i \in DOMAIN els : Is(i, {"i"}) /\ Earlier(i, {"i"}) # {}
          [] fault = "open" -> \E i \in DOMAIN els : Is(i, {"u", "r"}) /\ els[i].page = 2
          [] fault = "nest" -> \E i \in DOMAIN els : Is(i, {"u"})
RECURSIVE BadOf(_, _)
BadOf(st, es) == IF es = <<>> THEN {} ELSE GxBad(st, es[1]) \cup BadOf(GxStep(st, es[1]), Tail(es))
Verdict == BadOf(GxInit(<<Def>>), Tail(Trace))
Accepted == (done /\ fault = "none") => Verdict = {}
Sharp == (done /\ fault # "none" /\ Hurt) => Verdict # {}
Emit == (done /\ (fault = "none" \/ Hurt)) => PrintT("@SCENARIO " \o ToJson([fault |-> fault, els |-> els]))
=============================================================================
