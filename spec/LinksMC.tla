------------------------------ MODULE LinksMC -------------------------------
(* Exhaustive design model: a paragraph of words, some inside of links,     *)
(* broken in lines of a number of words; every piece of one element on a    *)
(* line gets one area for each of its targets.  Accepted by Links.tla; each *)
(* paragraph is a scenario.                                                 *)
EXTENDS Links, TLC, Json

CONSTANTS MaxWords, PerLine

Kinds == {"", "a", "b", "ab"}
TargetsOf(k) == CASE k = "" -> <<>> [] k = "a" -> <<"a">> [] k = "b" -> <<"b">> [] OTHER -> <<"a", "b">>
VARIABLES ws, per
\* ws: sequence of [k, same]; same: the word is in the same element as the one before, and so is the space between
vars == <<ws, per>>
Init == ws = <<>> /\ per \in PerLine
Add(k, s) == /\ Len(ws) < MaxWords
             /\ s => ws # <<>> /\ ws[Len(ws)].k = k
             /\ ws' = Append(ws, [k |-> k, same |-> s])
             /\ UNCHANGED per
Next == \E k \in Kinds, s \in BOOLEAN : Add(k, s)
Spec == Init /\ [][Next]_vars

W == 4000
X(i) == ((i - 1) % per) * 5000
Y(i) == 700000 - 11000 * ((i - 1) \div per)
FirstOnLine(i) == (i - 1) % per = 0
Sp(i) == IF i > 1 /\ ws[i].same THEN TargetsOf(ws[i].k) ELSE <<>>
Tok(i) == [ev |-> "tok", x1 |-> X(i), x2 |-> X(i) + W, y |-> Y(i), b |-> Y(i), on |-> ~FirstOnLine(i), px |-> IF FirstOnLine(i) THEN X(i) ELSE X(i - 1) + W,
           t |-> TargetsOf(ws[i].k), some |-> Sp(i), all |-> Sp(i)]
\* pieces: maximal runs of words of one element on one line
Starts == { i \in DOMAIN ws : FirstOnLine(i) \/ ~ws[i].same }
EndOf(i) == CHOOSE j \in i..Len(ws) : (\A k \in (i + 1)..j : k \notin Starts) /\ (j = Len(ws) \/ (j + 1) \in Starts)
RECURSIVE Annots(_)
Annots(i) == IF i > Len(ws) THEN <<>>
             ELSE (IF i \in Starts
                   THEN [m \in DOMAIN TargetsOf(ws[i].k) |->
                           [ev |-> "annot", t |-> TargetsOf(ws[i].k)[m], obj |-> IF TargetsOf(ws[i].k)[m] = "a" THEN 7 ELSE 0,
                            x1 |-> X(i), x2 |-> X(EndOf(i)) + W, y1 |-> Y(i) - 2500, y2 |-> Y(i) + 7500]]
                   ELSE <<>>) \o Annots(i + 1)
Events == <<[ev |-> "page", messy |-> FALSE]>> \o [i \in DOMAIN ws |-> Tok(i)] \o Annots(1) \o <<[ev |-> "endpage"]>>
RECURSIVE BadOf(_, _)
BadOf(s, es) == IF es = <<>> THEN {} ELSE LkBad(s, es[1]) \cup BadOf(LkStep(s, es[1]), Tail(es))
Accepted == BadOf(LkInit(<<>>), Events) = {}
\* an area less, more, or of another width is not accepted
Drop(es, i) == SubSeq(es, 1, i - 1) \o SubSeq(es, i + 1, Len(es))
Sharp == \A i \in DOMAIN Events : Events[i].ev = "annot" =>
            /\ BadOf(LkInit(<<>>), Drop(Events, i)) # {}
            /\ BadOf(LkInit(<<>>), [Events EXCEPT ![i].x2 = @ + 1100]) # {}
            /\ BadOf(LkInit(<<>>), [Events EXCEPT ![i].x2 = @ - 1100]) # {}
            /\ BadOf(LkInit(<<>>), [Events EXCEPT ![i].x1 = @ - 1100]) # {}
            /\ BadOf(LkInit(<<>>), [Events EXCEPT ![i].y1 = @ + 11000, ![i].y2 = @ + 11000]) # {}
Emit == ws # <<>> => PrintT("@SCENARIO " \o ToJson([ws |-> ws, per |-> per]))
=============================================================================
