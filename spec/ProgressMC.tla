----------------------------- MODULE ProgressMC -----------------------------
(* Exhaustive design model of layout: a loop over pages places pieces, of   *)
(* all heights up to some that no page can take, one after another in the   *)
(* columns of each page, and gives up when nothing new was placed on some   *)
(* pages.  Under weak fairness it always comes to its end (Ends), and what  *)
(* it does is accepted by the clauses of Progress.tla; rejected when it     *)
(* leaves out what does not fit (drop), never gives up (endless, which      *)
(* violates Ends), gives up though the rest of an empty page would do       *)
(* (early), makes an empty page before every piece (blank), squeezes in     *)
(* what does not fit (force), or takes one piece twice (twice).             *)
EXTENDS Progress, Json

CONSTANTS Heights, Room, Cols, MaxAtoms, Limit, Faults, Cap
VARIABLES fault, atoms, next, col, left, page, out, barren, how, told
vars == <<fault, atoms, next, col, left, page, out, barren, how, told>>
Def == [ev |-> "def", atoms |-> [ i \in DOMAIN atoms |-> [h |-> atoms[i] * 10000, low |-> atoms[i] * 10000, room |-> Room * 10000 + 5000, full |-> Room * 10000 + 5000, exact |-> FALSE] ] \o <<>>, silent |-> 0]

Init == /\ fault \in Faults
        /\ atoms \in UNION { [1..n -> Heights] : n \in 0..MaxAtoms }
        /\ next = 1 /\ col = 1 /\ left = Room /\ page = <<>> /\ out = <<>> /\ barren = 0 /\ how = "" /\ told = FALSE
Waits == fault = "blank" /\ page = <<>> /\ barren = 0 /\ next > 1
DoesFit == atoms[next] <= left \/ (fault = "force" /\ left = Room)
Blocked == next <= Len(atoms) /\ (~DoesFit \/ Waits)
Place == /\ how = "" /\ next <= Len(atoms)
         /\ DoesFit /\ ~Waits
         /\ page' = IF fault = "twice" /\ next = 2 THEN page \o <<1, next>> ELSE Append(page, next)
         /\ left' = IF atoms[next] > left THEN 0 ELSE left - atoms[next]
         /\ next' = next + 1
         /\ UNCHANGED <<fault, atoms, col, out, barren, how, told>>
NextCol == /\ how = "" /\ Blocked /\ col < Cols
           /\ col' = col + 1 /\ left' = Room
           /\ UNCHANGED <<fault, atoms, next, page, out, barren, how, told>>
NextPage ==
  /\ how = "" /\ Blocked /\ col = Cols
  /\ out' = Append(out, [ev |-> "page", new |-> page])
  /\ barren' = IF page = <<>> THEN barren + 1 ELSE 0
  /\ next' = IF fault = "drop" /\ page = <<>> THEN next + 1 ELSE next
  /\ how' = IF (barren' > Limit /\ fault # "endless") \/ (fault = "early" /\ Len(page) = 1) THEN "error" ELSE IF Len(out') >= Cap THEN "endless" ELSE ""
  /\ page' = <<>> /\ col' = 1 /\ left' = Room
  /\ UNCHANGED <<fault, atoms, told>>
Finish == /\ how = "" /\ next > Len(atoms)
          /\ how' = "done" /\ out' = Append(out, [ev |-> "page", new |-> page])
          /\ UNCHANGED <<fault, atoms, next, col, left, page, barren, told>>
Tell == how # "" /\ ~told /\ told' = TRUE /\ UNCHANGED <<fault, atoms, next, col, left, page, out, barren, how>>
Step == Place \/ NextCol \/ NextPage \/ Finish \/ Tell
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Ends == <>(how \in {"done", "error"})

RECURSIVE BadOf(_, _)
BadOf(st, es) == IF es = <<>> THEN {} ELSE StBad(st, es[1]) \cup BadOf(StStep(st, es[1]), Tail(es))
Verdict == BadOf(StInit(<<Def>>), Append(out, [ev |-> "end", how |-> how, pages |-> Len(out)]))
Big == \E i \in DOMAIN atoms : atoms[i] > Room
BigOver == \E i \in DOMAIN atoms : TooBig(Def.atoms[i])
Pages(s) == Len(out)
Hurt ==
  CASE fault = "none" -> FALSE
    [] fault = "drop" -> Big /\ how = "done"
    [] fault \in {"endless", "force"} -> Big
    [] fault = "early" -> ~Big /\ how = "error"
    [] fault = "blank" -> ~Big /\ \E i \in DOMAIN out : i < Len(out) /\ out[i].new = <<>>
    [] fault = "twice" -> Len(atoms) > 1 /\ next > 2
Accepted == (told /\ fault = "none") => Verdict = {}
Sharp == (told /\ Hurt) => Verdict # {}
Emit == (told /\ (fault = "none" \/ Hurt)) => PrintT("@SCENARIO " \o ToJson([fault |-> fault, atoms |-> atoms, cols |-> Cols]))
=============================================================================
