------------------------------ MODULE Verdict ------------------------------
(***************************************************************************)
(* What the prover may answer.  A session is one refutation problem (the   *)
(* axioms and the negated conjecture) given to the prover in a number of   *)
(* runs (options, schedules, renamings).  The specification first settles  *)
(* the problem's status as far as it can:                                  *)
(*   "sat"    an interpretation given with the case satisfies it (checked  *)
(*            here, by evaluation), or all-valuations says so;             *)
(*   "unsat"  no valuation satisfies it (propositional-strength problems), *)
(*            or the case cites a derivation accepted by Tableau.tla;      *)
(*   "open"   otherwise.                                                   *)
(* Then every answer must be allowed in that state, and definite answers   *)
(* must agree with each other.                                             *)
(*                                                                         *)
(* case: [id, T, F, prob, conj : BOOLEAN, exact : BOOLEAN, derived :       *)
(*        BOOLEAN, model : [n, fn, pr] (n = 0: none),                      *)
(*        runs : Seq([m : STRING, s : status, r : RES line, def : BOOLEAN, *)
(*                    must : BOOLEAN])]                                    *)
(*   def : a negative answer of this run claims to be definite (the search *)
(*         was not cut by a limit)                                         *)
(*   must: the run has to answer (no time-out)                             *)
(***************************************************************************)
EXTENDS FOL, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.GV_CASES)

VARIABLES c, l, truth, seen, bad
vars == <<c, l, truth, seen, bad>>

(***************************************************************************)
(* Exact status of problems whose quantifiers are all of existential       *)
(* strength and outside equivalences: replace each by a fresh constant     *)
(* (named by its position) and try all valuations of the resulting atoms.  *)
(***************************************************************************)
RECURSIVE TKey(_, _, _), TKeys(_, _, _, _)
TKey(T, env, t) == IF T[t].k = "b" THEN env[T[t].i + 1]
                   ELSE T[t].n \o "(" \o TKeys(T, env, T[t].a, 1) \o ")"
TKeys(T, env, a, i) == IF i > Len(a) THEN "" ELSE TKey(T, env, a[i]) \o "," \o TKeys(T, env, a, i + 1)
AKey(T, F, env, f) == F[f].n \o "(" \o TKeys(T, env, F[f].a, 1) \o ")"

RECURSIVE Atoms(_, _, _, _, _)
Atoms(T, F, env, p, f) ==
  IF F[f].k = "pred" THEN {AKey(T, F, env, f)}
  ELSE LET e2 == IF F[f].k \in {"all", "ex"} THEN <<"@" \o p>> \o env ELSE env
       IN UNION { Atoms(T, F, e2, p \o "." \o ToString(i), F[f].s[i]) : i \in 1..Len(F[f].s) }

RECURSIVE Truth(_, _, _, _, _, _)
Truth(T, F, V, env, p, f) ==
  LET r == F[f]
      e2 == IF r.k \in {"all", "ex"} THEN <<"@" \o p>> \o env ELSE env
      S(i) == Truth(T, F, V, e2, p \o "." \o ToString(i), r.s[i])
  IN CASE r.k = "pred" -> AKey(T, F, env, f) \in V
       [] r.k = "not" -> ~ S(1)
       [] r.k = "and" -> \A i \in 1..Len(r.s) : S(i)
       [] r.k = "or"  -> \E i \in 1..Len(r.s) : S(i)
       [] r.k = "imp" -> S(1) => S(2)
       [] r.k = "eqv" -> S(1) <=> S(2)
       [] r.k \in {"all", "ex"} -> S(1)
       [] r.k = "top" -> TRUE
       [] r.k = "bot" -> FALSE

AllAtoms(C) == UNION { Atoms(C.T, C.F, <<>>, ToString(i), C.prob[i]) : i \in 1..Len(C.prob) }
SatVal(C) == \E V \in SUBSET AllAtoms(C) :
                \A i \in 1..Len(C.prob) : Truth(C.T, C.F, V, <<>>, ToString(i), C.prob[i])

Positive == {"Theorem", "Unsatisfiable"}
Negative == {"CounterSatisfiable", "Satisfiable"}

Init == c \in 1..Len(Cases) /\ l = 0 /\ truth = "open" /\ seen = "none" /\ bad = ""

Reject(why) == PrintT(<<"REJECT", Cases[c].id, why>>)

Settle ==
  /\ l = 0 /\ bad = ""
  /\ LET C == Cases[c] IN
     /\ truth' = IF C.model.n > 0 THEN (IF Satisfies(C.T, C.F, C.model, C.prob) THEN "sat" ELSE "open")
                 ELSE IF C.exact THEN (IF SatVal(C) THEN "sat" ELSE "unsat")
                 ELSE IF C.derived THEN "unsat" ELSE "open"
     /\ bad' = IF C.model.n > 0 /\ truth' # "sat" THEN "witness" ELSE ""
     /\ bad' # "" => PrintT(<<"INFO", C.id, "the interpretation does not satisfy the problem">>)
  /\ l' = 1 /\ UNCHANGED <<c, seen>>

Sign(s) == IF s \in Positive THEN "pos" ELSE IF s \in Negative THEN "neg" ELSE "none"

(* the first thing wrong with an answer, "" when it is allowed *)
Wrong(C, r) ==
  IF r.s = "none" THEN (IF r.must THEN "no verdict" ELSE "")
  ELSE IF truth = "sat" /\ r.s \in Positive THEN "proved although an interpretation refutes it: " \o r.s
  ELSE IF truth = "unsat" /\ r.s \in Negative /\ r.def THEN "refuted although unsatisfiable: " \o r.s
  ELSE IF C.conj # (r.s \in {"Theorem", "CounterSatisfiable"}) THEN "status does not fit the statements: " \o r.s
  ELSE IF (r.s \in Positive) # (r.r = "VALID") THEN "RES line and SZS status disagree"
  ELSE IF seen # "none" /\ (r.def \/ r.s \in Positive) /\ Sign(r.s) # seen THEN "answers disagree: " \o r.s
  ELSE ""

Observe ==
  /\ l >= 1 /\ bad = "" /\ l <= Len(Cases[c].runs)
  /\ LET C == Cases[c]  r == C.runs[l]  w == Wrong(C, r) IN
     /\ bad' = w
     /\ w # "" => Reject("run " \o ToString(l) \o " [" \o r.m \o "] " \o w)
     /\ seen' = IF w = "" /\ r.s # "none" /\ (r.def \/ r.s \in Positive) THEN Sign(r.s) ELSE seen
  /\ l' = l + 1 /\ UNCHANGED <<c, truth>>

Next == Settle \/ Observe
Spec == Init /\ [][Next]_vars
=============================================================================
