------------------------------ MODULE Equality ------------------------------
(***************************************************************************)
(* Rigid equality reasoning (packages equality/bse and equality/sateq) and *)
(* the term ordering that guides it.                                       *)
(*                                                                         *)
(* A branch is a set of literals; its metavariables are rigid, hence       *)
(* constants once a substitution is chosen.  A substitution closes the     *)
(* branch iff its literals, with the substitution read as further          *)
(* equations, are contradictory by congruence closure.                     *)
(*                                                                         *)
(* case: [id, T, ev], ev : Seq of                                          *)
(*   solve lits res same   lits : Seq([pos, n, a]); res : Seq(Seq(pair))   *)
(*   order ts cmp prec     cmp[i][j] in {"lt","gt","eq","no"} compares     *)
(*                         terms ts[i] and ts[j]                           *)
(*   stable s t i j x y    compare(s,t) = x implies compare of the         *)
(*                         instances i, j (by th) = y                      *)
(***************************************************************************)
EXTENDS FOL, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.GV_CASES)

VARIABLES c, l, bad
vars == <<c, l, bad>>

Ev == Cases[c].ev
T == Cases[c].T

Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = ""

(***************************************************************************)
(* Substitutions: functional and acyclic.                                  *)
(***************************************************************************)
Metas(t) == { u \in Sub(T, t) : T[u].k = "m" }
RECURSIVE Reach(_, _)
Reach(s, ms) == LET more == ms \cup UNION { Metas(s[i][2]) : i \in { j \in 1..Len(s) : s[j][1] \in ms } }
                IN  IF more = ms THEN ms ELSE Reach(s, more)
WellFormed(s) == /\ \A i \in 1..Len(s) : T[s[i][1]].k = "m"
                 /\ \A i, j \in 1..Len(s) : s[i][1] = s[j][1] => i = j
                 /\ \A i \in 1..Len(s) : s[i][1] \notin Reach(s, Metas(s[i][2]))

Terms(lits, s) == UNION ({ UNION { Sub(T, lits[i].a[j]) : j \in 1..Len(lits[i].a) } : i \in 1..Len(lits) }
                         \cup { Sub(T, s[i][1]) \cup Sub(T, s[i][2]) : i \in 1..Len(s) })

RECURSIVE Equations(_, _)
Equations(lits, i) == IF i > Len(lits) THEN <<>>
                      ELSE IF lits[i].n = "=" /\ lits[i].pos THEN <<lits[i].a>> \o Equations(lits, i + 1) ELSE Equations(lits, i + 1)

Contradictory(lits, s) ==
  LET rep == Congruence(T, Terms(lits, s), Equations(lits, 1) \o s) IN
  \/ \E i \in 1..Len(lits) : ~ lits[i].pos /\ lits[i].n = "=" /\ rep[lits[i].a[1]] = rep[lits[i].a[2]]
  \/ \E i, j \in 1..Len(lits) : /\ lits[i].pos /\ ~ lits[j].pos /\ lits[i].n = lits[j].n /\ lits[i].n # "="
                                /\ \A k \in 1..Len(lits[i].a) : rep[lits[i].a[k]] = rep[lits[j].a[k]]

BadSolve(e) ==
  IF ~ e.same THEN "the literals of the branch have changed"
  ELSE IF \E i \in 1..Len(e.res) : ~ WellFormed(e.res[i]) THEN "an answer is not a substitution"
  ELSE IF \E i \in 1..Len(e.res) : ~ Contradictory(e.lits, e.res[i]) THEN "a substitution is returned that does not close the branch"
  ELSE ""

(***************************************************************************)
(* The ordering (terms with metavariables may be incomparable, and may be  *)
(* found so in one direction only): its results form a strict order, total *)
(* on ground terms, with the subterm property, compatible with contexts    *)
(* and substitutions.                                                      *)
(***************************************************************************)
Ground(t) == Metas(t) = {}
Flip(x) == CASE x = "lt" -> "gt" [] x = "gt" -> "lt" [] OTHER -> x

(* g is f with one argument replaced by another one *)
Context(t, u, i) == /\ T[t].k = "f" /\ T[u].k = "f" /\ T[t].n = T[u].n /\ Len(T[t].a) = Len(T[u].a) /\ i \in 1..Len(T[t].a)
                    /\ \A j \in 1..Len(T[t].a) : j # i => T[t].a[j] = T[u].a[j]

BadOrder(e) ==
  LET N == 1..Len(e.ts)
      C(i, j) == e.cmp[i][j]
      Lt(i, j) == C(i, j) = "lt"
      Idx(t) == { k \in N : e.ts[k] = t }
  IN
  IF \E i, j \in N : (C(i, j) = "eq") # (e.ts[i] = e.ts[j]) THEN "equal is not identical"
  ELSE IF \E i, j \in N : "no" \notin {C(i, j), C(j, i)} /\ C(i, j) # Flip(C(j, i)) THEN "the ordering is not antisymmetric"
  ELSE IF \E i, j \in N : Ground(e.ts[i]) /\ Ground(e.ts[j]) /\ C(i, j) = "no" THEN "the ordering is not total on ground terms"
  ELSE IF \E i, j, k \in N : Lt(i, j) /\ Lt(j, k) /\ C(i, k) \in {"gt", "eq"} THEN "the ordering is not transitive"
  ELSE IF \E i, j \in N : i # j /\ e.ts[i] \in Sub(T, e.ts[j])
                            /\ (C(i, j) \in {"gt", "eq"} \/ (C(i, j) # "lt" /\ Ground(e.ts[j]))) THEN "a subterm is not smaller"
  ELSE IF \E i, j \in N : \E k \in 1..Len(T[e.ts[i]].a) : Context(e.ts[i], e.ts[j], k) /\
            \E x \in Idx(T[e.ts[i]].a[k]), y \in Idx(T[e.ts[j]].a[k]) :
              Lt(x, y) /\ (C(i, j) = "gt" \/ (C(i, j) # "lt" /\ Ground(e.ts[i]) /\ Ground(e.ts[j])))
       THEN "the ordering is not compatible with contexts"
  ELSE ""

BadStable(e) ==
  IF ~ TSub(T, e.th, e.s, e.i) \/ ~ TSub(T, e.th, e.t, e.j) THEN "not an instance"
  ELSE IF e.x \in {"lt", "gt"} /\ e.y # e.x /\ (e.y # "no" \/ (Ground(e.i) /\ Ground(e.j))) THEN "the ordering is not stable under substitution"
  ELSE ""

Verdict(e) == CASE e.op = "solve" -> BadSolve(e) [] e.op = "order" -> BadOrder(e) [] e.op = "stable" -> BadStable(e)

Next ==
  /\ bad = "" /\ l <= Len(Ev)
  /\ LET e == Ev[l]  why == Verdict(e) IN
     /\ bad' = why
     /\ why # "" => PrintT(<<"REJECT", Cases[c].id, ToString(l), why>>)
  /\ l' = l + 1 /\ UNCHANGED c

Spec == Init /\ [][Next]_vars
=============================================================================
