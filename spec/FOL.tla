-------------------------------- MODULE FOL --------------------------------
(***************************************************************************)
(* First-order logic with equality: syntax as hash-consed tables, finite   *)
(* interpretations, truth.  Every other module judges the prover against   *)
(* the notions defined here.                                               *)
(*                                                                         *)
(* Terms and formulas are given as tables  T, F : Seq(record)  whose       *)
(* entries refer to earlier entries by index, so that equal indices mean   *)
(* syntactically identical objects (formulas up to the names of bound      *)
(* variables, since bound variables are de Bruijn indices):                *)
(*   term    [k : {"f","b","m"}, n : STRING, i : Nat, a : Seq(term id)]    *)
(*             f: application; b: bound variable number i; m: free variable*)
(*   formula [k, n : STRING, a : Seq(term id), s : Seq(formula id)]        *)
(*             k in {"pred","not","and","or","imp","eqv","all","ex",       *)
(*                    "top","bot"}; the predicate "=" is equality.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Range(s) == { s[i] : i \in 1..Len(s) }

(***************************************************************************)
(* Interpretations: [n |-> size, fn |-> Seq([n, t]), pr |-> Seq([n, t])]   *)
(* with t the table of values in base-n order (0-based values; booleans    *)
(* as 0/1).                                                                *)
(***************************************************************************)
RECURSIVE Pos(_, _, _)
Pos(args, n, i) == IF i = 0 THEN 0 ELSE n * Pos(args, n, i - 1) + args[i]

Table(tbl, name) == LET e == CHOOSE i \in 1..Len(tbl) : tbl[i].n = name IN tbl[e].t

RECURSIVE TermVal(_, _, _, _)
TermVal(T, M, env, t) ==
  LET r == T[t] IN
  IF r.k = "b" THEN env[r.i + 1]
  ELSE LET args == [ j \in 1..Len(r.a) |-> TermVal(T, M, env, r.a[j]) ]
       IN  Table(M.fn, r.n)[Pos(args, M.n, Len(args)) + 1]

RECURSIVE Holds(_, _, _, _, _)
Holds(T, F, M, env, f) ==
  LET r == F[f]
      Sub(i) == Holds(T, F, M, env, r.s[i])
      Arg(i) == TermVal(T, M, env, r.a[i])
  IN CASE r.k = "pred" /\ r.n = "=" -> Arg(1) = Arg(2)
       [] r.k = "pred" /\ r.n # "=" ->
            LET args == [ j \in 1..Len(r.a) |-> Arg(j) ]
            IN  Table(M.pr, r.n)[Pos(args, M.n, Len(args)) + 1] = 1
       [] r.k = "not" -> ~ Sub(1)
       [] r.k = "and" -> \A i \in 1..Len(r.s) : Sub(i)
       [] r.k = "or"  -> \E i \in 1..Len(r.s) : Sub(i)
       [] r.k = "imp" -> Sub(1) => Sub(2)
       [] r.k = "eqv" -> Sub(1) <=> Sub(2)
       [] r.k = "all" -> \A d \in 0..(M.n - 1) : Holds(T, F, M, <<d>> \o env, r.s[1])
       [] r.k = "ex"  -> \E d \in 0..(M.n - 1) : Holds(T, F, M, <<d>> \o env, r.s[1])
       [] r.k = "top" -> TRUE
       [] r.k = "bot" -> FALSE

(* M is a counter-model of the refutation problem gamma (axioms and negated conjecture). *)
Satisfies(T, F, M, gamma) == \A i \in 1..Len(gamma) : Holds(T, F, M, <<>>, gamma[i])

(***************************************************************************)
(* Subterms (as sets of term ids).                                         *)
(***************************************************************************)
RECURSIVE Sub(_, _)
Sub(T, t) == {t} \cup UNION { Sub(T, T[t].a[i]) : i \in 1..Len(T[t].a) }

RECURSIVE FSub(_, _, _)
FSub(T, F, f) == UNION { Sub(T, F[f].a[i]) : i \in 1..Len(F[f].a) }
                 \cup UNION { FSub(T, F, F[f].s[i]) : i \in 1..Len(F[f].s) }

Heads(T, ts) == { T[t].n : t \in { u \in ts : T[u].k = "f" } }

(***************************************************************************)
(* Instances.  Inst(b, r, d) : the set of all term ids that must stand for *)
(* bound variable d of body b so that the body becomes r -- {} when the    *)
(* variable does not occur -- or {0} when b cannot become r.  r has the    *)
(* quantifier's binder removed, so bound variables above d are shifted.    *)
(* A witness must be closed under the binders between (no capture), i.e.   *)
(* it must not contain bound variables at depth > 0.                       *)
(***************************************************************************)
RECURSIVE HasBound(_, _)
HasBound(T, t) == T[t].k = "b" \/ \E i \in 1..Len(T[t].a) : HasBound(T, T[t].a[i])

RECURSIVE TInst(_, _, _, _)
TInst(T, b, r, d) ==
  LET x == T[b]  y == T[r] IN
  IF x.k = "b"
  THEN CASE x.i = d -> IF HasBound(T, r) THEN {0} ELSE {r}
         [] x.i < d -> IF y.k = "b" /\ y.i = x.i THEN {} ELSE {0}
         [] x.i > d -> IF y.k = "b" /\ y.i = x.i - 1 THEN {} ELSE {0}
  ELSE IF x.k # y.k \/ x.n # y.n \/ x.i # y.i \/ Len(x.a) # Len(y.a) THEN {0}
       ELSE UNION { TInst(T, x.a[i], y.a[i], d) : i \in 1..Len(x.a) }

RECURSIVE FInst(_, _, _, _, _)
FInst(T, F, b, r, d) ==
  LET x == F[b]  y == F[r] IN
  IF x.k # y.k \/ x.n # y.n \/ Len(x.a) # Len(y.a) \/ Len(x.s) # Len(y.s) THEN {0}
  ELSE LET dd == IF x.k \in {"all", "ex"} THEN d + 1 ELSE d IN
       UNION { TInst(T, x.a[i], y.a[i], d) : i \in 1..Len(x.a) }
       \cup UNION { FInst(T, F, x.s[i], y.s[i], dd) : i \in 1..Len(x.s) }

IsInstance(T, F, b, r) == LET w == FInst(T, F, b, r, 0) IN 0 \notin w /\ Cardinality(w) <= 1
Witness(T, F, b, r)    == FInst(T, F, b, r, 0)

(***************************************************************************)
(* Matching under several leading universal quantifiers: the set of        *)
(* <<bound variable, term>> pairs.  depth m is the number of binders       *)
(* crossed inside the pattern.  <<0, 0>> signals a clash.                  *)
(***************************************************************************)
RECURSIVE TMatch(_, _, _, _)
TMatch(T, b, r, m) ==
  LET x == T[b]  y == T[r] IN
  IF x.k = "b"
  THEN IF x.i < m THEN (IF y.k = "b" /\ y.i = x.i THEN {} ELSE {<<0, 0>>})
       ELSE (IF HasBound(T, r) THEN {<<0, 0>>} ELSE {<<x.i - m + 1, r>>})
  ELSE IF x.k # y.k \/ x.n # y.n \/ x.i # y.i \/ Len(x.a) # Len(y.a) THEN {<<0, 0>>}
       ELSE UNION { TMatch(T, x.a[i], y.a[i], m) : i \in 1..Len(x.a) }

RECURSIVE FMatch(_, _, _, _, _)
FMatch(T, F, b, r, m) ==
  LET x == F[b]  y == F[r] IN
  IF x.k # y.k \/ x.n # y.n \/ Len(x.a) # Len(y.a) \/ Len(x.s) # Len(y.s) THEN {<<0, 0>>}
  ELSE LET mm == IF x.k \in {"all", "ex"} THEN m + 1 ELSE m IN
       UNION { TMatch(T, x.a[i], y.a[i], m) : i \in 1..Len(x.a) }
       \cup UNION { FMatch(T, F, x.s[i], y.s[i], mm) : i \in 1..Len(x.s) }

Functional(S) == <<0, 0>> \notin S /\ \A p \in S : \A q \in S : p[1] = q[1] => p[2] = q[2]

(***************************************************************************)
(* Substitution, as a relation between terms (formulas): u is t with every *)
(* free occurrence of a key of th (a sequence of pairs) replaced by its    *)
(* value, and nothing else.  Bound variables being numbers, a captured     *)
(* variable makes u differ.                                                *)
(***************************************************************************)
Keys(th) == { th[i][1] : i \in 1..Len(th) }
Val(th, t) == th[CHOOSE i \in 1..Len(th) : th[i][1] = t][2]

RECURSIVE TSub(_, _, _, _)
TSub(T, th, t, u) ==
  IF t \in Keys(th) THEN u = Val(th, t)
  ELSE /\ T[t].k = T[u].k /\ T[t].n = T[u].n /\ T[t].i = T[u].i /\ Len(T[t].a) = Len(T[u].a)
       /\ \A i \in 1..Len(T[t].a) : TSub(T, th, T[t].a[i], T[u].a[i])

RECURSIVE FSubst(_, _, _, _, _)
FSubst(T, F, th, f, r) ==
  /\ F[f].k = F[r].k /\ F[f].n = F[r].n /\ Len(F[f].a) = Len(F[r].a) /\ Len(F[f].s) = Len(F[r].s)
  /\ \A i \in 1..Len(F[f].a) : TSub(T, th, F[f].a[i], F[r].a[i])
  /\ \A i \in 1..Len(F[f].s) : FSubst(T, F, th, F[f].s[i], F[r].s[i])

(***************************************************************************)
(* A formula seen through its leading negations.                           *)
(***************************************************************************)
RECURSIVE Core(_, _), Parity(_, _)
Core(F, f) == IF F[f].k = "not" THEN Core(F, F[f].s[1]) ELSE f
Parity(F, f) == IF F[f].k = "not" THEN 1 - Parity(F, F[f].s[1]) ELSE 0

(***************************************************************************)
(* Ground congruence closure, as the partition of the term ids ts (closed  *)
(* under subterms) given by a function to representatives.                 *)
(* opaque: terms whose arguments do not count (treated as constants).      *)
(***************************************************************************)
Merge(rep, x, y) == LET p == rep[x]  q == rep[y] IN
  IF p = q THEN rep
  ELSE LET lo == IF p < q THEN p ELSE q  hi == IF p < q THEN q ELSE p
       IN  [ t \in DOMAIN rep |-> IF rep[t] = hi THEN lo ELSE rep[t] ]

RECURSIVE MergeAll(_, _, _)
MergeAll(rep, eqs, i) == IF i > Len(eqs) THEN rep
                         ELSE MergeAll(Merge(rep, eqs[i][1], eqs[i][2]), eqs, i + 1)

Congr(T, rep, x, y) ==
  /\ rep[x] # rep[y]
  /\ T[x].k = "f" /\ T[y].k = "f" /\ T[x].n = T[y].n
  /\ Len(T[x].a) = Len(T[y].a) /\ Len(T[x].a) > 0
  /\ \A i \in 1..Len(T[x].a) : rep[T[x].a[i]] = rep[T[y].a[i]]

RECURSIVE Close(_, _)
Close(T, rep) ==
  LET ps == { p \in (DOMAIN rep) \X (DOMAIN rep) : p[1] < p[2] /\ Congr(T, rep, p[1], p[2]) }
  IN  IF ps = {} THEN rep
      ELSE LET p == CHOOSE p \in ps : TRUE IN Close(T, Merge(rep, p[1], p[2]))

Congruence(T, ts, eqs) == Close(T, MergeAll([ t \in ts |-> t ], eqs, 1))
=============================================================================
