------------------------------ MODULE Tableau ------------------------------
(***************************************************************************)
(* The tableau calculus the prover implements, as a state machine.         *)
(*                                                                         *)
(* State: the open branches of one tableau.  A branch carries the formulas *)
(* on it and the witnesses its existential steps introduced.  Each proof   *)
(* step recorded from the prover (rule, formula expanded, formulas added   *)
(* to each branch) must be an action enabled in the current state:         *)
(*   Alpha, Beta, Gamma, Delta, Reintroduce, Rewrite, CloseBranch.         *)
(* A proof is accepted when all its steps are and no branch stays open.    *)
(*                                                                         *)
(* A case of the batch:                                                    *)
(*  [id, T, F : tables (FOL.tla), prob : Seq(formula id) -- the problem as *)
(*   read from the input file by an independent parser, theory : BOOLEAN   *)
(*   -- rewrite rules may have been taken out of the problem,              *)
(*   ev : Seq([b : branch, f : formula id, rule : STRING,                  *)
(*             ch : Seq([b : branch, r : Seq(formula id)])])]              *)
(***************************************************************************)
EXTENDS FOL, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.GV_CASES)

VARIABLES c,        \* the case
          l,        \* steps consumed
          open,     \* branch -> [fs : set of formulas, w : set of <<term, formula>>]
          bad       \* reason of the first rejected step, "" while none
vars == <<c, l, open, bad>>

T == Cases[c].T
F == Cases[c].F

RECURSIVE Conj(_, _)
Conj(C, f) == IF C.F[f].k = "and" THEN UNION { Conj(C, C.F[f].s[i]) : i \in 1..Len(C.F[f].s) } ELSE {f}
ConjAll(C, fs) == UNION { Conj(C, fs[i]) : i \in 1..Len(fs) }

Root(C)   == C.ev[1].f
Theory(C) == { C.prob[i] : i \in { j \in 1..Len(C.prob) : ~ (Conj(C, C.prob[j]) \subseteq Conj(C, Root(C))) } }

(* The tableau starts from the problem: nothing added, and nothing left out except rewrite rules. *)
RootOk(C) == /\ Conj(C, Root(C)) \subseteq ConjAll(C, C.prob)
             /\ Theory(C) # {} => C.theory

Init == /\ c \in 1..Len(Cases)
        /\ l = 0
        /\ open = <<>>
        /\ bad = ""

Start == /\ l = 0 /\ bad = ""
         /\ l' = 1 /\ c' = c
         /\ IF RootOk(Cases[c])
            THEN open' = (Cases[c].ev[1].b :> [fs |-> {Root(Cases[c])}, w |-> {}]) /\ bad' = bad
            ELSE open' = <<>> /\ bad' = "root"

E == Cases[c].ev[l]

IsNot(f) == F[f].k = "not"
Arg(f)   == F[f].s[1]                 \* of a negation
Kids(f)  == Range(F[f].s)

(* Added(i): the set of formulas the step adds to its i-th child branch. *)
Added(e, i) == Range(e.ch[i].r)
NegOf(f, g) == IsNot(f) /\ Arg(f) = g
IsNegSet(S, G) == /\ \A f \in S : \E g \in G : NegOf(f, g)
                  /\ \A g \in G : \E f \in S : NegOf(f, g)

(***************************************************************************)
(* The expansion rules.  Each says what the children of a step on formula  *)
(* f may add.                                                              *)
(***************************************************************************)
AlphaRule(f, e) ==
  /\ Len(e.ch) = 1
  /\ LET S == Added(e, 1) IN
     \/ F[f].k = "and" /\ S = Kids(f)
     \/ IsNot(f) /\ F[Arg(f)].k = "not" /\ S = {Arg(Arg(f))}
     \/ IsNot(f) /\ F[Arg(f)].k = "or" /\ IsNegSet(S, Kids(Arg(f)))
     \/ IsNot(f) /\ F[Arg(f)].k = "imp"
        /\ LET a == F[Arg(f)].s[1]  b == F[Arg(f)].s[2] IN
           a \in S /\ (\E g \in S : NegOf(g, b)) /\ \A g \in S : g = a \/ NegOf(g, b)

(* two children i, j in either order, with exactly these contents *)
Split(e, P(_), Q(_)) ==
  /\ Len(e.ch) = 2
  /\ \/ P(Added(e, 1)) /\ Q(Added(e, 2))
     \/ Q(Added(e, 1)) /\ P(Added(e, 2))

Covers(e, G) == /\ \A i \in 1..Len(e.ch) : \E g \in G : Added(e, i) = {g}
                /\ \A g \in G : \E i \in 1..Len(e.ch) : Added(e, i) = {g}
CoversNeg(e, G) == /\ \A i \in 1..Len(e.ch) : \E g \in G : IsNegSet(Added(e, i), {g})
                   /\ \A g \in G : \E i \in 1..Len(e.ch) : IsNegSet(Added(e, i), {g})

Pos2(S, a, b) == S = {a, b}
NegNeg(S, a, b) == IsNegSet(S, {a, b})
PosNeg(S, a, b) == a \in S /\ (\E g \in S : NegOf(g, b)) /\ \A g \in S : g = a \/ NegOf(g, b)

BetaRule(f, e) ==
  \/ F[f].k = "or" /\ Covers(e, Kids(f))
  \/ IsNot(f) /\ F[Arg(f)].k = "and" /\ CoversNeg(e, Kids(Arg(f)))
  \/ F[f].k = "imp" /\ LET a == F[f].s[1]  b == F[f].s[2]
                           P(S) == IsNegSet(S, {a})
                           Q(S) == S = {b}
                       IN  Split(e, P, Q)
  \/ F[f].k = "eqv" /\ LET a == F[f].s[1]  b == F[f].s[2]
                           P(S) == Pos2(S, a, b)
                           Q(S) == NegNeg(S, a, b)
                       IN  Split(e, P, Q)
  \/ IsNot(f) /\ F[Arg(f)].k = "eqv"
        /\ LET a == F[Arg(f)].s[1]  b == F[Arg(f)].s[2]
               P(S) == PosNeg(S, a, b)
               Q(S) == PosNeg(S, b, a)
           IN  Split(e, P, Q)

(* the body of a quantified formula and its instance, seen through a negation if there is one *)
UnivBody(f, r) == IF F[f].k = "all" THEN <<F[f].s[1], r>>
                  ELSE IF IsNot(f) /\ F[Arg(f)].k = "ex" /\ IsNot(r) THEN <<F[Arg(f)].s[1], Arg(r)>>
                  ELSE <<>>
ExisBody(f, r) == IF F[f].k = "ex" THEN <<F[f].s[1], r>>
                  ELSE IF IsNot(f) /\ F[Arg(f)].k = "all" /\ IsNot(r) THEN <<F[Arg(f)].s[1], Arg(r)>>
                  ELSE <<>>

(* b instantiated to r by removing this quantifier and possibly further ones of kind k *)
RECURSIVE InstMany(_, _, _, _)
InstMany(b, r, k, S) == \/ Functional(FMatch(T, F, b, r, 0))
                        \/ F[b].k = k /\ InstMany(F[b].s[1], r, k, S)

GammaRule(f, e) ==
  /\ Len(e.ch) = 1 /\ Len(e.ch[1].r) = 1
  /\ LET p == UnivBody(f, e.ch[1].r[1])
         k == IF F[f].k = "all" THEN "all" ELSE "ex"
     IN  p # <<>> /\ InstMany(p[1], p[2], k, {})

(***************************************************************************)
(* Existential steps.  The witness t of formula f must be a term whose     *)
(* head symbol is not one of the problem's, which stands on this branch    *)
(* for no other formula, and the dependency order between witnesses (t     *)
(* depends on the witnesses occurring in its formula) must be well         *)
(* founded, so that all witnesses can be chosen one after the other.       *)
(***************************************************************************)
ProblemSyms(C) == Heads(C.T, UNION { FSub(C.T, C.F, C.prob[i]) : i \in 1..Len(C.prob) })

RECURSIVE Reach(_, _)
Reach(W, S) == LET D == { p[1] : p \in { q \in W : \E s \in S : \E r \in W : r[1] = s /\ q[1] \in FSub(T, F, r[2]) } }
               IN  IF D \subseteq S THEN S ELSE Reach(W, S \cup D)
Depends(W, f) == LET D == { p[1] : p \in { q \in W : q[1] \in FSub(T, F, f) } } IN Reach(W, D)

(* Same symbol used for two terms: both formulas must be the same schema applied to the arguments. *)
RECURSIVE TUni(_, _, _, _)
TUni(u, v, x, y) == \/ u = v
                    \/ \E i \in 1..Len(T[x].a) : T[x].a[i] = u /\ T[y].a[i] = v
                    \/ /\ T[u].k = "f" /\ T[v].k = "f" /\ T[u].n = T[v].n /\ Len(T[u].a) = Len(T[v].a) /\ Len(T[u].a) > 0
                       /\ \A i \in 1..Len(T[u].a) : TUni(T[u].a[i], T[v].a[i], x, y)
RECURSIVE FUni(_, _, _, _)
FUni(f, g, x, y) == \/ f = g
                    \/ /\ F[f].k = F[g].k /\ F[f].n = F[g].n /\ Len(F[f].a) = Len(F[g].a) /\ Len(F[f].s) = Len(F[g].s)
                       /\ \A i \in 1..Len(F[f].a) : TUni(F[f].a[i], F[g].a[i], x, y)
                       /\ \A i \in 1..Len(F[f].s) : FUni(F[f].s[i], F[g].s[i], x, y)
Uniform(W, t, f) == \A p \in W : T[p[1]].n = T[t].n =>
                       /\ Len(T[p[1]].a) = Len(T[t].a)
                       /\ FUni(p[2], f, p[1], t)

DeltaWit(f, e) ==
  LET p == ExisBody(f, e.ch[1].r[1]) IN
  IF p = <<>> THEN {0} ELSE Witness(T, F, p[1], p[2])

DeltaOk(f, e, W) ==
  /\ Len(e.ch) = 1 /\ Len(e.ch[1].r) = 1
  /\ LET ws == DeltaWit(f, e) IN
     \/ ws = {}                                       \* vacuous quantifier
     \/ /\ 0 \notin ws /\ Cardinality(ws) = 1
        /\ LET t == CHOOSE t \in ws : TRUE IN
           /\ T[t].k = "f"
           /\ T[t].n \notin ProblemSyms(Cases[c])
           /\ \A p \in W : p[1] = t => p[2] = f
           /\ t \notin FSub(T, F, f)
           /\ t \notin Depends(W \cup {<<t, f>>}, f)
           /\ Uniform(W, t, f)

(***************************************************************************)
(* Rewriting by an axiom taken out of the problem:                         *)
(* forall x (A <=> B) turns a literal matching one side into the other;    *)
(* forall x (A => B) turns A into B and not B into not A.                  *)
(* Negations are compared up to double negation.                           *)
(***************************************************************************)
RECURSIVE Strip(_)
Strip(f) == IF F[f].k = "all" THEN Strip(F[f].s[1]) ELSE f

(* match pattern sp.p (sp a sign: 1 plain, 0 negated) against formula f *)
RECURSIVE LitMatch(_, _, _)
LitMatch(p, neg, f) ==
  IF F[p].k = "not" THEN LitMatch(F[p].s[1], ~neg, f)
  ELSE IF F[p].k = "top" \/ F[p].k = "bot" THEN
     (IF (F[p].k = "top") # neg THEN (IF F[f].k = "top" \/ (IsNot(f) /\ F[Arg(f)].k = "bot") THEN {} ELSE {<<0, 0>>})
      ELSE (IF F[f].k = "bot" \/ (IsNot(f) /\ F[Arg(f)].k = "top") THEN {} ELSE {<<0, 0>>}))
  ELSE IF neg THEN (IF IsNot(f) THEN (IF IsNot(Arg(f)) THEN LitMatch(p, neg, Arg(Arg(f))) ELSE FMatch(T, F, p, Arg(f), 0)) ELSE {<<0, 0>>})
  ELSE IF IsNot(f) /\ IsNot(Arg(f)) THEN LitMatch(p, neg, Arg(Arg(f))) ELSE FMatch(T, F, p, f, 0)

RuleStep(ax, f, g) ==
  LET x == Strip(ax) IN
  \/ /\ F[x].k = "eqv"
     /\ \E i \in 1..2 : \E neg \in BOOLEAN :
          Functional(LitMatch(F[x].s[i], neg, f) \cup LitMatch(F[x].s[3 - i], neg, g))
  \/ /\ F[x].k = "imp"
     /\ \/ Functional(LitMatch(F[x].s[1], FALSE, f) \cup LitMatch(F[x].s[2], FALSE, g))
        \/ Functional(LitMatch(F[x].s[2], TRUE, f) \cup LitMatch(F[x].s[1], TRUE, g))
  \/ (* a literal axiom: its instances are true, their negations false *)
     \/ Functional(LitMatch(x, FALSE, f)) /\ F[g].k = "top"
     \/ Functional(LitMatch(x, TRUE, f)) /\ F[g].k = "bot"
     \/ Functional(LitMatch(x, TRUE, f)) /\ IsNot(g) /\ F[Arg(g)].k = "top"
     \/ Functional(LitMatch(x, FALSE, f)) /\ IsNot(g) /\ F[Arg(g)].k = "bot"

RewriteRule(f, e) ==
  /\ Len(e.ch) = 1 /\ Len(e.ch[1].r) = 1
  /\ \E ax \in Theory(Cases[c]) : RuleStep(ax, f, e.ch[1].r[1])

(***************************************************************************)
(* Closing a branch.                                                       *)
(***************************************************************************)
IsEq(f)   == F[f].k = "pred" /\ F[f].n = "=" /\ Len(F[f].a) = 2
SymEq(f, g) == IsEq(f) /\ IsEq(g) /\ F[f].a[1] = F[g].a[2] /\ F[f].a[2] = F[g].a[1]
Compl(f, g) == NegOf(f, g) \/ NegOf(g, f) \/ (IsNot(f) /\ SymEq(Arg(f), g)) \/ (IsNot(g) /\ SymEq(Arg(g), f))

Absurd(f) == \/ F[f].k = "bot"
             \/ IsNot(f) /\ F[Arg(f)].k = "top"
             \/ IsNot(f) /\ IsEq(Arg(f)) /\ F[Arg(f)].a[1] = F[Arg(f)].a[2]

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

(* the literals of the branch are contradictory modulo its (ground or rigid) equations *)
EqClosed(fs) ==
  LET lits == { f \in fs : F[f].k = "pred" \/ (IsNot(f) /\ F[Arg(f)].k = "pred") }
      ts   == UNION { { t \in FSub(T, F, f) : ~ HasBound(T, t) } : f \in lits }
      eqs  == SetSeq({ <<F[f].a[1], F[f].a[2]>> : f \in { g \in lits : IsEq(g) } })
      rep  == Congruence(T, ts, eqs)
      Atom(f) == IF IsNot(f) THEN Arg(f) ELSE f
      Same(f, g) == /\ F[f].n = F[g].n /\ Len(F[f].a) = Len(F[g].a)
                    /\ \A i \in 1..Len(F[f].a) : rep[F[f].a[i]] = rep[F[g].a[i]]
  IN  \/ \E f \in lits : IsNot(f) /\ IsEq(Arg(f)) /\ rep[F[Arg(f)].a[1]] = rep[F[Arg(f)].a[2]]
      \/ \E f \in lits : \E g \in lits : IsNot(f) /\ ~ IsNot(g) /\ Same(Arg(f), g)

Closed(f, fs) ==
  \/ Absurd(f) /\ f \in fs
  \/ f \in fs /\ \E g \in fs : Compl(f, g)
  \/ F[f].k = "pred" /\ F[f].n = "=" /\ Len(F[f].a) # 2 /\ EqClosed(fs)
  \/ f \in fs /\ Cases[c].eq /\ EqClosed(fs)

(***************************************************************************)
(* The steps.                                                              *)
(***************************************************************************)
Family(rule) == LET S == SubSeq(rule, 1, 5) IN S

ReintroOk(f, e) == Len(e.ch) = 1 /\ Added(e, 1) = {f}

StepOk(e) ==
  LET f == e.f  br == open[e.b] IN
  CASE e.rule = "close"   -> Len(e.ch) = 0 /\ Closed(f, br.fs)
    [] e.rule = "alpha"   -> f \in br.fs /\ AlphaRule(f, e)
    [] e.rule = "beta"    -> f \in br.fs /\ BetaRule(f, e)
    [] e.rule = "gamma"   -> f \in br.fs /\ GammaRule(f, e)
    [] e.rule = "delta"   -> f \in br.fs /\ DeltaOk(f, e, br.w)
    [] e.rule = "reintro" -> f \in br.fs /\ ReintroOk(f, e)
    [] e.rule = "rewrite" -> f \in br.fs /\ RewriteRule(f, e)
    [] OTHER -> FALSE

NewWit(e) == IF e.rule = "delta" THEN { <<t, e.f>> : t \in DeltaWit(e.f, e) } ELSE {}

Step ==
  /\ l >= 1 /\ l <= Len(Cases[c].ev) /\ bad = ""
  /\ c' = c /\ l' = l + 1
  /\ IF E.b \in DOMAIN open /\ StepOk(E)
     THEN /\ LET br == open[E.b]
                 kids == { E.ch[i].b : i \in 1..Len(E.ch) }
                 Rest == DOMAIN open \ {E.b}
             IN  /\ Assert(kids \cap Rest = {}, "branch numbering")
                 /\ open' = [ b \in Rest \cup kids |->
                       IF b \in kids
                       THEN LET i == CHOOSE i \in 1..Len(E.ch) : E.ch[i].b = b
                            IN  [fs |-> br.fs \cup Added(E, i), w |-> br.w \cup NewWit(E)]
                       ELSE open[b] ]
          /\ bad' = bad
     ELSE /\ open' = open
          /\ bad' = E.rule
          /\ PrintT(<<"REJECT", Cases[c].id, "step " \o ToString(l) \o " " \o E.rule>>)

Finish ==
  /\ bad = "" /\ l = Len(Cases[c].ev) + 1
  /\ l' = l + 1 /\ c' = c /\ open' = open
  /\ IF DOMAIN open = {} THEN bad' = bad
     ELSE bad' = "open" /\ PrintT(<<"REJECT", Cases[c].id, "branches left open">>)

RejectRoot == /\ bad = "root" /\ l = 1
              /\ l' = l + 1 /\ UNCHANGED <<c, open>>
              /\ bad' = "done"
              /\ PrintT(<<"REJECT", Cases[c].id, "the root is not the problem">>)

Next == Start \/ Step \/ Finish \/ RejectRoot

Spec == Init /\ [][Next]_vars
=============================================================================
