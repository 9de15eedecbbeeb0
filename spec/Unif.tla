------------------------------- MODULE Unif -------------------------------
(***************************************************************************)
(* Unification and the literal index (package Unif).                       *)
(*                                                                         *)
(* State: the trees created so far, each a set of stored formulas.  A      *)
(* behaviour is the sequence of operations of one case on the real index;  *)
(* every answer is judged against the most general unifier computed here   *)
(* (Robinson's algorithm with occurs check, as a triangular substitution), *)
(* and against the content the tree must have at that point.               *)
(*                                                                         *)
(* Atoms are terms (the predicate is the head symbol).  T is the table of  *)
(* FOL.tla; metavariables have k = "m".                                    *)
(* case: [id, T, ev], ev : Seq of                                          *)
(*   [op "new", t]              a new, empty tree                          *)
(*   [op "mk", t, fs, pos]      a new tree holding the atoms of the        *)
(*                              literals fs : Seq([f, neg]) of that sign   *)
(*   [op "ins", t, fs]          insertion of literals, whatever their sign *)
(*   [op "copy", t, u]          u becomes an independent copy of t         *)
(*   [op "look", t, q, ok, res : Seq([f, s : Seq(<<meta, term>>)])]        *)
(*   [op "solve", eqs : Seq(<<x, y>>), ok, s]   AddUnification, Merge...   *)
(*   [op "rest", s0, mm, s]     restriction of s0 to the metavariables mm  *)
(***************************************************************************)
EXTENDS FOL, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.GV_CASES)

IsMeta(T, t) == T[t].k = "m"

(* th: a function from metavariables to terms, acyclic *)
RECURSIVE Walk(_, _, _)
Walk(T, th, t) == IF IsMeta(T, t) /\ t \in DOMAIN th THEN Walk(T, th, th[t]) ELSE t

RECURSIVE Occurs(_, _, _, _)
Occurs(T, th, m, t) ==
  LET u == Walk(T, th, t) IN
  u = m \/ \E i \in 1..Len(T[u].a) : Occurs(T, th, m, T[u].a[i])

RECURSIVE SameUnder(_, _, _, _)
SameUnder(T, th, x, y) ==
  LET u == Walk(T, th, x)  v == Walk(T, th, y) IN
  \/ u = v
  \/ /\ T[u].k = "f" /\ T[v].k = "f" /\ T[u].n = T[v].n /\ Len(T[u].a) = Len(T[v].a)
     /\ \A i \in 1..Len(T[u].a) : SameUnder(T, th, T[u].a[i], T[v].a[i])

NoSolution == [ok |-> FALSE, th |-> <<>>]

RECURSIVE Solve(_, _, _)
Solve(T, eqs, th) ==
  IF eqs = <<>> THEN [ok |-> TRUE, th |-> th]
  ELSE LET u == Walk(T, th, Head(eqs)[1])  v == Walk(T, th, Head(eqs)[2])  rest == Tail(eqs) IN
       IF u = v THEN Solve(T, rest, th)
       ELSE IF IsMeta(T, u) THEN (IF Occurs(T, th, u, v) THEN NoSolution ELSE Solve(T, rest, (u :> v) @@ th))
       ELSE IF IsMeta(T, v) THEN (IF Occurs(T, th, v, u) THEN NoSolution ELSE Solve(T, rest, (v :> u) @@ th))
       ELSE IF T[u].n # T[v].n \/ Len(T[u].a) # Len(T[v].a) THEN NoSolution
       ELSE Solve(T, [ i \in 1..Len(T[u].a) |-> <<T[u].a[i], T[v].a[i]>> ] \o rest, th)

Mgu(T, eqs) == Solve(T, eqs, <<>>)

(***************************************************************************)
(* What a reported substitution has to be: a solved form (distinct keys,   *)
(* no key inside a value) that makes the equations equal and is no more    *)
(* specific than necessary.                                                *)
(***************************************************************************)
AsFun(s) == [ m \in { s[i][1] : i \in 1..Len(s) } |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = m][2] ]

SolvedForm(T, s) ==
  /\ \A i \in 1..Len(s) : IsMeta(T, s[i][1])
  /\ \A i, j \in 1..Len(s) : i # j => s[i][1] # s[j][1]
  /\ \A i, j \in 1..Len(s) : s[i][1] \notin Sub(T, s[j][2])

BadAnswer(T, eqs, ok, s) ==
  LET m == Mgu(T, eqs) IN
  IF ok # m.ok THEN (IF ok THEN "succeeds on terms that have no unifier" ELSE "fails on unifiable terms")
  ELSE IF ~ ok THEN ""
  ELSE IF ~ SolvedForm(T, s) THEN "the substitution is not in solved form"
  ELSE IF ~ \A i \in 1..Len(eqs) : SameUnder(T, AsFun(s), eqs[i][1], eqs[i][2]) THEN "the substitution does not unify"
  ELSE IF ~ \A i \in 1..Len(s) : SameUnder(T, m.th, s[i][1], s[i][2]) THEN "the substitution is not most general"
  ELSE ""

(***************************************************************************)
(* Restriction of a solved form s0 to the metavariables mm: what is left   *)
(* says exactly what s0 says about mm.  Metavariables outside mm are       *)
(* existential: for any two terms over mm, s0 equates them iff s does.     *)
(* It is enough to compare, for the metavariables of mm, the (in)equality  *)
(* and the shape of their images up to a renaming of local metavariables.  *)
(***************************************************************************)
RECURSIVE Ren(_, _, _, _, _, _)
(* a renaming (function) taking the image of x under th1 to the image of y under th2, extending r, or {} x failure *)
Ren(T, th1, th2, x, y, r) ==
  IF ~ r.ok THEN r
  ELSE LET u == Walk(T, th1, x)  v == Walk(T, th2, y) IN
       IF IsMeta(T, u) # IsMeta(T, v) THEN [ok |-> FALSE, p |-> {}]
       ELSE IF IsMeta(T, u)
            THEN IF \E p \in r.p : (p[1] = u) # (p[2] = v) THEN [ok |-> FALSE, p |-> {}]
                 ELSE [ok |-> TRUE, p |-> r.p \cup {<<u, v>>}]
       ELSE IF T[u].n # T[v].n \/ Len(T[u].a) # Len(T[v].a) THEN [ok |-> FALSE, p |-> {}]
       ELSE LET f[i \in 0..Len(T[u].a)] == IF i = 0 THEN r ELSE Ren(T, th1, th2, T[u].a[i], T[v].a[i], f[i - 1])
            IN f[Len(T[u].a)]

BadRestriction(T, s0, mm, s) ==
  IF ~ SolvedForm(T, s) THEN "the restriction is not in solved form"
  ELSE LET f[i \in 0..Len(mm)] == IF i = 0 THEN [ok |-> TRUE, p |-> {}] ELSE Ren(T, AsFun(s0), AsFun(s), mm[i], mm[i], f[i - 1])
       IN IF ~ f[Len(mm)].ok THEN "the restriction does not say the same of the metavariables kept"
          ELSE ""

(***************************************************************************)
(* The index.                                                              *)
(***************************************************************************)
VARIABLES c, l, trees, bad
vars == <<c, l, trees, bad>>

Ev == Cases[c].ev
Init == c \in 1..Len(Cases) /\ l = 1 /\ trees = <<>> /\ bad = ""

BadLook(T, e) ==
  LET stored == trees[e.t]
      want == { f \in stored : Mgu(T, <<<<f, e.q>>>>).ok }
      got == { e.res[i].f : i \in 1..Len(e.res) }
  IN IF got \ stored # {} THEN "returns a formula that was never stored in this tree"
     ELSE IF got \ want # {} THEN "returns a formula that does not unify with the query"
     ELSE IF want \ got # {} THEN "misses a stored formula that unifies with the query"
     ELSE IF want # {} /\ ~ e.ok THEN "reports failure although formulas unify"
     ELSE LET w == { BadAnswer(T, <<<<e.res[i].f, e.q>>>>, TRUE, e.res[i].s) : i \in 1..Len(e.res) } \ {""}
          IN IF w = {} THEN "" ELSE CHOOSE x \in w : TRUE

Check(why) == bad' = why /\ (why # "" => PrintT(<<"REJECT", Cases[c].id, ToString(l), why>>))

Next ==
  /\ bad = "" /\ l <= Len(Ev)
  /\ LET e == Ev[l]  T == Cases[c].T IN
     CASE e.op = "new"   -> trees' = (e.t :> {}) @@ trees /\ Check("")
       [] e.op = "mk"    -> trees' = (e.t :> { x.f : x \in { y \in Range(e.fs) : y.neg # e.pos } }) @@ trees /\ Check("")
       [] e.op = "ins"   -> trees' = (e.t :> (trees[e.t] \cup { x.f : x \in Range(e.fs) })) @@ trees /\ Check("")
       [] e.op = "copy"  -> trees' = (e.u :> trees[e.t]) @@ trees /\ Check("")
       [] e.op = "look"  -> UNCHANGED trees /\ Check(BadLook(T, e))
       [] e.op = "solve" -> UNCHANGED trees /\ Check(BadAnswer(T, e.eqs, e.ok, e.s))
       [] e.op = "rest"  -> UNCHANGED trees /\ Check(BadRestriction(T, e.s0, e.mm, e.s))
  /\ l' = l + 1 /\ UNCHANGED c

Spec == Init /\ [][Next]_vars
=============================================================================
