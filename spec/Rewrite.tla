------------------------------ MODULE Rewrite ------------------------------
(***************************************************************************)
(* Deduction modulo theory: which axioms may become rewrite rules, and     *)
(* what a rewrite step may do to a literal (package dmt).                  *)
(*                                                                         *)
(* State: the axioms accepted so far.  The rules are determined by them;   *)
(* using the rules does not change them.                                   *)
(*                                                                         *)
(* case: [id, T, F, pol, ev], ev : Seq of                                  *)
(*   reg f ok          axiom f offered; accepted or not                    *)
(*   rw  l out same    literal l rewritten; out : Seq of [fail, s, inst, r]*)
(*                     s : Seq(<<metavariable, term>>), inst : the literal *)
(*                     under s (computed by the recorder, checked here),   *)
(*                     r : the replacing formula                           *)
(***************************************************************************)
EXTENDS FOL, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.GV_CASES)

VARIABLES c, l, theory, bad
vars == <<c, l, theory, bad>>

Ev == Cases[c].ev
T == Cases[c].T
F == Cases[c].F
Pol == Cases[c].pol

Init == c \in 1..Len(Cases) /\ l = 1 /\ theory = {} /\ bad = ""

RECURSIVE Body(_)
Body(f) == IF F[f].k = "all" THEN Body(F[f].s[1]) ELSE f

(* the quantified variables that occur in a term or formula, d binders down *)
RECURSIVE TFree(_, _), FFree(_, _)
TFree(t, d) == (IF T[t].k = "b" /\ T[t].i >= d THEN {T[t].i - d} ELSE {})
               \cup UNION { TFree(T[t].a[i], d) : i \in 1..Len(T[t].a) }
FFree(f, d) == LET dd == IF F[f].k \in {"all", "ex"} THEN d + 1 ELSE d IN
               UNION { TFree(F[f].a[i], d) : i \in 1..Len(F[f].a) } \cup UNION { FFree(F[f].s[i], dd) : i \in 1..Len(F[f].s) }

Literal(f) == F[f].k = "pred" \/ (F[f].k = "not" /\ F[F[f].s[1]].k = "pred")
Pos0(f) == F[f].k = "pred"
Atom(f) == IF Pos0(f) THEN f ELSE F[f].s[1]

(* a literal, the formula replacing it and whether that formula is negated; usable when the literal determines the instance *)
Usable(a, x) == Literal(a) /\ F[Atom(a)].n # "=" /\ FFree(x, 0) \subseteq FFree(Atom(a), 0)
FromEqv(a, x) == IF ~ Usable(a, x) THEN {}
                 ELSE { [a |-> Atom(a), pos |-> p, c |-> x, neg |-> IF p = Pos0(a) THEN 0 ELSE 1] : p \in BOOLEAN }
FromImp(a, x) == (IF Usable(a, x) THEN { [a |-> Atom(a), pos |-> Pos0(a), c |-> x, neg |-> 0] } ELSE {})
                 \cup (IF Usable(x, a) THEN { [a |-> Atom(x), pos |-> ~ Pos0(x), c |-> a, neg |-> 1] } ELSE {})

Rules(ax) == LET b == F[Body(ax)] IN
  CASE b.k = "eqv" -> FromEqv(b.s[1], b.s[2]) \cup FromEqv(b.s[2], b.s[1])
    [] b.k = "imp" /\ Pol -> FromImp(b.s[1], b.s[2])
    [] OTHER -> {}

AllRules == UNION { Rules(ax) : ax \in theory }

(* by rule r, the literal with atom a and sign p is equivalent (implies, when polarized) to x *)
Gives(r, a, p, x) ==
  /\ r.pos = p
  /\ Parity(F, x) = (Parity(F, r.c) + r.neg) % 2
  /\ Functional(FMatch(T, F, r.a, a, 0) \cup FMatch(T, F, Core(F, r.c), Core(F, x), 0))

Applies(r, a, p) == r.pos = p /\ Functional(FMatch(T, F, r.a, a, 0))

BadRw(e) ==
  IF ~ e.same THEN "the literal itself has changed"
  ELSE IF e.out = <<>> THEN "no answer at all"
  ELSE IF \E i \in 1..Len(e.out) : e.out[i].fail /\ (Len(e.out) # 1 \/ e.out[i].r # e.l) THEN "a literal that is not rewritten is not left unchanged"
  ELSE IF \E i \in 1..Len(e.out) : ~ e.out[i].fail /\ ~ (LET o == e.out[i] IN
              /\ FSubst(T, F, o.s, e.l, o.inst)
              /\ \E r \in AllRules : Gives(r, Atom(o.inst), Pos0(e.l), o.r))
       THEN "the replacing formula does not follow from the literal by a rule"
  ELSE IF \E r \in AllRules : Applies(r, Atom(e.l), Pos0(e.l)) /\ ~ \E i \in 1..Len(e.out) :
              LET o == e.out[i] IN ~ o.fail /\ o.s = <<>> /\ Gives(r, Atom(e.l), Pos0(e.l), o.r)
       THEN "a rule whose atom matches the literal is not used"
  ELSE ""

Verdict(e) ==
  IF e.op = "reg" THEN (IF e.ok /\ Rules(e.f) = {} THEN "an axiom is accepted that gives no rule" ELSE "")
  ELSE BadRw(e)

Next ==
  /\ bad = "" /\ l <= Len(Ev)
  /\ LET e == Ev[l]  why == Verdict(e) IN
     /\ bad' = why
     /\ why # "" => PrintT(<<"REJECT", Cases[c].id, ToString(l), why>>)
     /\ theory' = IF e.op = "reg" /\ e.ok THEN theory \cup {e.f} ELSE theory
  /\ l' = l + 1 /\ UNCHANGED c

Spec == Init /\ [][Next]_vars
=============================================================================
