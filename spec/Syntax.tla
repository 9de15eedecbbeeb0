------------------------------ MODULE Syntax ------------------------------
(***************************************************************************)
(* Formulas as objects with a history: substitution, renaming, inspection, *)
(* instantiation and Skolemization (packages AST and Core).                *)
(*                                                                         *)
(* State: the registers -- every formula made so far in the case, as an    *)
(* index into the table F, so that alpha-equivalent formulas are equal --  *)
(* and the Skolem terms introduced so far, each with the formula it stands *)
(* for.  Free variables are terms with k = "v", metavariables k = "m".     *)
(*                                                                         *)
(* case: [id, T, F, ev], ev : Seq of [op, same, ...] (same: every earlier  *)
(* register still reads as it did when it was made)                        *)
(*   mk f                   register := f (as requested)                   *)
(*   sub i th r             register i under the substitution              *)
(*                          th : Seq(<<meta or variable, term>>), giving r *)
(*   alpha i r              renaming of bound variables, or copy           *)
(*   neg i r                simplification of leading negations            *)
(*   eq i j ok rev          comparison of two registers, both ways         *)
(*   metas i ms             metavariables reported                         *)
(*   terms i ts             subterms reported                              *)
(*   inst i r ms ty         instantiation by a new metavariable (ty: of a   *)
(*                          type variable: no metavariable of the branch)  *)
(*   sko i r                Skolemization                                  *)
(***************************************************************************)
EXTENDS FOL, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.GV_CASES)

VARIABLES c, l, regs, wit, bad
vars == <<c, l, regs, wit, bad>>

Ev == Cases[c].ev
T == Cases[c].T
F == Cases[c].F

Init == c \in 1..Len(Cases) /\ l = 1 /\ regs = <<>> /\ wit = {} /\ bad = ""

IsNot(f) == F[f].k = "not"
Arg(f) == F[f].s[1]

Closed(t) == \A u \in Sub(T, t) : T[u].k \notin {"b", "v"}
Metas(f) == { t \in FSub(T, F, f) : T[t].k = "m" }
(* a type never contains a term: Skolem terms need not depend on type metavariables (i = 1) *)
TermMetas(f) == { t \in Metas(f) : T[t].i = 0 }
Symbols(f) == Heads(T, FSub(T, F, f))

(***************************************************************************)
(* Quantified formulas, seen through a negation.                           *)
(***************************************************************************)
Univ(f, r) == IF F[f].k = "all" THEN <<F[f].s[1], r>>
              ELSE IF IsNot(f) /\ F[Arg(f)].k = "ex" /\ IsNot(r) THEN <<F[Arg(f)].s[1], Arg(r)>>
              ELSE <<>>
Exis(f, r) == IF F[f].k = "ex" THEN <<F[f].s[1], r>>
              ELSE IF IsNot(f) /\ F[Arg(f)].k = "all" /\ IsNot(r) THEN <<F[Arg(f)].s[1], Arg(r)>>
              ELSE <<>>

BadInst(f, r, ms, ty) ==
  LET p == Univ(f, r) IN
  IF p = <<>> THEN "the result does not have the shape of an instance"
  ELSE LET w == Witness(T, F, p[1], p[2]) IN
       IF w = {} THEN ""
       ELSE IF 0 \in w \/ Cardinality(w) # 1 THEN "the result is not an instance of the formula"
       ELSE LET m == CHOOSE m \in w : TRUE IN
            IF T[m].k # "m" \/ (T[m].i = 1) # ty THEN "the instance is not by a metavariable"
            ELSE IF \E i \in 1..Len(regs) : m \in Metas(regs[i]) THEN "the metavariable is not new"
            ELSE IF Range(ms) # (IF ty THEN {} ELSE {m}) THEN "another metavariable is reported"
            ELSE ""

(* two formulas that are the same schema, applied to the arguments of x and of y *)
RECURSIVE TUni(_, _, _, _)
TUni(u, v, x, y) == \/ u = v
                    \/ \E i \in 1..Len(T[x].a) : T[x].a[i] = u /\ T[y].a[i] = v
                    \/ /\ T[u].k = "f" /\ T[v].k = "f" /\ T[u].n = T[v].n /\ Len(T[u].a) = Len(T[v].a) /\ Len(T[u].a) > 0
                       /\ \A i \in 1..Len(T[u].a) : TUni(T[u].a[i], T[v].a[i], x, y)
RECURSIVE FUni(_, _, _, _)
FUni(f, g, x, y) == \/ f = g
                    \/ /\ F[f].k = F[g].k /\ F[f].n = F[g].n /\ Len(F[f].a) = Len(F[g].a) /\ Len(F[f].s) = Len(F[g].s)
                       /\ \A i \in 1..Len(F[f].a) : TUni(F[f].a[i], F[g].a[i], x, y)
                       /\ \A i \in 1..Len(F[f].s) : FUni(F[f].s[i], F[g].s[i], x, y)

SkoWit(f, r) == LET p == Exis(f, r) IN IF p = <<>> THEN {0} ELSE Witness(T, F, p[1], p[2])

BadSko(f, r) ==
  LET w == SkoWit(f, r) IN
  IF w = {} THEN ""
  ELSE IF 0 \in w \/ Cardinality(w) # 1 THEN "the result is not an instance of the formula"
  ELSE LET t == CHOOSE t \in w : TRUE
           users == { p \in wit : T[p[1]].n = T[t].n }
       IN IF T[t].k # "f" THEN "the witness is not an application of a symbol"
          ELSE IF ~ (TermMetas(f) \subseteq Range(T[t].a)) THEN "the Skolem term does not depend on every metavariable of its formula"
          ELSE IF users = {} /\ \E i \in 1..Len(regs) : T[t].n \in Symbols(regs[i]) THEN "the Skolem symbol is not new"
          ELSE IF \E p \in users : Len(T[p[1]].a) # Len(T[t].a) \/ ~ FUni(p[2], f, p[1], t)
               THEN "the Skolem symbol stands for two different formulas"
          ELSE ""

(***************************************************************************)
(* Behaviour.                                                              *)
(***************************************************************************)
Verdict(e) ==
  IF ~ e.same THEN "an earlier formula has changed"
  ELSE CASE e.op = "mk"    -> IF e.r = e.f THEN "" ELSE "the formula built is not the one described"
         [] e.op = "sub"   -> IF FSubst(T, F, e.th, regs[e.i], e.r) THEN "" ELSE "the substitution is not applied to exactly the free occurrences"
         [] e.op = "alpha" -> IF e.r = regs[e.i] THEN "" ELSE "the copy or renaming is a different formula"
         [] e.op = "neg"   -> IF Core(F, e.r) # Core(F, regs[e.i]) \/ Parity(F, e.r) # Parity(F, regs[e.i]) THEN "another formula"
                              ELSE IF IsNot(e.r) /\ IsNot(Arg(e.r)) THEN "a double negation is left" ELSE ""
         [] e.op = "eq"    -> IF e.ok # e.rev THEN "the comparison is not symmetric"
                              ELSE IF e.ok /\ regs[e.i] # regs[e.j] THEN "two different formulas compare equal"
                              ELSE IF ~ e.ok /\ e.ident THEN "identical formulas compare different" ELSE ""
         [] e.op = "metas" -> IF Range(e.ms) = Metas(regs[e.i]) THEN "" ELSE "not the metavariables that occur"
         [] e.op = "terms" -> IF { t \in Range(e.ts) : Closed(t) } = { t \in FSub(T, F, regs[e.i]) : Closed(t) } THEN ""
                              ELSE "not the subterms that occur"
         [] e.op = "inst"  -> BadInst(regs[e.i], e.r, e.ms, e.ty)
         [] e.op = "sko"   -> BadSko(regs[e.i], e.r)

Makes(e) == e.op \in {"mk", "sub", "alpha", "neg", "inst", "sko"}

Next ==
  /\ bad = "" /\ l <= Len(Ev)
  /\ LET e == Ev[l]  why == Verdict(e) IN
     /\ bad' = why
     /\ why # "" => PrintT(<<"REJECT", Cases[c].id, ToString(l), why>>)
     /\ regs' = IF Makes(e) THEN Append(regs, e.r) ELSE regs
     /\ wit' = IF e.op = "sko" /\ why = "" THEN wit \cup { <<t, regs[e.i]>> : t \in SkoWit(regs[e.i], e.r) } ELSE wit
  /\ l' = l + 1 /\ UNCHANGED c

Spec == Init /\ [][Next]_vars
=============================================================================
