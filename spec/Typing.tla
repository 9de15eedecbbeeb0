------------------------------- MODULE Typing -------------------------------
(***************************************************************************)
(* When a problem of typed first-order logic (TFF with rank-1              *)
(* polymorphism and arithmetic) is well typed.  The state is a checker at   *)
(* work: one step reads one statement; a declaration extends the           *)
(* signature, a formula is judged against it.  At the end the verdict is   *)
(* compared with what runs of the prover did with the problem.             *)
(*                                                                         *)
(* case: [id, stmts : Seq(stmt), runs : Seq([m, acc : BOOLEAN])]           *)
(* stmt: [k : "decl", n, ps : Seq(STRING), as : Seq(type), r : type]       *)
(*       [k : "form", f : node]                                            *)
(* type: [k : "c", n, as : Seq(type)] or [k : "v", n, as : <<>>]           *)
(* node: [k, n, vs : Seq([n, t : type]), as : Seq(node)], with k in        *)
(*       not and or imp eqv all ex top bot eq app (predicate) for formulas *)
(*       and var app num (n is $int, $rat or $real) for terms.             *)
(* Arguments are those of the text: the type arguments of a polymorphic    *)
(* symbol come first, and look like terms.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

C(n, as) == [k |-> "c", n |-> n, as |-> as]
V(n) == [k |-> "v", n |-> n, as |-> <<>>]
TType == C("$tType", <<>>)
Prop == C("$o", <<>>)
Ind == C("$i", <<>>)
None == C("", <<>>)                        \* no type: the term is ill typed
Numeric == { C("$int", <<>>), C("$rat", <<>>), C("$real", <<>>) }

Scheme(ps, as, r) == [ps |-> ps, as |-> as, r |-> r]
Native == [ n \in {"$i", "$int", "$rat", "$real"} |-> Scheme(<<>>, <<>>, TType) ]

Binary == {"$sum", "$difference", "$product", "$quotient", "$quotient_e", "$quotient_t", "$quotient_f",
           "$remainder_e", "$remainder_t", "$remainder_f"}
Unary == {"$uminus", "$floor", "$ceiling", "$truncate", "$round"}
Conversion == [ n \in {"$to_int", "$to_rat", "$to_real"} |->
                  CASE n = "$to_int" -> C("$int", <<>>) [] n = "$to_rat" -> C("$rat", <<>>) [] n = "$to_real" -> C("$real", <<>>) ]
Comparison == {"$less", "$lesseq", "$greater", "$greatereq"}
Test == {"$is_int", "$is_rat"}
Defined == Binary \cup Unary \cup DOMAIN Conversion \cup Comparison \cup Test

(***************************************************************************)
(* Contexts: sequences of [n, t]; the innermost variable of a name hides   *)
(* the others.                                                             *)
(***************************************************************************)
RECURSIVE Look(_, _)
Look(x, n) == IF x = <<>> THEN None
              ELSE IF x[Len(x)].n = n THEN x[Len(x)].t
              ELSE Look(SubSeq(x, 1, Len(x) - 1), n)

RECURSIVE Inst(_, _, _)
Inst(t, ps, tys) ==
  IF t.k = "v" THEN IF \E i \in 1..Len(ps) : ps[i] = t.n THEN tys[CHOOSE i \in 1..Len(ps) : ps[i] = t.n] ELSE t
  ELSE C(t.n, [ i \in 1..Len(t.as) |-> Inst(t.as[i], ps, tys) ])

(* A type whose variables are all in the context and whose constructors are declared with that many parameters *)
RECURSIVE Wf(_, _, _)
Wf(sig, x, t) ==
  IF t.k = "v" THEN Look(x, t.n) = TType
  ELSE /\ t.n \in DOMAIN sig
       /\ sig[t.n].r = TType
       /\ Len(sig[t.n].as) = Len(t.as)
       /\ \A i \in 1..Len(t.as) : Wf(sig, x, t.as[i])

(* A term read as a type *)
RECURSIVE AsType(_)
AsType(t) == CASE t.k = "var" -> V(t.n)
               [] t.k = "app" -> C(t.n, [ i \in 1..Len(t.as) |-> AsType(t.as[i]) ])
               [] OTHER -> None

(* Integer constants are accepted among rationals: $lesseq($quotient(2, 2), 1) *)
IntegerConstant(ty, t) == ty = C("$int", <<>>) /\ t.k # "var" /\ t.as = <<>>

(* The type of a term; for a predicate applied to arguments, $o.  None when it has none. dflt is the type of the
   results of undeclared symbols where the term stands. *)
RECURSIVE TypeOf(_, _, _, _)
TypeOf(sig, x, t, dflt) ==
  LET ty(i) == TypeOf(sig, x, t.as[i], Ind)
      n == Len(t.as)
  IN
  CASE t.k = "var" -> LET w == Look(x, t.n) IN IF w = TType THEN None ELSE w
    [] t.k = "num" -> C(t.n, <<>>)
    [] t.k = "app" /\ t.n \in Defined ->
         IF t.n \in Binary \cup Comparison
         THEN IF n # 2 THEN None
              ELSE IF ty(1) \notin Numeric THEN None
              ELSE IF ~ (ty(2) = ty(1) \/ (ty(1) = C("$rat", <<>>) /\ IntegerConstant(ty(2), t.as[2]))) THEN None
              ELSE IF t.n \in Comparison THEN Prop
              ELSE IF t.n = "$quotient" /\ ty(1) = C("$int", <<>>) THEN C("$rat", <<>>)
              ELSE ty(1)
         ELSE IF n # 1 THEN None
              ELSE IF ty(1) \notin Numeric THEN None
              ELSE IF t.n \in Test THEN Prop
              ELSE IF t.n \in Unary THEN ty(1)
              ELSE Conversion[t.n]
    [] t.k = "app" /\ t.n \in DOMAIN sig ->
         LET s == sig[t.n]
             p == Len(s.ps)
             tys == [ i \in 1..p |-> AsType(t.as[i]) ]
         IN IF n # p + Len(s.as) \/ s.r = TType THEN None
            ELSE IF \E i \in 1..p : ~ Wf(sig, x, tys[i]) THEN None
            ELSE IF \E i \in 1..Len(s.as) : ty(p + i) # Inst(s.as[i], s.ps, tys) THEN None
            ELSE Inst(s.r, s.ps, tys)
    [] t.k = "app" ->
         IF \A i \in 1..n : ty(i) = Ind THEN dflt ELSE None
    [] OTHER -> None

RECURSIVE Ok(_, _, _)
Ok(sig, x, f) ==
  CASE f.k \in {"top", "bot"} -> TRUE
    [] f.k \in {"not", "and", "or", "imp", "eqv"} -> \A i \in 1..Len(f.as) : Ok(sig, x, f.as[i])
    [] f.k = "eq" -> LET a == TypeOf(sig, x, f.as[1], Ind) b == TypeOf(sig, x, f.as[2], Ind)
                     IN a = b /\ a \notin {None, Prop}
    [] f.k = "app" -> TypeOf(sig, x, f, Prop) = Prop
    [] f.k \in {"all", "ex"} ->
         IF f.vs = <<>> THEN Ok(sig, x, f.as[1])
         ELSE LET v == f.vs[1] IN
              /\ v.t = TType \/ Wf(sig, x, v.t)
              /\ Ok(sig, Append(x, v), [f EXCEPT !.vs = Tail(f.vs)])
    [] OTHER -> FALSE

(* What the specification does not decide: an existential quantifier over types, and a variable that hides a type
   variable. *)
RECURSIVE Beyond(_, _)
Beyond(tvs, f) ==
  CASE f.k \in {"not", "and", "or", "imp", "eqv"} -> \E i \in 1..Len(f.as) : Beyond(tvs, f.as[i])
    [] f.k \in {"all", "ex"} ->
         LET new == { f.vs[i].n : i \in { j \in 1..Len(f.vs) : f.vs[j].t = TType } } IN
         \/ f.k = "ex" /\ new # {}
         \/ \E i \in 1..Len(f.vs) : f.vs[i].n \in tvs
         \/ \E i, j \in 1..Len(f.vs) : i # j /\ f.vs[i].n = f.vs[j].n /\ f.vs[i].t = TType
         \/ Beyond(tvs \cup new, f.as[1])
    [] OTHER -> FALSE

(* An untyped problem is not checked *)
RECURSIVE Typed(_)
Typed(f) ==
  CASE f.k \in {"not", "and", "or", "imp", "eqv"} -> \E i \in 1..Len(f.as) : Typed(f.as[i])
    [] f.k \in {"all", "ex"} -> Typed(f.as[1]) \/ \E i \in 1..Len(f.vs) : f.vs[i].t # Ind
    [] OTHER -> FALSE
=============================================================================
