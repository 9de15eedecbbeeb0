----------------------------- MODULE TypingGen ------------------------------
(***************************************************************************)
(* Every closed or open formula made of a prefix of up to two quantified    *)
(* variables and one atom over a small polymorphic signature: the inputs   *)
(* replayed into the prover.  The properties of the judgement itself are   *)
(* checked on the way: a type never depends on declarations that are not    *)
(* used, and replacing a variable by a term of its type preserves types.   *)
(***************************************************************************)
EXTENDS Typing, TLC, Json, IOUtils

T1 == C("t1", <<>>)
T2 == C("t2", <<>>)
L(t) == C("list", <<t>>)
Sig == Native @@ ( "t1" :> Scheme(<<>>, <<>>, TType) @@ "t2" :> Scheme(<<>>, <<>>, TType)
       @@ "list" :> Scheme(<<>>, <<TType>>, TType)
       @@ "a" :> Scheme(<<>>, <<>>, T1) @@ "b" :> Scheme(<<>>, <<>>, T2)
       @@ "f" :> Scheme(<<>>, <<T1>>, T2)
       @@ "n" :> Scheme(<<"P">>, <<>>, L(V("P")))
       @@ "h" :> Scheme(<<"P">>, <<V("P")>>, L(V("P")))
       @@ "p" :> Scheme(<<>>, <<T1>>, Prop)
       @@ "r" :> Scheme(<<"P">>, <<V("P"), V("P")>>, Prop) )
More == Sig @@ ("zz" :> Scheme(<<>>, <<>>, T1))

Nd(k, n, vs, as) == [k |-> k, n |-> n, vs |-> vs, as |-> as]
X(n) == Nd("var", n, <<>>, <<>>)
A(n, as) == Nd("app", n, <<>>, as)

Vs == { [n |-> "X", t |-> T1], [n |-> "X", t |-> T2], [n |-> "Y", t |-> T1], [n |-> "A", t |-> TType],
        [n |-> "X", t |-> V("A")], [n |-> "X", t |-> L(T1)], [n |-> "Y", t |-> C("list", <<>>)] }
Leaves == { X("X"), X("Y"), A("a", <<>>), A("b", <<>>) }
Tys == { A("t1", <<>>), X("A"), A("list", <<A("t1", <<>>)>>) }
Terms == Leaves \cup { A("f", <<u>>) : u \in Leaves } \cup { A("n", <<w>>) : w \in Tys }
         \cup { A("h", <<w, u>>) : w \in Tys \ {X("Y")}, u \in Leaves } \cup { A("f", <<>>), A("a", <<X("X")>>) }
Atoms == { A("p", <<u>>) : u \in Terms } \cup { Nd("eq", "", <<>>, <<u, w>>) : u, w \in Terms }
         \cup { A("r", <<w, u, z>>) : w \in Tys, u \in Terms, z \in Leaves \cup { A("n", <<A("t1", <<>>)>>) } }
         \cup { A("r", <<u, z>>) : u, z \in Leaves } \cup { A("q", <<u>>) : u \in Leaves }

VARIABLES ctx, atom
vars == <<ctx, atom>>
Init == ctx = <<>> /\ atom = X("")
Bind == /\ atom = X("") /\ Len(ctx) < 2 /\ \E v \in Vs, q \in {"all", "ex"} : ctx' = Append(ctx, [n |-> v.n, t |-> v.t, q |-> q]) /\ (v.t = TType => q = "all")
        /\ UNCHANGED atom
Finish == atom = X("") /\ atom' \in Atoms /\ UNCHANGED ctx
Next == Bind \/ Finish
Spec == Init /\ [][Next]_vars

Ctx == [ i \in 1..Len(ctx) |-> [n |-> ctx[i].n, t |-> ctx[i].t] ]
Form == IF Len(ctx) = 0 THEN atom
        ELSE IF Len(ctx) = 1 THEN Nd(ctx[1].q, "", <<Ctx[1]>>, <<atom>>)
        ELSE IF ctx[1].q = ctx[2].q THEN Nd(ctx[1].q, "", Ctx, <<atom>>)
        ELSE Nd(ctx[1].q, "", <<Ctx[1]>>, <<Nd(ctx[2].q, "", <<Ctx[2]>>, <<atom>>)>>)

RECURSIVE Put(_, _, _)
Put(t, n, u) == IF t.k = "var" THEN (IF t.n = n THEN u ELSE t)
                ELSE [t EXCEPT !.as = [ i \in 1..Len(t.as) |-> Put(t.as[i], n, u) ]]

Done == atom # X("")
Weakening == Done => (Ok(Sig, <<>>, Form) = Ok(More, <<>>, Form))
(* Instances of well-typed formulas are well typed *)
Instances == (Done /\ Len(ctx) = 1 /\ Ok(Sig, <<>>, Form) /\ ctx[1].t # TType) =>
               \A u \in Terms : TypeOf(Sig, <<>>, u, Ind) = ctx[1].t => Ok(Sig, <<>>, Put(atom, ctx[1].n, u))
TypeInstances == (Done /\ Len(ctx) = 1 /\ Ok(Sig, <<>>, Form) /\ ctx[1].t = TType) =>
               \A u \in { A("t1", <<>>), A("t2", <<>>), A("list", <<A("t2", <<>>)>>) } : Ok(Sig, <<>>, Put(atom, ctx[1].n, u))
(* A variable without occurrence does not matter *)
Occurs(t, n) == Put(t, n, A("a", <<>>)) # t
Vacuous == (Done /\ Len(ctx) = 1 /\ ~ Occurs(atom, ctx[1].n) /\ ctx[1].t \in {T1, T2, L(T1)}) => (Ok(Sig, <<>>, Form) = Ok(Sig, <<>>, atom))
Emit == Done => PrintT("CASE " \o ToJson(Form))
=============================================================================
