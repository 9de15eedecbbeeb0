----------------------------- MODULE ChannelsMC -----------------------------
(***************************************************************************)
(* All interleavings of the branch protocol on small abstract problems.    *)
(*                                                                         *)
(* A substitution is a set of bindings, numbers 1..Bindings; 1 and 2 bind  *)
(* the same metavariable to different terms.  A problem is a tree of       *)
(* branches (Shape: node -> its branches) and, for each leaf, the family   *)
(* of the substitutions that close it.  Every process follows the          *)
(* algorithm of package Search; every step has to be acceptable to         *)
(* Channels.tla, nothing may block, and the answer has to be right.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Shape, Bindings, Families

VARIABLES S, fam, node, amb, given, got, ordered, answer, wrong
vars == <<S, fam, node, amb, given, got, ordered, answer, wrong>>

Consistent(s) == ~ ({1, 2} \subseteq s)
MEntails(T, E, t) == t \subseteq E
MSameOn(T, mm, E, t) == E = t
MAbout(T, t, mc) == t
Ch == INSTANCE Channels WITH Entails <- MEntails, SameOn <- MSameOn, About <- MAbout

Leaves == { i \in DOMAIN Shape : Shape[i] = {} }
Substs == { s \in SUBSET (1..Bindings) : s # {} /\ Consistent(s) }

(* shapes and families, named in the configurations *)
Two == <<{2, 3}, {}, {}>>
Three == <<{2, 3, 4}, {}, {}, {}>>
Nested == <<{2, 3}, {4, 5}, {}, {}, {}>>
Small == { F \in SUBSET Substs : Cardinality(F) <= 2 } \cup {{{}}}
Singles == { F \in SUBSET { {b} : b \in 1..Bindings } : TRUE } \cup {{{}}}
Pairs == { F \in SUBSET { {b} : b \in 1..Bindings } : Cardinality(F) \in {1, 2} } \cup {{{}}}

Init ==
  /\ fam \in [Leaves -> Families]
  /\ S = Ch!After(<<>>, [op |-> "root", c |-> 1])
  /\ node = (1 :> 1) /\ amb = (1 :> {}) /\ given = (1 :> {}) /\ got = (1 :> {}) /\ ordered = (1 :> {})
  /\ answer = "none" /\ wrong = ""

Fresh(n) == LET used == DOMAIN S IN
  CHOOSE X \in SUBSET (1..(Cardinality(used) + n)) : X \cap used = {} /\ Cardinality(X) = n
             /\ \A y \in (1..(Cardinality(used) + n)) \ (used \cup X) : \A x \in X : x < y

(* processes that have ended are forgotten *)
Live(S1) == { p \in DOMAIN S1 : ~ Ch!Ended(S1, p) }
Keep(f, D) == [ p \in D |-> f[p] ]

Do(e, node1, amb1, given1, got1, ordered1) ==
  LET w == Ch!Bad(<<>>, S, e) IN
  IF w # "" THEN wrong' = w /\ UNCHANGED <<S, node, amb, given, got, ordered>>
  ELSE LET S1 == Ch!After(S, e)  D == Live(S1) IN
       /\ S' = Keep(S1, D) /\ node' = Keep(node1, D) /\ amb' = Keep(amb1, D) /\ given' = Keep(given1, D)
       /\ got' = Keep(got1, D) /\ ordered' = Keep(ordered1, D) /\ wrong' = ""
Just(e) == Do(e, node, amb, given, got, ordered)

(* can c take part in this rendezvous? *)
Receives(c) == S[c].pc \in {"run", "told", "sel", "wait"} \/ (S[c].pc \in {"fin", "opened", "giveup"} /\ S[c].kids = {})
Accepts(c) == LET p == S[c].par IN IF p = 0 THEN TRUE ELSE IF S[p].pc = "sel" THEN c \in S[p].un ELSE S[p].pc \in Ch!Closing

Answer(c, closed, need, ss) ==
  /\ Accepts(c)
  /\ LET p == S[c].par IN
     /\ Do([op |-> "ans", c |-> c, closed |-> closed, need |-> need, ss |-> ss], node, amb,
           [given EXCEPT ![c] = @ \cup ss], IF p = 0 THEN got ELSE [got EXCEPT ![p] = @ \cup {c}], ordered)
     /\ answer' = IF p = 0 THEN (IF closed THEN "closed" ELSE "open") ELSE answer

Leaf(c) ==
  LET F == fam[node[c]]  A == amb[c]  C == { f \cup A : f \in { g \in F : Consistent(g \cup A) } } IN
  IF \E f \in F : f \subseteq A THEN Answer(c, TRUE, FALSE, {A} \ {{}})
  ELSE IF C # {} THEN Answer(c, TRUE, TRUE, C)
  ELSE Answer(c, FALSE, FALSE, {})

Wait(p, ks, nodes, ambs, cur) ==
  /\ Do([op |-> "kids", c |-> p, ks |-> ks, cur |-> cur], nodes @@ node, ambs @@ amb,
        [ k \in ks \ DOMAIN S |-> {} ] @@ given, [ k \in ks \ DOMAIN S |-> {} ] @@ [got EXCEPT ![p] = {}],
        [ k \in ks \ DOMAIN S |-> {} ] @@ [ordered EXCEPT ![p] = {}])
  /\ UNCHANGED answer

RECURSIVE Pick(_, _)
(* an order-preserving assignment of nodes to processes *)
Min(X) == CHOOSE x \in X : \A y \in X : x <= y
Pick(ks, ns) == IF ks = {} THEN <<>> ELSE (Min(ks) :> Min(ns)) @@ Pick(ks \ {Min(ks)}, ns \ {Min(ns)})

Search(p) ==
  IF S[p].pc = "run"
  THEN IF Shape[node[p]] = {} THEN Leaf(p)
       ELSE LET ks == Fresh(Cardinality(Shape[node[p]])) IN Wait(p, ks, Pick(ks, Shape[node[p]]), [ k \in ks |-> amb[p] ], {})
  ELSE LET s == S[p].must.s IN
       IF s \in given[p] THEN Answer(p, TRUE, TRUE, {s})
       ELSE LET ks == Fresh(1) IN Wait(p, ks, [ k \in ks |-> node[p] ], [ k \in ks |-> amb[p] \cup s ], s)

Decide(p) ==
  LET x == S[p]  cur == x.cur
      offers == { a \in x.ans : a.c \in got[p] /\ a.ss # {} }
      others == { a \in offers : a.ss # {cur} }
      all == UNION { a.ss : a \in others }
      common == { s \in all : \A a \in others : s \in a.ss }
      E(st, ss) == [op |-> "round", c |-> p, st |-> st, ss |-> ss, ap |-> amb[p], mm |-> <<>>]
  IN /\ x.open \/ x.un = {}
     /\ IF x.open THEN Just(E("opened", {}))
        ELSE IF others = {} THEN (IF offers # {} THEN Just(E("parent", {cur})) ELSE Just(E("close", {})))
        ELSE IF Cardinality(others) = 1 THEN
               IF \E s \in all : ~ Consistent(s \cup cur) THEN wrong' = "anomaly when merging" /\ UNCHANGED <<S, node, amb, given, got, ordered>>
               ELSE Just(E("parent", { s \cup cur : s \in all \ {cur} }))
        ELSE IF common # {} THEN Just(E("parent", common))
        ELSE IF Cardinality(all \ {cur}) = 1 THEN Just(E("parent", all \ {cur}))
        ELSE Just(E("children", all \ {cur}))
     /\ UNCHANGED answer

Stop(p, kill, ks) == \E c \in ks :
  /\ Receives(c)
  /\ Do([op |-> "quit", c |-> c, kill |-> kill], node, amb, given, got, IF kill THEN ordered ELSE [ordered EXCEPT ![p] = @ \cup {c}])
  /\ UNCHANGED answer

Tell(p, ss) == \E s \in ss : \E c \in S[p].kids :
  /\ S[c].pc = "wait"
  /\ Just([op |-> "tell", c |-> c, s |-> s, mc |-> {}]) /\ UNCHANGED answer

Report(p) == LET r == S[p].res  what == IF r.close THEN {amb[p]} \ {{}} ELSE { s \cup r.ap : s \in r.ss } IN
             Answer(p, TRUE, what # {} /\ ~ r.close, what)

Step(p) ==
  LET x == S[p] IN
  CASE x.pc \in {"run", "told"} -> Search(p)
    [] x.pc = "sel" -> Decide(p)
    [] x.pc = "fin" -> IF x.kids # {} THEN Stop(p, TRUE, x.kids) ELSE Report(p)
    [] x.pc = "tell" -> IF ~ x.told.on THEN Tell(p, x.opts)
                        ELSE IF x.told.left # {} THEN \E c \in x.told.left : S[c].pc = "wait" /\ Just([op |-> "tell", c |-> c, s |-> x.told.s, mc |-> {}]) /\ UNCHANGED answer
                        ELSE Wait(p, x.kids, <<>>, <<>>, x.told.s)
    [] x.pc = "opened" -> IF x.kids \ ordered[p] # {} THEN Stop(p, FALSE, x.kids \ ordered[p])
                          ELSE IF x.pend # {} THEN
                                 \* branches that are still stopping theirs answer later
                                 Tell(p, x.pend)
                          ELSE IF x.kids # {} THEN Stop(p, TRUE, x.kids)
                          ELSE Answer(p, FALSE, TRUE, {})
    [] x.pc = "giveup" -> IF x.kids # {} THEN Stop(p, TRUE, x.kids) ELSE Answer(p, FALSE, TRUE, {})
    [] x.pc \in {"stop", "hold"} -> x.kids # {} /\ Stop(p, TRUE, x.kids)
    [] x.pc = "wait" -> IF x.par = 0 THEN Just([op |-> "quit", c |-> p, kill |-> TRUE]) /\ UNCHANGED answer ELSE FALSE
    [] OTHER -> FALSE

Next == wrong = "" /\ (\E p \in DOMAIN S : Step(p)) /\ UNCHANGED fam

Fair == WF_vars(Next)
Spec == Init /\ [][Next]_vars
Live1 == Spec /\ Fair

Done == DOMAIN S = {}
(* a substitution closing every leaf *)
Closable == \E s \in {{}} \cup Substs : \A n \in Leaves : \E f \in fam[n] : f \subseteq s

Acceptable == wrong = ""
NoBlock == wrong # "" \/ Done \/ \E p \in DOMAIN S : ENABLED Step(p)
Right == /\ answer = "closed" => Closable
         /\ answer = "open" => ~ Closable
Complete == answer = "open" => ~ Closable
Ends == <>Done
=============================================================================
