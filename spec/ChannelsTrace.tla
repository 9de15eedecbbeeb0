--------------------------- MODULE ChannelsTrace ---------------------------
(***************************************************************************)
(* Judges recorded searches against Channels.tla.                          *)
(* case: [id, T, ss : Seq(Seq(<<meta, term>>)), ev]; the substitutions of  *)
(* the events are indices into ss, the others as in Channels.tla.          *)
(***************************************************************************)
EXTENDS Unif

VARIABLES k, n, S, verdict
tvars == <<k, n, S, verdict>>

RECURSIVE SetSeq(_)
SetSeq(E) == IF E = {} THEN <<>> ELSE LET x == CHOOSE y \in E : TRUE IN <<x>> \o SetSeq(E \ {x})

TEntails(TT, E, t) ==
  \/ t \subseteq E
  \/ LET m == Mgu(TT, SetSeq(E)) IN m.ok /\ \A b \in t : SameUnder(TT, m.th, b[1], b[2])

TSameOn(TT, mm, E, t) ==
  LET m1 == Mgu(TT, SetSeq(E))  m2 == Mgu(TT, SetSeq(t))
      f[i \in 0..Len(mm)] == IF i = 0 THEN [ok |-> TRUE, p |-> {}] ELSE Ren(TT, m1.th, m2.th, mm[i], mm[i], f[i - 1])
  IN m1.ok /\ m2.ok /\ f[Len(mm)].ok

MetasOf(TT, b) == { m \in Sub(TT, b[1]) \cup Sub(TT, b[2]) : IsMeta(TT, m) }
TAbout(TT, t, mc) == { b \in t : b[1] \notin mc }

Ch == INSTANCE Channels WITH Entails <- TEntails, SameOn <- TSameOn, About <- TAbout

Subst(C, i) == Range(C.ss[i])
Event(C, e) ==
  CASE e.op = "kids"  -> [op |-> "kids", c |-> e.c, ks |-> Range(e.ks), cur |-> Subst(C, e.cur)]
    [] e.op = "ans"   -> [op |-> "ans", c |-> e.c, closed |-> e.closed, need |-> e.need, ss |-> { Subst(C, e.ss[i]) : i \in 1..Len(e.ss) }]
    [] e.op = "tell"  -> [op |-> "tell", c |-> e.c, s |-> Subst(C, e.s), mc |-> Range(e.mc)]
    [] e.op = "round" -> [op |-> "round", c |-> e.c, st |-> e.st, ss |-> { Subst(C, e.ss[i]) : i \in 1..Len(e.ss) }, ap |-> Subst(C, e.ap), mm |-> e.mm]
    [] OTHER          -> e

TInit == k \in 1..Len(Cases) /\ n = 1 /\ S = <<>> /\ verdict = ""
         /\ c = 0 /\ l = 0 /\ trees = <<>> /\ bad = ""

TNext ==
  /\ verdict = "" /\ n <= Len(Cases[k].ev)
  /\ LET C == Cases[k]  e == Event(C, C.ev[n])  w == Ch!Bad(C.T, S, e) IN
     /\ verdict' = w
     /\ S' = IF w = "" THEN Ch!After(S, e) ELSE S
     /\ w # "" => PrintT(<<"REJECT", C.id, ToString(n), w>>)
  /\ n' = n + 1 /\ UNCHANGED <<k, c, l, trees, bad>>

TSpec == TInit /\ [][TNext]_<<tvars, vars>>
=============================================================================
