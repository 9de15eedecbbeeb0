------------------------------ MODULE Channels ------------------------------
(***************************************************************************)
(* The protocol between branch searches (package Search: ProofSearch,      *)
(* waitChildren, waitFather, selectChildren, closeChildren...).            *)
(*                                                                         *)
(* A branch search is a process; it shares two synchronous channels with   *)
(* its parent.  One step is one rendezvous between a process and its       *)
(* parent, or a decision of one process.  The module defines, for a state  *)
(* S, what is wrong with an event e (Bad) and the state after it (After);  *)
(* ChannelsMC explores all interleavings of small families of branches,    *)
(* ChannelsTrace judges the events recorded from the prover.               *)
(*                                                                         *)
(* Substitutions are sets of bindings.  What they mean is a parameter:     *)
(*   Entails(T, E, t)      the bindings E (a set) imply those of t         *)
(*   SameOn(T, mm, E, t)   E and t say the same of the metavariables mm    *)
(*   About(T, t, mc)       the bindings of t, but those on metavariables   *)
(*                         of mc only                                      *)
(*                                                                         *)
(* S.pc[p]:                                                                *)
(*   run     searching                   told    searching again, with the *)
(*                                               substitution must[p]      *)
(*   sel     waiting for answers         tell    giving a substitution     *)
(*   fin     branches closed, about to answer                              *)
(*   opened  a branch is open, looking for an alternative                  *)
(*   giveup  no alternative left, about to answer                          *)
(*   wait    has answered, waits for its parent                            *)
(*   hold    ordered to wait, stopping its branches first                  *)
(*   stop    ordered to quit             dead    has ended                 *)
(*                                                                         *)
(* Events: [op, c, ...]                                                    *)
(*   root                 a search starts with process c                   *)
(*   kids  ks cur         c starts to wait for the processes ks            *)
(*   ans   closed need ss c answers its parent, that receives it           *)
(*   quit  kill           the parent of c orders it to quit (or to wait)   *)
(*   tell  s mc           the parent of c gives it s (mc: metavariables    *)
(*                        introduced by c itself)                          *)
(*   round st ss ap mm    what c makes of the answers of its branches; ap: *)
(*                        substitution applied so far, mm: metavariables   *)
(*                        known outside of c                               *)
(*   end   alive yes      the search is over, alive processes remain; yes: *)
(*                        a proof is reported                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Entails(_, _, _), SameOn(_, _, _, _), About(_, _, _)

Round == [CLOSE |-> "close", PARENT |-> "parent", CHILDREN |-> "children", QUIT |-> "quit", WAIT |-> "wait", OPENED |-> "opened"]

None == [pc |-> "none", par |-> 0, kids |-> {}, un |-> {}, ans |-> {}, open |-> FALSE, cur |-> {}, opts |-> {},
         told |-> [on |-> FALSE, s |-> {}, left |-> {}], pend |-> {}, res |-> [close |-> FALSE, ss |-> {}, ap |-> {}, mm |-> <<>>],
         must |-> [s |-> {}, mc |-> {}], tried |-> {}]

NewProc(p) == [None EXCEPT !.pc = "run", !.par = p]

Known(S, c) == c \in DOMAIN S
Searching == {"run", "told"}
Closing == {"fin", "opened", "giveup", "stop", "hold"}

(***************************************************************************)
(* What an answer has to be.                                               *)
(***************************************************************************)
(* The substitutions agreed upon are ss (close: none is needed), applied ap *)
BadFinal(T, r, ss) ==
  LET what == IF r.close THEN {{}} ELSE r.ss IN
  IF \E t \in ss : ~ \E s \in what : SameOn(T, r.mm, s \cup r.ap, t)
    THEN "reports a substitution its branches did not agree on"
  ELSE IF ss = {} /\ ~ \E s \in what : SameOn(T, r.mm, s \cup r.ap, {})
    THEN "reports that it needs no substitution although its branches agreed on one"
  ELSE IF \E s \in what : ~ SameOn(T, r.mm, s \cup r.ap, {}) /\ ~ \E t \in ss : SameOn(T, r.mm, s \cup r.ap, t)
    THEN "drops a substitution its branches agreed on"
  ELSE ""

BadAns(T, S, e) ==
  LET c == e.c  x == S[c] IN
  CASE x.pc \in {"dead", "stop"}  -> "answers after its end"
    [] x.pc \in {"wait", "hold"}  -> "answers again before it gets an order"
    [] x.pc \in {"sel", "tell"}   -> "answers before its branches have"
    [] x.kids # {}                -> "answers and leaves branches behind"
    [] x.pc = "opened"            -> IF e.closed THEN "reports a closed tableau although a branch is open"
                                     ELSE IF x.pend # {} THEN "gives up although alternatives remain" ELSE ""
    [] x.pc = "giveup"            -> IF e.closed THEN "reports a closed tableau although a branch is open" ELSE ""
    [] x.pc = "fin"               -> IF ~ e.closed THEN "reports failure although its branches agree"
                                     ELSE BadFinal(T, x.res, e.ss)
    [] x.pc = "told"              -> IF ~ e.closed THEN ""
                                     ELSE LET m == About(T, x.must.s, x.must.mc) IN
                                          IF m # {} /\ e.ss = {} THEN "forgets the substitution it was given"
                                          ELSE IF \E s \in e.ss : ~ Entails(T, s, m) THEN "answers another substitution than the one it was given"
                                          ELSE ""
    [] OTHER                      -> ""

(***************************************************************************)
(* What a process may make of the answers of its branches.                 *)
(***************************************************************************)
Offers(x) == { a \in x.ans : a.ss # {} }
Offered(x) == UNION { a.ss : a \in x.ans }
(* branches that have ended only depend on what already holds *)
Lost(T, x, ap) == \E a \in x.ans : ~ a.need /\ a.ss # {} /\ ~ \E t \in a.ss : Entails(T, ap \cup x.cur \cup x.must.s, t)

BadRound(T, S, e) ==
  LET x == S[e.c]  st == e.st IN
  CASE x.pc = "stop"            -> IF st = Round.QUIT THEN "" ELSE "goes on after the order to quit"
    [] x.pc \in {"hold", "wait"} -> IF st = Round.WAIT THEN "" ELSE "goes on after the order to wait"
    [] x.pc # "sel"             -> "decides out of turn"
    [] st \in {Round.QUIT, Round.WAIT} -> "stops without an order"
    [] x.open                   -> IF st = Round.OPENED THEN "" ELSE "ignores an open branch"
    [] st = Round.OPENED        -> "takes a closed branch for an open one"
    [] x.un # {}                -> "decides before all branches have answered"
    [] Lost(T, x, e.ap)         -> "a branch that has ended depends on a substitution that may not be chosen"
    [] st = Round.CLOSE         -> IF \E a \in Offers(x) : ~ \E t \in a.ss : Entails(T, e.ap, t)
                                   THEN "closes without the substitution that its branches need" ELSE ""
    [] st = Round.PARENT        ->
         IF e.ss = {} THEN "agrees on nothing"
         ELSE IF \E s \in e.ss : \E a \in Offers(x) : ~ \E t \in a.ss : Entails(T, s \cup e.ap, t)
           THEN "agrees on a substitution that does not close all branches"
         ELSE IF Cardinality(Offers(x)) = 1 /\ \E t \in Offered(x) : ~ \E s \in e.ss : Entails(T, s \cup e.ap, t)
           THEN "drops an alternative"
         ELSE ""
    [] st = Round.CHILDREN      ->
         IF e.ss \ Offered(x) # {} THEN "tries a substitution no branch asked for"
         ELSE IF \E t \in Offered(x) \ e.ss : ~ Entails(T, e.ap \cup x.cur \cup x.must.s \cup x.told.s, t) THEN "drops an alternative"
         ELSE IF e.ss = {} THEN "tries nothing" ELSE ""
    [] OTHER                    -> "unknown decision"

BadTell(T, S, e) ==
  LET c == e.c  p == S[c].par IN
  IF p = 0 THEN "order to the root"
  ELSE LET x == S[p] IN
       IF S[c].pc # "wait" THEN "gives a substitution to a branch that does not wait for one"
       ELSE IF x.told.on
         THEN IF e.s # x.told.s THEN "gives different substitutions to its branches"
              ELSE IF c \notin x.told.left THEN "gives a substitution twice" ELSE ""
       ELSE IF x.pc = "tell" THEN (IF e.s \notin x.opts THEN "tries a substitution no branch asked for" ELSE "")
       ELSE IF x.pc = "opened"
         THEN IF \E k \in x.kids : S[k].pc \notin {"wait", "hold"} THEN "gives a substitution while branches are still searching"
              ELSE IF e.s \in x.pend \cup x.tried THEN ""  \* the same one may be offered twice
              ELSE IF e.s # {} THEN "tries a substitution no branch asked for"
              ELSE IF x.pend # {} THEN "starts again although alternatives remain" ELSE ""
       ELSE "gives a substitution out of turn"

BadQuit(S, e) ==
  LET c == e.c  p == S[c].par IN
  IF S[c].pc \in {"dead", "stop"} THEN "orders a branch that has ended"
  ELSE IF S[c].pc = "tell" THEN "is interrupted while it gives a substitution"
  ELSE IF p = 0 THEN (IF S[c].pc = "wait" /\ e.kill THEN "" ELSE "the search is stopped before its answer")
  ELSE CASE S[p].pc \in {"fin", "stop", "hold", "giveup"} -> IF e.kill THEN "" ELSE "leaves a branch waiting for ever"
         [] S[p].pc = "opened" -> IF e.kill /\ S[p].pend # {} THEN "gives up although alternatives remain" ELSE ""
         [] OTHER -> "stops its branches out of turn"

BadKids(S, e) ==
  LET x == S[e.c] IN
  IF x.pc \in Searching THEN (IF \E k \in e.ks : Known(S, k) THEN "waits for the branches of another" ELSE "")
  ELSE IF x.pc \in {"tell", "opened", "giveup"}
    THEN IF x.told.on THEN (IF x.told.left # {} THEN "does not give the substitution to all its branches"
                            ELSE IF e.ks # x.kids THEN "forgets a branch" ELSE "")
         ELSE IF x.pc = "tell" THEN "waits for nothing"
         ELSE IF \E k \in e.ks : Known(S, k) THEN "waits for the branches of another"
         ELSE IF x.kids # {} THEN "forgets a branch that waits for an order" ELSE ""
  ELSE "waits for branches out of turn"

Ended(S, p) == S[p].pc = "dead" \/ (S[p].pc = "stop" /\ S[p].kids = {})
BadEnd(S, e) ==
  IF e.alive # 0 THEN "branch searches outlive the search"
  ELSE IF \E p \in DOMAIN S : S[p].par = 0 /\ S[p].open = e.yes THEN "the verdict is not the answer of the root"
  ELSE IF \E p \in DOMAIN S : ~ Ended(S, p) THEN "a branch got neither a final answer nor an order to quit" ELSE ""

Bad(T, S, e) ==
  IF e.op \notin {"root", "end"} /\ ~ Known(S, e.c) THEN "unknown branch"
  ELSE CASE e.op = "root"  -> ""
         [] e.op = "kids"  -> BadKids(S, e)
         [] e.op = "ans"   -> LET w == BadAns(T, S, e)  p == S[e.c].par IN
                              IF w # "" \/ p = 0 THEN w
                              ELSE IF S[p].pc = "sel" THEN (IF e.c \in S[p].un THEN "" ELSE "an answer is received twice")
                              ELSE IF S[p].pc \in Closing THEN "" ELSE "an answer is received out of turn"
         [] e.op = "quit"  -> BadQuit(S, e)
         [] e.op = "tell"  -> BadTell(T, S, e)
         [] e.op = "round" -> BadRound(T, S, e)
         [] e.op = "end"   -> BadEnd(S, e)

(***************************************************************************)
(* The state after an event that is not wrong.                             *)
(***************************************************************************)
Settle(x) == IF x.pc = "hold" /\ x.kids = {} THEN [x EXCEPT !.pc = "wait"] ELSE x

AfterAns(S, e) ==
  LET c == e.c  p == S[c].par
      S1 == [S EXCEPT ![c].pc = IF e.need THEN "wait" ELSE "dead", ![c].open = ~ e.closed]
  IN IF p = 0 THEN S1
     ELSE LET x == S[p]
              gone == IF e.need THEN x.kids ELSE x.kids \ {c}
          IN IF x.pc = "sel"
             THEN [S1 EXCEPT ![p].un = @ \ {c}, ![p].kids = gone, ![p].open = @ \/ ~ e.closed,
                             ![p].ans = @ \cup {[c |-> c, need |-> e.need, ss |-> e.ss]}]
             ELSE [S1 EXCEPT ![p] = Settle([x EXCEPT !.kids = gone])]

AfterQuit(S, e) ==
  LET c == e.c  p == S[c].par
      S1 == [S EXCEPT ![c] = IF e.kill THEN [@ EXCEPT !.pc = "stop"] ELSE Settle([@ EXCEPT !.pc = "hold"])]
  IN IF p = 0 \/ ~ e.kill THEN S1
     ELSE [S1 EXCEPT ![p] = Settle([@ EXCEPT !.kids = @ \ {c}, !.pc = IF @ = "opened" THEN "giveup" ELSE @])]

AfterTell(S, e) ==
  LET c == e.c  p == S[c].par  x == S[p]
      left == (IF x.told.on THEN x.told.left ELSE x.kids) \ {c}
      pend == IF x.told.on THEN x.pend ELSE (x.pend \cup x.opts) \ {e.s}
  IN [S EXCEPT ![c].pc = "told", ![c].must = [s |-> e.s, mc |-> e.mc],
               ![p].told = [on |-> TRUE, s |-> e.s, left |-> left], ![p].pend = pend, ![p].tried = @ \cup {e.s}, ![p].opts = {}, ![p].pc = "tell"]

AfterKids(S, e) ==
  LET c == e.c  x == S[c]
      fresh == { k \in e.ks : ~ Known(S, k) }
      news == [ k \in fresh |-> NewProc(c) ]
      (* branches that had ended before a substitution was tried stay closed *)
      old == IF fresh = {} THEN { a \in x.ans : ~ a.need } ELSE {}

  IN news @@ [S EXCEPT ![c] = [@ EXCEPT !.pc = "sel", !.kids = e.ks, !.un = e.ks, !.ans = old, !.open = FALSE, !.cur = e.cur,
                                        !.told.on = FALSE, !.told.left = {}, !.pend = IF x.pc \in Searching THEN {} ELSE @,
                                        !.tried = IF x.pc \in Searching THEN {} ELSE @]]

AfterRound(S, e) ==
  LET c == e.c  x == S[c] IN
  CASE x.pc # "sel" -> S
    [] e.st = Round.CLOSE    -> [S EXCEPT ![c].pc = "fin", ![c].res = [close |-> TRUE, ss |-> {}, ap |-> e.ap, mm |-> e.mm]]
    [] e.st = Round.PARENT   -> [S EXCEPT ![c].pc = "fin", ![c].res = [close |-> FALSE, ss |-> e.ss, ap |-> e.ap, mm |-> e.mm]]
    [] e.st = Round.CHILDREN -> [S EXCEPT ![c].pc = "tell", ![c].opts = e.ss]
    [] e.st = Round.OPENED   -> [S EXCEPT ![c].pc = "opened"]

After(S, e) ==
  CASE e.op = "root"  -> (e.c :> NewProc(0))
    [] e.op = "kids"  -> AfterKids(S, e)
    [] e.op = "ans"   -> AfterAns(S, e)
    [] e.op = "quit"  -> AfterQuit(S, e)
    [] e.op = "tell"  -> AfterTell(S, e)
    [] e.op = "round" -> AfterRound(S, e)
    [] e.op = "end"   -> S
=============================================================================
