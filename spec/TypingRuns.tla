----------------------------- MODULE TypingRuns -----------------------------
(* The checker of Typing.tla reading recorded problems, and the verdict on what runs of the prover did with them. *)
EXTENDS Typing, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.GV_CASES)

VARIABLES c, pos, sig, typed, st
vars == <<c, pos, sig, typed, st>>

Init == /\ c \in 1..Len(Cases) /\ pos = 1 /\ sig = Native /\ typed = FALSE /\ st = "ok"

Stmt == Cases[c].stmts[pos]
Reading == pos <= Len(Cases[c].stmts)

Declare ==
  /\ Reading /\ Stmt.k = "decl" /\ st \in {"ok", "ill"}
  /\ IF Stmt.n \in DOMAIN sig
     THEN st' = "beyond" /\ UNCHANGED sig
     ELSE sig' = [ n \in DOMAIN sig \cup {Stmt.n} |-> IF n = Stmt.n THEN Scheme(Stmt.ps, Stmt.as, Stmt.r) ELSE sig[n] ] /\ UNCHANGED st
  /\ typed' = TRUE /\ pos' = pos + 1 /\ UNCHANGED c

Formula ==
  /\ Reading /\ Stmt.k = "form" /\ st \in {"ok", "ill"}
  /\ st' = (IF Beyond({}, Stmt.f) THEN "beyond" ELSE IF Ok(sig, <<>>, Stmt.f) THEN st ELSE "ill")
  /\ typed' = (typed \/ Typed(Stmt.f)) /\ pos' = pos + 1 /\ UNCHANGED <<c, sig>>

Judge ==
  /\ (~ Reading \/ st = "beyond") = TRUE
  /\ st \notin {"done"}
  /\ LET s == IF st = "ill" /\ ~ typed THEN "beyond" ELSE st
         R == Cases[c].runs
         bad == IF s = "beyond" THEN {} ELSE { i \in 1..Len(R) : R[i].acc # (s = "ok") }
     IN /\ (bad # {}) => LET i == CHOOSE j \in bad : TRUE IN
             PrintT(<<"REJECT", Cases[c].id, IF s = "ok" THEN "refuses a well-typed problem" ELSE "accepts an ill-typed problem", R[i].m>>)
        /\ PrintT(<<"INFO", Cases[c].id, s>>)
  /\ st' = "done" /\ pos' = Len(Cases[c].stmts) + 1 /\ UNCHANGED <<c, sig, typed>>

Next == Declare \/ Formula \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
