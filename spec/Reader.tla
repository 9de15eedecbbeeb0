------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* What a TPTP text means (FOF, and TFF without declarations). The state is a reader at work: a stack   *)
(* of files (includes), the tokens of the statement being read, and the    *)
(* statements read so far.  One step reads one token; a full stop ends a   *)
(* statement, which is then parsed.  At the end the problem denoted by the *)
(* text is compared with the formula the prover said it would refute.      *)
(*                                                                         *)
(* The outcome of reading is "ok" (and then the problem is determined),    *)
(* "err" (the text is outside the grammar) or "beyond" (the specification  *)
(* does not say: other languages, free variables, several         *)
(* conjectures...).                                                        *)
(*                                                                         *)
(* case: [id, files : Seq([cs : Seq(byte), inc : Seq([n : STRING,          *)
(*        to : file])]), impl : [ok : BOOLEAN, f : node, conj : BOOLEAN],  *)
(*        runs : Seq([m : STRING, rc : Int, s, r : Seq(STRING),            *)
(*        named : BOOLEAN])]                                               *)
(* The first file is the problem.  inc lists the files that the names      *)
(* used in include directives denote, seen from that file.                 *)
(* runs are complete runs of the prover on the problem: the exit status,   *)
(* the SZS statuses and RES lines printed, and whether they name the       *)
(* problem.                                                                *)
(* node: [k, n, i, s : Seq(node)], k in all ex and or not imp eqv pred top *)
(* bot fun b; bound variables are de Bruijn indices i.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.GV_CASES)

VARIABLES c, stack, toks, stmts, st
vars == <<c, stack, toks, stmts, st>>

(***************************************************************************)
(* Characters and tokens.                                                  *)
(***************************************************************************)
Chr == <<" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
         "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@",
         "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
         "[", "\\", "]", "^", "_", "`",
         "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
         "{", "|", "}", "~">>

Ch(x) == Chr[x - 31]
Lower(x) == x >= 97 /\ x <= 122
Upper(x) == x >= 65 /\ x <= 90
Digit(x) == x >= 48 /\ x <= 57
Alnum(x) == Lower(x) \/ Upper(x) \/ Digit(x) \/ x = 95
Printable(x) == x >= 32 /\ x <= 126
Space(x) == x \in {9, 10, 13, 32}

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0

RECURSIVE Text(_, _, _), WordEnd(_, _), DigitsEnd(_, _), QuoteEnd(_, _, _), LineEnd(_, _), BlockEnd(_, _), Skip(_, _)
Text(s, i, j) == IF i >= j THEN "" ELSE Ch(s[i]) \o Text(s, i + 1, j)
WordEnd(s, i) == IF Alnum(At(s, i)) THEN WordEnd(s, i + 1) ELSE i
DigitsEnd(s, i) == IF Digit(At(s, i)) THEN DigitsEnd(s, i + 1) ELSE i
(* the closing quote q, 0 when there is none *)
QuoteEnd(s, i, q) ==
  IF At(s, i) = q THEN i
  ELSE IF At(s, i) = 92 THEN (IF At(s, i + 1) \in {92, q} THEN QuoteEnd(s, i + 2, q) ELSE 0)
  ELSE IF Printable(At(s, i)) THEN QuoteEnd(s, i + 1, q) ELSE 0
LineEnd(s, i) == IF i > Len(s) \/ s[i] = 10 THEN i ELSE LineEnd(s, i + 1)
BlockEnd(s, i) == IF i >= Len(s) THEN 0 ELSE IF s[i] = 42 /\ s[i + 1] = 47 THEN i + 2 ELSE BlockEnd(s, i + 1)
(* the first position that is neither space nor comment; 0: a comment does not end *)
Skip(s, i) ==
  IF i > Len(s) THEN i
  ELSE IF Space(s[i]) THEN Skip(s, i + 1)
  ELSE IF s[i] = 37 THEN Skip(s, LineEnd(s, i))
  ELSE IF s[i] = 47 /\ At(s, i + 1) = 42 THEN (LET e == BlockEnd(s, i + 2) IN IF e = 0 THEN 0 ELSE Skip(s, e))
  ELSE i

Tok(k, v, i, j) == [k |-> k, v |-> v, i |-> i, j |-> j]

Ops3 == {"<=>", "<~>"}
Ops2 == {"=>", "<=", "~|", "~&", "!=", "!>", "<<"}
Ops1 == {"!", "?", "~", "&", "|", "=", "(", ")", ",", ".", "[", "]", ":", "*", ">", "<", "+", "-", "#", "/", "\\", "@", "^"}

(* a number without its sign *)
NumberEnd(s, i) ==
  LET d == IF s[i] = 48 THEN i + 1 ELSE DigitsEnd(s, i)
      frac == At(s, d) = 46 /\ Digit(At(s, d + 1))
      f == IF frac THEN DigitsEnd(s, d + 1) ELSE d
      e0 == IF At(s, f) \in {69, 101} THEN f + 1 ELSE 0
      e1 == IF e0 > 0 /\ At(s, e0) \in {43, 45} THEN e0 + 1 ELSE e0
      expo == e0 > 0 /\ Digit(At(s, e1))
      ratio == ~ frac /\ At(s, d) = 47 /\ At(s, d + 1) >= 49 /\ At(s, d + 1) <= 57
  IN IF expo THEN [k |-> "real", j |-> DigitsEnd(s, e1)]
     ELSE IF frac THEN [k |-> "real", j |-> f]
     ELSE IF ratio THEN [k |-> "rat", j |-> DigitsEnd(s, d + 1)]
     ELSE [k |-> "int", j |-> d]

Lex(s, i) ==
  LET x == s[i]  y == At(s, i + 1)
      three == IF i + 2 <= Len(s) /\ Printable(x) /\ Printable(y) /\ Printable(s[i + 2]) THEN Text(s, i, i + 3) ELSE ""
      two == IF i + 1 <= Len(s) /\ Printable(x) /\ Printable(y) THEN Text(s, i, i + 2) ELSE ""
  IN CASE Lower(x) -> LET j == WordEnd(s, i) IN Tok("lower", Text(s, i, j), i, j)
       [] Upper(x) -> LET j == WordEnd(s, i) IN Tok("upper", Text(s, i, j), i, j)
       [] x = 36   -> LET j == WordEnd(s, i + 1) IN IF y = 36 THEN Tok("ddollar", "", i, WordEnd(s, i + 2)) ELSE Tok("dollar", Text(s, i, j), i, j)
       [] x = 39   -> LET j == QuoteEnd(s, i + 1, 39) IN IF j <= i + 1 THEN Tok("err", "", i, i)
                      ELSE \* 'cat' is cat
                           IF Lower(y) /\ WordEnd(s, i + 1) = j THEN Tok("quoted", Text(s, i + 1, j), i, j + 1)
                           ELSE Tok("quoted", Text(s, i, j + 1), i, j + 1)
       [] x = 34   -> LET j == QuoteEnd(s, i + 1, 34) IN IF j = 0 THEN Tok("err", "", i, i) ELSE Tok("dist", Text(s, i, j + 1), i, j + 1)
       [] Digit(x) -> LET e == NumberEnd(s, i) IN Tok(e.k, Text(s, i, e.j), i, e.j)
       [] x \in {43, 45} /\ Digit(y) -> LET e == NumberEnd(s, i + 1) IN Tok(IF x = 43 THEN "plus" ELSE e.k, Text(s, i, e.j), i, e.j)
       [] x > 127   -> Tok("other", "", i, i + 1)
       [] OTHER    -> IF three \in Ops3 THEN Tok(three, "", i, i + 3)
                      ELSE IF two \in Ops2 THEN Tok(two, "", i, i + 2)
                      ELSE IF Printable(x) /\ Ch(x) \in Ops1 THEN Tok(Ch(x), "", i, i + 1)
                      ELSE Tok("err", "", i, i)

(***************************************************************************)
(* Formulas.  Each parser returns [st, f, p]: the outcome, the node, the   *)
(* position after it.                                                      *)
(***************************************************************************)
N(k, n, i, s) == [k |-> k, n |-> n, i |-> i, s |-> s]
Res(f, p) == [st |-> "ok", f |-> f, p |-> p]
Fail(what) == [st |-> what, f |-> N("top", "", 0, <<>>), p |-> 0]
K(t, p) == IF p >= 1 /\ p <= Len(t) THEN t[p].k ELSE "eof"
Tff(t) == Len(t) > 0 /\ t[1].v = "tff"
Keyword(t, p) == K(t, p) = "lower" /\ t[p].v \in {"fof", "cnf", "tff", "thf", "tcf", "tpi", "include"} /\ K(t, p + 1) = "("

RECURSIVE Index(_, _, _)
Index(env, x, i) == IF i > Len(env) THEN 0 ELSE IF env[i] = x THEN i ELSE Index(env, x, i + 1)

NonAssoc == {"<=>", "=>", "<=", "<~>", "~|", "~&"}
Neg(f) == N("not", "", 0, <<f>>)
Bin(op, a, b) ==
  CASE op = "<=>" -> N("eqv", "", 0, <<a, b>>)
    [] op = "=>"  -> N("imp", "", 0, <<a, b>>)
    [] op = "<="  -> N("imp", "", 0, <<b, a>>)
    [] op = "<~>" -> Neg(N("eqv", "", 0, <<a, b>>))
    [] op = "~|"  -> Neg(N("or", "", 0, <<a, b>>))
    [] op = "~&"  -> Neg(N("and", "", 0, <<a, b>>))
    [] op = "&"   -> N("and", "", 0, <<a, b>>)
    [] op = "|"   -> N("or", "", 0, <<a, b>>)

RECURSIVE Formula(_, _, _), Chain(_, _, _, _, _), Unit(_, _, _), Atom(_, _, _), Term(_, _, _), Args(_, _, _, _), Vars(_, _, _)
RECURSIVE Bind(_, _, _)
Formula(t, p, env) ==
  LET u == Unit(t, p, env) IN
  IF u.st # "ok" THEN u
  ELSE LET op == K(t, u.p) IN
       IF op \in NonAssoc
       THEN LET v == Unit(t, u.p + 1, env) IN IF v.st # "ok" THEN v ELSE Res(Bin(op, u.f, v.f), v.p)
       ELSE IF op \in {"&", "|"} THEN Chain(t, u.p, env, op, u.f)
       ELSE u
Chain(t, p, env, op, f) ==
  IF K(t, p) # op THEN Res(f, p)
  ELSE LET v == Unit(t, p + 1, env) IN IF v.st # "ok" THEN v ELSE Chain(t, v.p, env, op, Bin(op, f, v.f))
Unit(t, p, env) ==
  CASE K(t, p) = "~" -> LET u == Unit(t, p + 1, env) IN
                        IF u.st # "ok" THEN u
                        ELSE IF Tff(t) /\ K(t, p + 1) \notin {"~", "!", "?", "("} /\ "=" \in {u.f.n} \cup { u.f.s[i].n : i \in 1..Len(u.f.s) }
                          THEN Fail("beyond")        \* ~ a = b is not TFF
                        ELSE Res(Neg(u.f), u.p)
    [] K(t, p) \in {"!", "?"} ->
         IF K(t, p + 1) # "[" THEN Fail("err")
         ELSE LET vs == Vars(t, p + 2, <<>>) IN
              IF vs.st # "ok" \/ K(t, vs.p) # "]" \/ K(t, vs.p + 1) # ":" THEN Fail("err")
              ELSE IF \E a, b \in 1..Len(vs.f) : a # b /\ vs.f[a] = vs.f[b] THEN Fail("beyond")
              ELSE LET u == Unit(t, vs.p + 2, vs.f \o env) IN
                   IF u.st # "ok" THEN u ELSE Res(Bind(IF K(t, p) = "!" THEN "all" ELSE "ex", Len(vs.f), u.f), u.p)
    [] K(t, p) = "(" -> LET u == Formula(t, p + 1, env) IN
                        IF u.st # "ok" THEN u ELSE IF K(t, u.p) # ")" THEN Fail("err") ELSE Res(u.f, u.p + 1)
    [] OTHER -> Atom(t, p, env)
Bind(k, n, f) == IF n = 0 THEN f ELSE N(k, "", 0, <<Bind(k, n - 1, f)>>)
(* the variables, the last one first *)
Vars(t, p, vs) ==
  IF K(t, p) # "upper" THEN [st |-> "err", f |-> vs, p |-> p]
  ELSE LET q == IF Tff(t) /\ K(t, p + 1) = ":" /\ K(t, p + 2) = "dollar" THEN p + 3 ELSE p + 1 IN
       IF K(t, q) = "," THEN Vars(t, q + 1, <<t[p].v>> \o vs) ELSE [st |-> "ok", f |-> <<t[p].v>> \o vs, p |-> q]
Atom(t, p, env) ==
  IF K(t, p) = "dollar" /\ t[p].v \in {"$true", "$false"} /\ K(t, p + 1) \notin {"(", "=", "!="}
    THEN Res(N(IF t[p].v = "$true" THEN "top" ELSE "bot", "", 0, <<>>), p + 1)
  ELSE LET u == Term(t, p, env) IN
       IF u.st # "ok" THEN u
       ELSE IF K(t, u.p) \in {"=", "!="}
         THEN LET v == Term(t, u.p + 1, env)  e == N("pred", "=", 0, <<u.f, v.f>>) IN
              IF v.st # "ok" THEN v ELSE Res(IF K(t, u.p) = "=" THEN e ELSE Neg(e), v.p)
       ELSE IF K(t, p) \in {"lower", "quoted"} THEN Res([u.f EXCEPT !.k = "pred"], u.p)
       ELSE Fail("err")
Term(t, p, env) ==
  CASE K(t, p) = "upper" -> LET i == Index(env, t[p].v, 1) IN IF i = 0 THEN Fail("beyond") ELSE Res(N("b", "", i - 1, <<>>), p + 1)
    [] K(t, p) \in {"lower", "quoted"} ->
         IF Keyword(t, p) THEN Fail("beyond")
         ELSE IF K(t, p + 1) # "(" THEN Res(N("fun", t[p].v, 0, <<>>), p + 1)
         ELSE LET a == Args(t, p + 2, env, <<>>) IN IF a.st # "ok" THEN Fail(a.st) ELSE Res(N("fun", t[p].v, 0, a.f), a.p)
    [] K(t, p) \in {"int", "real", "rat", "dist"} -> Res(N("fun", t[p].v, 0, <<>>), p + 1)
    [] K(t, p) \in {"dollar", "ddollar", "plus"} -> Fail("beyond")
    [] OTHER -> Fail("err")
Args(t, p, env, a) ==
  LET u == Term(t, p, env) IN
  IF u.st # "ok" THEN [st |-> u.st, f |-> a, p |-> p]
  ELSE IF K(t, u.p) = "," THEN Args(t, u.p + 1, env, Append(a, u.f))
  ELSE IF K(t, u.p) = ")" THEN [st |-> "ok", f |-> Append(a, u.f), p |-> u.p + 1]
  ELSE [st |-> "err", f |-> a, p |-> p]

(***************************************************************************)
(* Annotations have to be well-formed; they mean nothing.                  *)
(* G... return the position after the term, 0: err                         *)
(***************************************************************************)
RECURSIVE GTerm(_, _), GTerms(_, _), GList(_, _), Names(_, _, _)
GTerm(t, p) ==
  IF K(t, p) = "[" THEN GList(t, p)
  ELSE LET q == IF K(t, p) \in {"lower", "quoted"}
                  THEN IF K(t, p + 1) = "(" THEN (LET r == GTerms(t, p + 2) IN IF r > 0 /\ K(t, r) = ")" THEN r + 1 ELSE 0) ELSE p + 1
                ELSE IF K(t, p) \in {"upper", "int", "real", "rat", "dist"} THEN p + 1
                ELSE 0
       IN IF q > 0 /\ K(t, q) = ":" THEN GTerm(t, q + 1) ELSE q
GTerms(t, p) == LET q == GTerm(t, p) IN IF q > 0 /\ K(t, q) = "," THEN GTerms(t, q + 1) ELSE q
GList(t, p) == IF K(t, p) # "[" THEN 0
               ELSE IF K(t, p + 1) = "]" THEN p + 2
               ELSE LET q == GTerms(t, p + 1) IN IF q > 0 /\ K(t, q) = "]" THEN q + 1 ELSE 0
Annot(t, p) == IF K(t, p) # "," THEN p
               ELSE LET q == GTerm(t, p + 1) IN IF q > 0 /\ K(t, q) = "," THEN GList(t, q + 1) ELSE q

Names(t, p, ns) == IF K(t, p) \notin {"lower", "quoted", "int"} THEN [p |-> 0, ns |-> ns]
                   ELSE IF K(t, p + 1) = "," THEN Names(t, p + 2, Append(ns, t[p].v)) ELSE [p |-> p + 1, ns |-> Append(ns, t[p].v)]

(***************************************************************************)
(* Statements: t ends with the full stop.                                  *)
(***************************************************************************)
NoStmt == [st |-> "err", tff |-> FALSE, role |-> "", n |-> "", f |-> N("top", "", 0, <<>>), file |-> "", sel |-> <<>>]
Odd(t) == \E p \in 1..Len(t) : Keyword(t, p) /\ p > 1
Special(t) == \E p \in 1..Len(t) : t[p].k \in {"plus", "dollar", "ddollar", "other"} /\ t[p].v \notin {"$true", "$false"}
              /\ ~ (Tff(t) /\ t[p].v = "$i" /\ p > 2 /\ t[p - 1].k = ":" /\ t[p - 2].k = "upper")

AxiomLike == {"axiom", "hypothesis", "definition", "assumption", "lemma", "theorem", "corollary"}

Statement(t) ==
  IF K(t, 1) # "lower" THEN NoStmt
  ELSE IF t[1].v \in {"fof", "tff", "include"} /\ K(t, 2) = "(" /\ t[1].j # t[2].i THEN [NoStmt EXCEPT !.st = "beyond"]
  ELSE IF t[1].v \in {"cnf", "thf", "tcf", "tpi"} \/ Odd(t) \/ Special(t) THEN [NoStmt EXCEPT !.st = "beyond"]
  ELSE IF K(t, 2) # "(" THEN NoStmt
  ELSE IF t[1].v = "include"
    THEN IF K(t, 3) # "quoted" THEN NoStmt
         ELSE IF K(t, 4) = ")" /\ K(t, 5) = "." /\ Len(t) = 5 THEN [NoStmt EXCEPT !.st = "ok", !.role = "include", !.file = t[3].v]
         ELSE IF K(t, 4) = "," /\ K(t, 5) = "["
           THEN LET ns == Names(t, 6, <<>>) IN
                IF ns.p > 0 /\ K(t, ns.p) = "]" /\ K(t, ns.p + 1) = ")" /\ K(t, ns.p + 2) = "." /\ Len(t) = ns.p + 2
                THEN [NoStmt EXCEPT !.st = "ok", !.role = "include", !.file = t[3].v, !.sel = ns.ns] ELSE NoStmt
         ELSE NoStmt
  ELSE IF t[1].v \notin {"fof", "tff"} THEN NoStmt
  ELSE IF K(t, 3) \notin {"lower", "quoted", "int"} \/ K(t, 4) # "," \/ K(t, 5) # "lower" THEN NoStmt
  ELSE IF K(t, 6) = "-" \/ t[5].v = "type" THEN [NoStmt EXCEPT !.st = "beyond"]
  ELSE IF K(t, 6) # "," THEN NoStmt
  ELSE LET f == Formula(t, 7, <<>>) IN
       IF f.st # "ok" THEN [NoStmt EXCEPT !.st = f.st]
       ELSE LET p == Annot(t, f.p) IN
            IF p = 0 \/ K(t, p) # ")" \/ K(t, p + 1) # "." \/ Len(t) # p + 1 THEN NoStmt
            ELSE [NoStmt EXCEPT !.st = IF t[5].v \in AxiomLike \cup {"conjecture", "negated_conjecture"} THEN "ok" ELSE "beyond",
                                !.role = t[5].v, !.n = t[3].v, !.f = f.f, !.tff = Tff(t)]

(***************************************************************************)
(* Sameness of formulas: n-ary and nested & and | are the same; where the  *)
(* shapes differ, truth tables decide (quantified subformulas are atoms,   *)
(* compared in the same way).  A quantifier over nothing means nothing.    *)
(***************************************************************************)
RECURSIVE Canon(_), Merge(_, _, _), Occurs(_, _), Lower1(_, _)
Binder(f) == f.k \in {"all", "ex"}
Occurs(f, d) == IF f.k = "b" THEN f.i = d ELSE \E i \in 1..Len(f.s) : Occurs(f.s[i], IF Binder(f) THEN d + 1 ELSE d)
Lower1(f, d) == IF f.k = "b" THEN (IF f.i > d THEN [f EXCEPT !.i = f.i - 1] ELSE f)
                ELSE [f EXCEPT !.s = [ i \in 1..Len(f.s) |-> Lower1(f.s[i], IF Binder(f) THEN d + 1 ELSE d) ]]
Merge(k, s, i) == IF i > Len(s) THEN <<>> ELSE (LET g == Canon(s[i]) IN IF g.k = k THEN g.s ELSE <<g>>) \o Merge(k, s, i + 1)
Canon(f) == IF f.k \in {"and", "or"} THEN (LET s == Merge(f.k, f.s, 1) IN IF Len(s) = 1 THEN s[1] ELSE [f EXCEPT !.s = s])
            ELSE IF Binder(f) /\ ~ Occurs(f.s[1], 0) THEN Canon(Lower1(f.s[1], 0))      \* the domain is not empty
            ELSE IF f.k \in {"all", "ex", "not", "imp", "eqv"} THEN [f EXCEPT !.s = [ i \in 1..Len(f.s) |-> Canon(f.s[i]) ]]
            ELSE f

RECURSIVE Primes(_), Value(_, _), Same(_, _)
Primes(f) == IF f.k \in {"pred", "all", "ex"} THEN {f} ELSE UNION { Primes(f.s[i]) : i \in 1..Len(f.s) }
Value(f, V) ==
  CASE f.k \in {"pred", "all", "ex"} -> \E C \in V : f \in C
    [] f.k = "not" -> ~ Value(f.s[1], V)
    [] f.k = "and" -> \A i \in 1..Len(f.s) : Value(f.s[i], V)
    [] f.k = "or"  -> \E i \in 1..Len(f.s) : Value(f.s[i], V)
    [] f.k = "imp" -> Value(f.s[1], V) => Value(f.s[2], V)
    [] f.k = "eqv" -> Value(f.s[1], V) <=> Value(f.s[2], V)
    [] f.k = "top" -> TRUE
    [] OTHER       -> FALSE
Same(f, g) ==
  IF f = g THEN TRUE
  ELSE LET P == Primes(f) \cup Primes(g)
           Alike(p, q) == p = q \/ (p.k = q.k /\ p.k # "pred" /\ Same(p.s[1], q.s[1]))
           Q == { { q \in P : Alike(p, q) } : p \in P }
       IN /\ Cardinality(Q) <= 11
          /\ \A V \in SUBSET Q : Value(f, V) <=> Value(g, V)

Conjuncts(f) == IF f.k = "and" THEN { f.s[i] : i \in 1..Len(f.s) } ELSE {f}
AndOf(X) == LET RECURSIVE Go(_)
                Go(Y) == IF Y = {} THEN <<>> ELSE LET y == CHOOSE z \in Y : TRUE IN <<y>> \o Go(Y \ {y})
            IN N("and", "", 0, Go(X))
(* the two conjunctions have the same conjuncts, up to the sameness of those that are not identical *)
SameProblem(A, B) == LET A1 == A \ B  B1 == B \ A IN
  IF A1 = {} /\ B1 = {} THEN TRUE
  ELSE LET A2 == { a \in A1 : ~ \E b \in B1 : Same(a, b) }  B2 == { b \in B1 : ~ \E a \in A1 : Same(a, b) } IN
       \* beyond eleven atoms the specification does not tell
       (A2 = {} /\ B2 = {}) \/ (\E x \in A2 \cup B2 : Cardinality(Primes(x)) > 11) \/ Same(AndOf(A2), AndOf(B2)) \/ Same(AndOf(A1), AndOf(B1)) \/ Same(AndOf(A), AndOf(B))

(***************************************************************************)
(* The reader.                                                             *)
(***************************************************************************)
Init == c \in 1..Len(Cases) /\ stack = <<[f |-> 1, i |-> 1, sel |-> <<>>]>> /\ toks = <<>> /\ stmts = <<>> /\ st = "reading"

Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Selected(s) == Top.sel = <<>> \/ \E j \in 1..Len(Top.sel) : Top.sel[j] = s.n

Target(C, f, n) == LET T == { j \in 1..Len(C.files[f].inc) : C.files[f].inc[j].n = n } IN
                   IF T = {} THEN 0 ELSE C.files[f].inc[CHOOSE j \in T : TRUE].to

Read ==
  /\ st = "reading" /\ stack # <<>>
  /\ LET C == Cases[c]  s == C.files[Top.f].cs  i == Skip(s, Top.i) IN
     IF i = 0 THEN st' = "err" /\ UNCHANGED <<stack, toks, stmts>>
     ELSE IF i > Len(s)
       THEN IF toks # <<>> THEN st' = "err" /\ UNCHANGED <<stack, toks, stmts>>
            ELSE stack' = Rest /\ UNCHANGED <<toks, stmts, st>>
     ELSE LET t == Lex(s, i)  here == [Top EXCEPT !.i = t.j] IN
          IF t.k = "err" THEN st' = "err" /\ UNCHANGED <<stack, toks, stmts>>
          ELSE IF t.k # "." THEN toks' = Append(toks, t) /\ stack' = Append(Rest, here) /\ UNCHANGED <<stmts, st>>
          ELSE LET m == Statement(Append(toks, t)) IN
               /\ toks' = <<>>
               /\ IF m.st # "ok" THEN st' = m.st /\ UNCHANGED <<stack, stmts>>
                  ELSE IF m.role = "include"
                    THEN LET to == Target(C, Top.f, m.file) IN
                         IF to = 0 THEN st' = "err" /\ UNCHANGED <<stack, stmts>>
                         ELSE IF Len(stack) > 5 \/ (\E d \in 1..Len(stack) : stack[d].sel # <<>>)
                           THEN st' = "beyond" /\ UNCHANGED <<stack, stmts>>
                         ELSE stack' = Append(Append(Rest, here), [f |-> to, i |-> 1, sel |-> m.sel]) /\ UNCHANGED <<stmts, st>>
                  ELSE stack' = Append(Rest, here) /\ stmts' = (IF Selected(m) THEN Append(stmts, m) ELSE stmts) /\ UNCHANGED st
  /\ UNCHANGED c

Reject(why) == PrintT(<<"REJECT", Cases[c].id, why>>)

(* Several conjectures: refusing them is allowed *)
Several == Cardinality({ i \in 1..Len(stmts) : stmts[i].role = "conjecture" }) > 1
Conjectures == { i \in 1..Len(stmts) : stmts[i].role \in {"conjecture", "negated_conjecture"} }
Goals == SelectSeq(stmts, LAMBDA m : m.role = "conjecture")
Others == SelectSeq(stmts, LAMBDA m : m.role # "conjecture")
(* everything asked for has to follow from everything given *)
Goal == IF Len(Goals) = 0 THEN {} ELSE Conjuncts(Canon(Neg(IF Len(Goals) = 1 THEN Goals[1].f ELSE N("and", "", 0, [ i \in 1..Len(Goals) |-> Goals[i].f ]))))
Meant == Goal \cup UNION { Conjuncts(Canon(Others[i].f)) : i \in 1..Len(Others) }

(* What a run has to tell about a problem the reader accepts: one status of the right family, the same answer on the
   RES line, and success; about a text that is outside the grammar: failure, and no status *)
Family(conj) == IF conj THEN {"Theorem", "CounterSatisfiable"} ELSE {"Unsatisfiable", "Satisfiable"}
RunWrong(r, s, conj, free) ==
  IF s = "err" THEN (IF r.rc = 0 THEN "succeeds on a text outside the grammar" ELSE IF r.s # <<>> THEN "prints a status for a text outside the grammar" ELSE "")
  ELSE IF r.rc # 0 THEN "fails on a well-formed problem"
  ELSE IF Len(r.s) # 1 THEN "does not print exactly one status"
  ELSE IF ~ r.named THEN "prints a status for another problem"
  ELSE IF r.s[1] \notin (IF free THEN Family(TRUE) \cup Family(FALSE) ELSE Family(conj)) THEN "prints a status of the wrong family"
  ELSE IF r.r # <<IF r.s[1] \in {"Theorem", "Unsatisfiable"} THEN "VALID" ELSE "NOT VALID">> THEN "prints a result that disagrees with the status"
  ELSE ""

Judge ==
  /\ (st = "reading" /\ stack = <<>>) \/ st \in {"err", "beyond"}
  /\ LET I == Cases[c].impl
         s == IF st # "reading" THEN st ELSE IF stmts = <<>> \/ (Several /\ ~ I.ok) \/ (Cardinality(Conjectures) > 1 /\ \E i \in Conjectures : stmts[i].role # "conjecture") THEN "beyond" ELSE "ok"
         w == CASE s = "beyond" -> ""
                [] s = "err"    -> IF I.ok THEN "accepts a text outside the grammar" ELSE ""
                [] s = "ok"     -> IF ~ I.ok THEN IF \E i \in 1..Len(stmts) : stmts[i].tff THEN "" ELSE "rejects a well-formed problem"     \* typing may refuse it
                                   ELSE IF ~ SameProblem(Meant, Conjuncts(Canon(I.f))) THEN "reads another formula than the text denotes"
                                   ELSE IF ~ (\E i \in 1..Len(stmts) : stmts[i].role = "negated_conjecture") /\ I.conj # (Conjectures # {})
                                     THEN "mistakes whether there is a conjecture"
                                   ELSE ""
         negated == \E i \in 1..Len(stmts) : stmts[i].role = "negated_conjecture"
         R == Cases[c].runs
         bad == IF s = "beyond" THEN {} ELSE { i \in 1..Len(R) : RunWrong(R[i], s, Conjectures # {}, negated) # "" }
         v == IF w # "" \/ bad = {} THEN w ELSE (LET i == CHOOSE j \in bad : TRUE IN RunWrong(R[i], s, Conjectures # {}, negated) \o " (" \o R[i].m \o ")")
     IN /\ st' = "done " \o s
        /\ (v # "") => Reject(v)
        /\ PrintT(<<"INFO", Cases[c].id, s>>)
  /\ UNCHANGED <<c, stack, toks, stmts>>

Next == Read \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
