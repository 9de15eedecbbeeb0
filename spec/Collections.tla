---------------------------- MODULE Collections ----------------------------
(***************************************************************************)
(* The collections of package Lib as the mathematical objects they model:  *)
(* lists are sequences, sets are sets, a cache is a value with a flag.     *)
(*                                                                         *)
(* State: the registers.  An operation that returns a collection puts it   *)
(* in register d and changes no other register; l.append, l.upd, l.addm,   *)
(* l.sort and c.get/c.avoid modify the register r they are called on.      *)
(* After every operation the recorded contents of *all* registers must be  *)
(* those of the specification, so that a change seen through another       *)
(* reference to the same memory is a violation.                            *)
(*                                                                         *)
(* case: [id, nl, ns, nc, ev], ev : Seq of records with op, the arguments, *)
(* res (the answer, a sequence of integers), ls (contents of the list      *)
(* registers), ss (for each set register: its enumeration and the elements *)
(* of 0..15 it answers to contain) and hs (heights of the trees).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.GV_CASES)

VARIABLES c, l, ls, ss, cs, bad
vars == <<c, l, ls, ss, cs, bad>>

Ev == Cases[c].ev

Range(s) == { s[i] : i \in 1..Len(s) }
Pred(e, x) == IF e.p = "lt" THEN x < e.k ELSE x % 2 = e.k % 2
B(p) == IF p THEN <<1>> ELSE <<0>>

RECURSIVE AddAll(_, _)
AddAll(s, vs) == IF vs = <<>> THEN s
                 ELSE AddAll(IF Head(vs) \in Range(s) THEN s ELSE Append(s, Head(vs)), Tail(vs))
Filter(s, e) == SelectSeq(s, LAMBDA x : Pred(e, x))
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
First(s, P(_)) == LET I == { i \in 1..Len(s) : P(s[i]) } IN IF I = {} THEN 0 ELSE Least(I)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

(* lists; the implementation numbers positions from 0 *)
NewList(e) == LET s == ls[e.r] IN
  CASE e.op = "l.new" -> <<>>
    [] e.op = "l.mk" -> [i \in 1..e.i |-> 0]
    [] e.op = "l.mkv" -> e.vs
    [] e.op = "l.append" -> s \o e.vs
    [] e.op = "l.upd" -> [s EXCEPT ![e.i + 1] = e.x]
    [] e.op \in {"l.addm", "l.add"} -> AddAll(s, e.vs)
    [] e.op \in {"l.copy", "l.cpy"} -> s
    [] e.op = "l.slice" -> SubSeq(s, e.i + 1, e.j)
    [] e.op = "l.removeat" -> RemoveAt(s, e.i + 1)
    [] e.op = "l.filter" -> Filter(s, e)
    [] e.op = "l.map" -> [i \in 1..Len(s) |-> s[i] + e.x]
    [] e.op = "l.sort" -> SortSeq(s, LAMBDA x, y : x < y)
ListOps == {"l.new", "l.mk", "l.mkv", "l.append", "l.upd", "l.addm", "l.add", "l.copy", "l.cpy", "l.slice",
            "l.removeat", "l.filter", "l.map", "l.sort"}
Modifying == {"l.append", "l.upd", "l.addm", "l.sort"}

ListAnswer(e) == LET s == ls[e.r]  pos == First(s, LAMBDA x : x = e.x) IN
  CASE e.op = "l.len" -> <<Len(s)>>
    [] e.op = "l.at" -> <<s[e.i + 1]>>
    [] e.op = "l.get" -> SubSeq(s, e.i + 1, e.j)
    [] e.op \in {"l.contains", "l.mem"} -> B(pos # 0)
    [] e.op = "l.find" -> LET k == First(s, LAMBDA x : Pred(e, x)) IN IF k = 0 THEN <<-1, 0>> ELSE <<s[k], 1>>
    [] e.op \in {"l.indexof", "l.lindexof"} -> IF pos = 0 THEN <<>> ELSE <<pos - 1>>
    [] e.op = "l.any" -> B(\E i \in 1..Len(s) : Pred(e, s[i]))
    [] e.op = "l.empty" -> B(s = <<>>)
    [] e.op = "l.equals" -> B(s = ls[e.q]) \o B(s = ls[e.q])
    [] e.op = "l.string" -> IF s = <<>> THEN <<-1>> ELSE s
ListQueries == {"l.len", "l.at", "l.get", "l.contains", "l.mem", "l.find", "l.indexof", "l.lindexof", "l.any", "l.empty", "l.equals", "l.string"}

(* sets *)
NewSet(e) == LET s == ss[e.r]  t == ss[e.q] IN
  CASE e.op = "s.empty" -> {}
    [] e.op = "s.single" -> {e.x}
    [] e.op = "s.add" -> s \cup Range(e.vs)
    [] e.op = "s.remove" -> s \ {e.x}
    [] e.op = "s.union" -> s \cup t
    [] e.op = "s.inter" -> s \cap t
    [] e.op = "s.diff" -> s \ t
    [] e.op \in {"s.copy", "s.assign"} -> s
    [] e.op = "s.filter" -> { x \in s : Pred(e, x) }
SetOps == {"s.empty", "s.single", "s.add", "s.remove", "s.union", "s.inter", "s.diff", "s.copy", "s.assign", "s.filter"}
SetAnswer(e) == LET s == ss[e.r]  t == ss[e.q] IN
  CASE e.op = "s.contains" -> B(e.x \in s)
    [] e.op = "s.card" -> <<Cardinality(s)>>
    [] e.op = "s.isempty" -> B(s = {})
    [] e.op = "s.disjoint" -> B(s \cap t = {})
SetQueries == {"s.contains", "s.card", "s.isempty", "s.disjoint"}

(* caches: a value and whether it is out of date; c.get x: what the hook would compute now is x *)
NewCache(e) == LET k == cs[e.r] IN
  CASE e.op = "c.new" -> [v |-> e.x, stale |-> TRUE]
    [] e.op = "c.get" -> IF k.stale THEN [v |-> e.x, stale |-> FALSE] ELSE k
    [] e.op = "c.avoid" -> [k EXCEPT !.stale = FALSE]
    [] e.op \in {"c.copy", "c.raw", "c.needs"} -> k
CacheOps == {"c.new", "c.get", "c.avoid", "c.copy", "c.raw", "c.needs"}
CacheAnswer(e) == CASE e.op = "c.get" -> <<NewCache(e).v>>
                    [] e.op = "c.raw" -> <<cs[e.r].v>>
                    [] e.op = "c.needs" -> B(cs[e.r].stale)
                    [] OTHER -> <<>>

OtherAnswer(e) ==
  CASE e.op = "o.bind" -> IF e.i = 1 /\ e.x < e.k THEN <<e.x + 1>> ELSE <<>>
    [] e.op = "e.equals" -> LET p == e.i = e.j /\ e.x = e.k IN B(p) \o B(p)
    [] e.op = "par" -> <<1, Sum(e.vs)>>

Answer(e) == CASE e.op \in ListOps \cup SetOps -> <<>>
               [] e.op \in ListQueries -> ListAnswer(e)
               [] e.op \in SetQueries -> SetAnswer(e)
               [] e.op \in CacheOps -> CacheAnswer(e)
               [] OTHER -> OtherAnswer(e)

Dest(e) == IF e.op \in Modifying THEN e.r ELSE e.d
Ls(e) == IF e.op \in ListOps THEN [ls EXCEPT ![Dest(e)] = NewList(e)] ELSE ls
Ss(e) == IF e.op \in SetOps THEN [ss EXCEPT ![e.d] = NewSet(e)] ELSE ss
Cs(e) == IF e.op \in {"c.new", "c.copy"} THEN [cs EXCEPT ![e.d] = NewCache(e)]
         ELSE IF e.op \in CacheOps THEN [cs EXCEPT ![e.r] = NewCache(e)] ELSE cs

(* a tree of n nodes balanced as documented (operations in O(log n)) has at most this height *)
Height(n) == CASE n = 0 -> 0 [] n = 1 -> 1 [] n <= 3 -> 2 [] n <= 6 -> 3 [] n <= 11 -> 4 [] OTHER -> 5

Why(e, L, S) ==
  IF e.res # Answer(e) THEN "wrong answer"
  ELSE IF \E k \in 1..Len(L) : k # Dest(e) /\ e.ls[k] # L[k] THEN "another list has changed"
  ELSE IF \E k \in 1..Len(L) : e.ls[k] # L[k] THEN "wrong list"
  ELSE IF \E k \in 1..Len(S) : k # e.d /\ (Range(e.ss[k][1]) # S[k] \/ Range(e.ss[k][2]) # S[k] \/ Len(e.ss[k][1]) # Cardinality(S[k]))
       THEN "another set has changed"
  ELSE IF \E k \in 1..Len(S) : Range(e.ss[k][1]) # S[k] \/ Len(e.ss[k][1]) # Cardinality(S[k]) THEN "wrong elements"
  ELSE IF \E k \in 1..Len(S) : Range(e.ss[k][2]) # S[k] THEN "wrong membership"
  ELSE IF \E k \in 1..Len(S) : e.hs[k] > Height(Cardinality(S[k])) THEN "a set is not balanced"
  ELSE ""

Init == /\ c \in 1..Len(Cases) /\ l = 1 /\ bad = ""
        /\ ls = [k \in 1..Cases[c].nl |-> <<>>] /\ ss = [k \in 1..Cases[c].ns |-> {}]
        /\ cs = [k \in 1..Cases[c].nc |-> [v |-> 0, stale |-> FALSE]]

Next ==
  /\ bad = "" /\ l <= Len(Ev)
  /\ LET e == Ev[l]  L == Ls(e)  S == Ss(e)  why == Why(e, L, S) IN
     /\ bad' = why /\ ls' = L /\ ss' = S /\ cs' = Cs(e)
     /\ why # "" => PrintT(<<"REJECT", Cases[c].id, ToString(l), why>>)
  /\ l' = l + 1 /\ UNCHANGED c

Spec == Init /\ [][Next]_vars
=============================================================================
