-------------------------------- MODULE ADT --------------------------------
(* Abstract state machines of libfirm's containers.                        *)
(*                                                                         *)
(* Succ(kind, p, st, e) is the set of abstract states a container of that  *)
(* kind may be in after operation e, given that it was in st and that the  *)
(* operation returned e.r.  The empty set means: the specification does    *)
(* not allow that result.  Each recorded history (one per line of the      *)
(* input file) is a behaviour of the real code; it is accepted iff it is   *)
(* a behaviour of this machine.                                            *)
(*                                                                         *)
(* e = [o |-> operation, s |-> container (0..2), a, b, c |-> arguments,    *)
(*      r |-> sequence of integers returned]                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Range(q) == {q[i] : i \in DOMAIN q}
Injective(q) == \A i, j \in DOMAIN q : q[i] = q[j] => i = j
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Last(q) == q[Len(q)]
B(c) == IF c THEN 1 ELSE 0
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* sequence of a finite set of integers in increasing order
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o Sorted(S \ {m})

(***************************** sets and maps ******************************)
\* a container is a function from the keys present to the value stored
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, D) == [x \in DOMAIN m \ D |-> m[x]]
Keys(r) == [i \in 1..(Len(r) \div 2) |-> r[2 * i - 1]]
Vals(r) == [i \in 1..(Len(r) \div 2) |-> r[2 * i]]

PlainSet == {"psetnew", "psetptr", "nodeset"}   \* elements are their own key
ObjSet == {"cpset", "pset", "set"}              \* insertion keeps and returns the first equal element
Replacing == {"pmap", "nodehash", "nodemap"}    \* insertion replaces

SetSucc(kind, p, st, e) ==
  LET m == st[e.s]
      k == e.a
      has == k \in DOMAIN m
      Res(ok, m2) == IF ok THEN {[st EXCEPT ![e.s] = m2]} ELSE {}
  IN CASE e.o = "ins" ->
            (CASE kind \in {"psetnew", "nodeset"} -> Res(e.r = <<B(~has)>>, Put(m, k, 0))
               [] kind = "psetptr" -> Res(e.r = <<k>>, Put(m, k, 0))
               [] kind \in ObjSet -> Res(e.r = <<k, IF has THEN m[k] ELSE e.b>>, IF has THEN m ELSE Put(m, k, e.b))
               [] kind \in {"pmap", "nodehash"} -> Res(e.r = <<>>, Put(m, k, e.b))
               [] kind = "nodemap" -> Res(e.r = <<>>, IF e.b = 0 THEN Del(m, {k}) ELSE Put(m, k, e.b))
               [] kind = "valueset" -> Res(e.r = <<B(~has)>>, IF has THEN m ELSE Put(m, k, e.b)))
       [] e.o = "hins" -> Res(e.r = <<1, k, IF has THEN m[k] ELSE e.b>>, IF has THEN m ELSE Put(m, k, e.b))
       [] e.o = "rep" -> Res(e.r = <<B(~has \/ m[k] # e.b)>>, Put(m, k, e.b))
       [] e.o = "get" ->
            (CASE kind \in {"psetnew", "nodeset"} -> Res(e.r = <<B(has)>>, m)
               [] kind = "psetptr" -> Res(e.r = IF has THEN <<1, k>> ELSE <<0>>, m)
               [] kind \in ObjSet -> Res(e.r = IF has THEN <<1, k, m[k]>> ELSE <<0>>, m)
               [] kind = "pmap" -> Res(e.r = <<B(has), IF has THEN m[k] ELSE 0>>, m)
               [] kind \in {"nodehash", "nodemap", "valueset"} -> Res(e.r = <<IF has THEN m[k] ELSE 0>>, m))
       [] e.o = "rem" ->
            (CASE kind = "pset" -> Res(has /\ e.r = <<k, m[k]>>, Del(m, {k}))
               [] kind = "psetptr" -> Res(has /\ e.r = <<k>>, Del(m, {k}))
               [] OTHER -> Res(e.r = <<>>, Del(m, {k})))
       [] e.o = "size" -> Res(e.r = <<Cardinality(DOMAIN m)>>, m)
       [] e.o = "iter" ->     \* visit at most a elements, removing those with key % b = c
            LET ks == Keys(e.r)
                vs == Vals(e.r)
                D == IF e.b = 0 THEN {} ELSE {x \in Range(ks) : x % e.b = e.c}
            IN Res(/\ Injective(ks)
                   /\ \A i \in DOMAIN ks : ks[i] \in DOMAIN m /\ vs[i] = m[ks[i]]
                   /\ Len(ks) = IF Cardinality(DOMAIN m) < e.a THEN Cardinality(DOMAIN m) ELSE e.a,
                   Del(m, D))
       [] e.o = "merge" -> Res(e.r = <<>>, LET src == st[e.a] IN [x \in DOMAIN m \cup DOMAIN src |-> 0])

(************************** double ended queues ***************************)
DeqSucc(p, st, e) ==
  LET q == st[e.s]
      n == e.b
      Run == [i \in 1..n |-> e.a + i - 1]
      Res(ok, q2) == IF ok THEN {[st EXCEPT ![e.s] = q2]} ELSE {}
  IN CASE e.o = "pushl" -> Res(e.r = <<>>, Rev(Run) \o q)
       [] e.o = "pushr" -> Res(e.r = <<>>, q \o Run)
       [] e.o = "popl" -> Res(n <= Len(q) /\ e.r = SubSeq(q, 1, n), SubSeq(q, n + 1, Len(q)))
       [] e.o = "popr" -> Res(n <= Len(q) /\ e.r = Rev(SubSeq(q, Len(q) - n + 1, Len(q))), SubSeq(q, 1, Len(q) - n))
       [] e.o = "empty" -> Res(e.r = <<B(q = <<>>)>>, q)
       [] e.o = "peek" -> Res(q # <<>> /\ e.r = <<Head(q), Last(q)>>, q)
       [] e.o = "iter" -> Res(e.r = q, q)
       [] e.o = "allocl" -> Res(e.r = <<>>, <<e.a>> \o q)
       [] e.o = "allocr" -> Res(e.r = <<>>, Append(q, e.a))
       [] e.o = "takel" -> Res(q # <<>> /\ e.r = <<Head(q)>>, Tail(q))
       [] e.o = "taker" -> Res(q # <<>> /\ e.r = <<Last(q)>>, SubSeq(q, 1, Len(q) - 1))

(**************************** priority queues *****************************)
\* a set of pairs <<item, priority>>; every item is queued at most once
PqSucc(p, st, e) ==
  LET q == st[e.s]
      Res(ok, q2) == IF ok THEN {[st EXCEPT ![e.s] = q2]} ELSE {}
  IN CASE e.o = "put" -> Res(e.r = <<>>, q \cup {<<e.a, e.b>>})
       [] e.o = "pop" -> {[st EXCEPT ![e.s] = q \ {x}] : x \in {y \in q : e.r = <<y[1]>> /\ \A z \in q : z[2] <= y[2]}}
       [] e.o = "len" -> Res(e.r = <<Cardinality(q), B(q = {})>>, q)

(**************************** flexible arrays *****************************)
ArrSucc(p, st, e) ==
  LET x == st[e.s]
      Fill(n) == [i \in 1..n |-> e.b + i - 1]
      Resized(n) == [i \in 1..n |-> IF i <= Len(x) THEN x[i] ELSE e.b + i - 1]
      Res(ok, y) == IF ok THEN {[st EXCEPT ![e.s] = y]} ELSE {}
  IN CASE e.o = "app" -> Res(e.r = <<>>, Append(x, e.a))
       [] e.o = "resize" -> Res(e.r = <<>>, Resized(e.a))
       [] e.o = "setlen" -> Res(e.r = <<>>, Fill(e.a))
       [] e.o = "shrink" -> Res(e.r = <<>>, SubSeq(x, 1, e.a))
       [] e.o = "extend" -> Res(e.r = <<>>, Resized(Len(x) + e.a))
       [] e.o = "exto" -> \* extends (never shrinks) to at least a elements; new elements are arbitrary
            Res(/\ Len(e.r) >= e.a /\ Len(e.r) >= Len(x)
                /\ e.a < Len(x) => e.r = x
                /\ SubSeq(e.r, 1, Len(x)) = x, e.r)
       [] e.o = "put" -> Res(e.r = <<>>, [x EXCEPT ![e.a + 1] = e.b])
       [] e.o = "dup" -> Res(e.r = <<>>, st[e.b])
       [] e.o = "zeros" -> Res(e.r = <<>>, [i \in 1..e.a |-> 0])
       [] e.o = "dump" -> Res(e.r = x, x)
       [] e.o = "len" -> Res(e.r = <<Len(x)>>, x)

(******************************** bit sets ********************************)
BitsSucc(kind, p, st, e) ==
  LET n == p[1]
      U == 0..(n - 1)
      x == st[e.s]
      y == IF e.b \in 0..2 THEN st[e.b] ELSE {}
      Res(ok, z) == IF ok THEN {[st EXCEPT ![e.s] = z]} ELSE {}
      Ask(v) == Res(e.r = <<v>>, x)
      Mut(z) == Res(e.r = <<>>, z)
      First(S) == IF S = {} THEN -1 ELSE MinOf(S)
      Final(S) == IF S = {} THEN -1 ELSE MaxOf(S)
      \* [from;to[ in either order, clipped to the size
      lo == IF e.a < e.b THEN e.a ELSE e.b
      hi == IF e.a < e.b THEN e.b ELSE e.a
      Span == {i \in U : lo <= i /\ i < hi}
  IN CASE e.o = "set" -> Mut(x \cup {e.a})
       [] e.o = "clr" -> Mut(x \ {e.a})
       [] e.o = "flip" -> Mut(IF e.a \in x THEN x \ {e.a} ELSE x \cup {e.a})
       [] e.o = "flipall" -> Mut(U \ x)
       [] e.o = "setall" -> Mut(U)
       [] e.o = "clrall" -> Mut({})
       [] e.o = "minus1" -> Mut(IF x = {} THEN U ELSE (x \ {MinOf(x)}) \cup 0..(MinOf(x) - 1))
       [] e.o = "setrange" -> Mut(x \cup Span)
       [] e.o = "clrrange" -> Mut(x \ Span)
       [] e.o = "copy" -> Mut(y)
       [] e.o = "and" -> Mut(x \cap y)
       [] e.o = "or" -> Mut(x \cup y)
       [] e.o = "andnot" -> Mut(x \ y)
       [] e.o = "xor" -> Mut((x \ y) \cup (y \ x))
       [] e.o = "isset" -> Ask(B(e.a \in x))
       [] e.o = "popcount" -> Ask(Cardinality(x))
       [] e.o = "empty" -> Ask(B(x = {}))
       [] e.o = "contains" -> \* bitset: lhs in rhs; raw: all bits of the first in the second
            Ask(B(x \subseteq y))
       [] e.o = "common" -> Ask(B(x \cap y # {}))
       [] e.o = "equal" -> Ask(B(x = y))
       [] e.o = "nextset" -> Ask(First({i \in x : i >= e.a}))
       [] e.o = "nextclr" -> Ask(First({i \in U \ x : i >= e.a}))
       [] e.o = "nextset2" -> Ask(First({i \in x : i >= e.a}))
       [] e.o = "nextclr2" -> Ask(First({i \in U \ x : i >= e.a}))
       [] e.o = "nextmax" -> Ask(First({i \in x : i >= e.a /\ i < e.b}))
       [] e.o = "nextmaxclr" -> Ask(First({i \in U \ x : i >= e.a /\ i < e.b}))
       [] e.o = "prevset" -> Ask(Final({i \in x : i < e.a}))
       [] e.o = "prevclr" -> Ask(Final({i \in U \ x : i < e.a}))
       [] e.o \in {"each", "dump", "tobitset"} -> Res(e.r = Sorted(x), x)
       [] e.o = "eachclr" -> Res(e.r = Sorted(U \ x), x)
       [] e.o = "eachrev" -> Res(e.r = Rev(Sorted(x)), x)

(******************************* union find *******************************)
\* the state maps every element to the representative of its class
UfSucc(p, st, e) ==
  CASE e.o = "find" -> IF e.r = <<st[e.a]>> THEN {st} ELSE {}
    [] e.o = "union" ->
         IF Len(e.r) = 1 /\ e.r[1] \in {st[e.a], st[e.b]}
         THEN {[x \in DOMAIN st |-> IF st[x] \in {st[e.a], st[e.b]} THEN e.r[1] ELSE st[x]]}
         ELSE {}

(******************************* the machine ******************************)
Empty(kind, p) ==
  CASE kind \in PlainSet \cup ObjSet \cup Replacing \cup {"valueset"} -> [s \in 0..2 |-> <<>>]
    [] kind \in {"deq", "arr"} -> [s \in 0..2 |-> <<>>]
    [] kind \in {"pqueue", "bitset", "rbitset"} -> [s \in 0..2 |-> {}]
    [] kind = "uf" -> [x \in 0..(p[1] - 1) |-> x]

Succ(kind, p, st, e) ==
  CASE kind = "deq" -> DeqSucc(p, st, e)
    [] kind = "arr" -> ArrSucc(p, st, e)
    [] kind = "pqueue" -> PqSucc(p, st, e)
    [] kind \in {"bitset", "rbitset"} -> BitsSucc(kind, p, st, e)
    [] kind = "uf" -> UfSucc(p, st, e)
    [] OTHER -> SetSucc(kind, p, st, e)

Hist == ndJsonDeserialize(IOEnv.HIST)
VARIABLES h, i, st, bad
vars == <<h, i, st, bad>>

Init == /\ h \in 1..Len(Hist)
        /\ i = 1
        /\ bad = FALSE
        /\ st = Empty(Hist[h].kind, Hist[h].p)

Step == /\ ~bad
        /\ i <= Len(Hist[h].ev)
        /\ \E S \in {Succ(Hist[h].kind, Hist[h].p, st, Hist[h].ev[i])} :
             IF S = {}
             THEN /\ PrintT("@" \o ToJson([h |-> h, i |-> i, st |-> ToString(st)]))
                  /\ bad' = TRUE
                  /\ UNCHANGED <<h, i, st>>
             ELSE /\ st' \in S
                  /\ i' = i + 1
                  /\ UNCHANGED <<h, bad>>
Next == Step
============================================================================
