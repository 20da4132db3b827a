------------------------------- MODULE Edges -------------------------------
(* Mutation of a graph and the use lists derived from it.  The abstract    *)
(* state is the graph itself (block and operands of every node) and        *)
(* whether use lists are kept; use lists are *defined* from the operands:  *)
(*   Users(n)  = {(s, p) : operand p of s is n}   (p = -1: the block)      *)
(*   Succs(b)  = {(c, p) : control predecessor p of block c leaves b}      *)
(* Every recorded observation must show exactly that.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Hists == ndJsonDeserialize(IOEnv.HIST)
EndNode == 3
IsBlk(r) == r.k = "B"

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Sub(q, a, b) == [i \in DOMAIN q |-> IF q[i] = a THEN b ELSE q[i]]
Start == [g |-> [n \in 1..3 |-> [k |-> IF n = EndNode THEN "E" ELSE "B", blk |-> 0, ops |-> <<>>]], act |-> FALSE]

Keep(g, n) == [g EXCEPT ![EndNode].ops = Append(@, n)]
\* replace operand f by t everywhere except in node x
Rename(g, f, t, x) == [n \in DOMAIN g |-> IF n = x THEN g[n] ELSE [g[n] EXCEPT !.ops = Sub(@, f, t), !.blk = IF @ = f THEN t ELSE @]]
RemoveAt(q, p) == IF p = Len(q) THEN SubSeq(q, 1, p - 1) ELSE SubSeq([q EXCEPT ![p] = q[Len(q)]], 1, Len(q) - 1)
\* without duplicates and Bads, going backwards
RECURSIVE Dbl(_, _, _, _)
Dbl(g, q, i, seen) == IF i = 0 THEN q
                      ELSE IF g[q[i]].k = "D" \/ q[i] \in seen THEN Dbl(g, RemoveAt(q, i), i - 1, seen)
                      ELSE Dbl(g, q, i - 1, seen \cup {q[i]})
LastPos(q, n) == CHOOSE i \in DOMAIN q : q[i] = n /\ \A j \in DOMAIN q : q[j] = n => j <= i

Users(g, n) == {<<s, p>> \in (DOMAIN g) \X (-1..60) :
                  IF p = -1 THEN g[s].blk = n /\ ~IsBlk(g[s]) ELSE p < Len(g[s].ops) /\ g[s].ops[p + 1] = n}
Succs(g, b) == {<<s, p>> \in {x \in DOMAIN g : IsBlk(g[x])} \X (0..60) :
                  p < Len(g[s].ops) /\ g[g[s].ops[p + 1]].k # "D" /\ g[g[s].ops[p + 1]].blk = b}
Hit(e, u) == (u[1] + u[2]) % e.m = e.r0 /\ u[1] > 3

After(st, e) ==
  LET g == st.g IN
  CASE e.o = "new" -> [st EXCEPT !.g = Keep(Put(g, e.a, [k |-> e.k, blk |-> e.b, ops |-> e.l]), e.a)]
    [] e.o = "copy" -> [st EXCEPT !.g = Keep(Put(g, e.a, g[e.b]), e.a)]
    [] e.o = "setn" -> IF e.p < 0 THEN [st EXCEPT !.g[e.a].blk = e.b] ELSE [st EXCEPT !.g[e.a].ops[e.p + 1] = e.b]
    [] e.o = "move" -> [st EXCEPT !.g = [n \in DOMAIN g |-> IF \E i \in DOMAIN e.l : e.l[i] = n THEN [g[n] EXCEPT !.blk = e.b] ELSE g[n]]]
    [] e.o = "setin" -> [st EXCEPT !.g[e.a].ops = e.l]
    [] e.o = "add" -> [st EXCEPT !.g[e.a].ops = Append(@, e.b)]
    [] e.o = "rem" -> [st EXCEPT !.g[e.a].ops = RemoveAt(@, e.p + 1)]
    [] e.o = "ka" -> [st EXCEPT !.g[EndNode].ops = e.l]
    [] e.o = "dbl" -> [st EXCEPT !.g[EndNode].ops = Dbl(g, @, Len(@), {})]
    [] e.o = "reroute" -> [st EXCEPT !.g = Rename(g, e.a, e.b, 0)]
    [] e.o = "except" -> [st EXCEPT !.g = Rename(g, e.a, e.b, e.p)]
    [] e.o = "exch" -> LET g2 == Rename(g, e.a, e.b, e.a) IN [st EXCEPT !.g = [n \in DOMAIN g \ {e.a} |-> g2[n]]]
    [] e.o = "kill" -> LET g2 == [g EXCEPT ![EndNode].ops = RemoveAt(@, LastPos(@, e.a))]
                       IN [st EXCEPT !.g = [n \in DOMAIN g \ {e.a} |-> g2[n]]]
    [] e.o = "act" -> [st EXCEPT !.act = TRUE]
    [] e.o = "deact" -> [st EXCEPT !.act = FALSE]
    [] e.o = "outs" -> st
    [] e.o = "walk" -> LET H == {u \in Users(g, e.a) : Hit(e, u)}
                       IN [st EXCEPT !.g = [n \in DOMAIN g |->
                             [g[n] EXCEPT !.blk = IF <<n, -1>> \in H THEN e.b ELSE @,
                                          !.ops = [i \in DOMAIN @ |-> IF <<n, i - 1>> \in H THEN e.b ELSE @[i]]]]]

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : y = x \/ Less(x, y) IN m \o Sorted(S \ {m})
List(S) == <<Cardinality(S), Cardinality(S)>> \o Sorted(S)
Observed(st, outs) ==
  LET g == st.g
      One(n) == IF n \notin DOMAIN g \/ n = 2 THEN <<>>
                ELSE <<-1, n, IF IsBlk(g[n]) THEN 0 ELSE g[n].blk, Len(g[n].ops)>> \o g[n].ops
                     \o (IF n = EndNode \/ ~(outs \/ st.act) THEN <<>> ELSE List(Users(g, n)))
                     \o (IF n = EndNode \/ outs \/ ~st.act \/ ~IsBlk(g[n]) THEN <<>> ELSE List(Succs(g, n)))
  IN Flat([n \in 1..80 |-> One(n)])

RECURSIVE Pairs(_)
Pairs(q) == IF Len(q) < 2 THEN <<>> ELSE <<<<q[1], q[2]>>>> \o Pairs(SubSeq(q, 3, Len(q)))
FirstOf(q, x) == CHOOSE i \in DOMAIN q : q[i] = x /\ \A j \in DOMAIN q : q[j] = x => i <= j
Succ(st, e) ==
  LET s2 == After(st, e)
      obs == Observed(s2, e.o = "outs")
      ok == IF e.o # "walk" THEN e.r = obs
            ELSE LET n == FirstOf(e.r, -1)
                     \* -1 may also be an operand position in the list of visited users: the observation is the tail
                     t == Len(e.r) - Len(obs)
                     vis == Pairs(SubSeq(e.r, 2, t))
                 IN /\ t >= 1 /\ SubSeq(e.r, t + 1, Len(e.r)) = obs
                    /\ {vis[i] : i \in DOMAIN vis} = Users(st.g, e.a)
                    /\ Len(vis) = Cardinality(Users(st.g, e.a))
  IN IF ok THEN {s2} ELSE {}

VARIABLES h, i, st
Init == \E x \in DOMAIN Hists : h = x /\ i = 1 /\ st = Start
Next ==
  /\ i <= Len(Hists[h].ev) /\ i > 0
  /\ h' = h
  /\ \E S \in {Succ(st, Hists[h].ev[i])} :
       IF S = {} THEN /\ PrintT("@" \o ToJson([h |-> h, i |-> i, st |-> ToString(Observed(After(st, Hists[h].ev[i]), Hists[h].ev[i].o = "outs"))]))
                      /\ st' = st /\ i' = 0
       ELSE st' \in S /\ i' = i + 1
=============================================================================
