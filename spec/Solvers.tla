------------------------------ MODULE Solvers ------------------------------
(* What the combinatorial solvers promise (C28), by exhaustive search over *)
(* all solutions of each instance.  Every line of the input file is one    *)
(* instance together with the answer the real solver gave.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Inst == ndJsonDeserialize(IOEnv.INST)
Max(a, b) == IF a > b THEN a ELSE b
Range(q) == {q[i] : i \in DOMAIN q}

(************************ minimum assignment problem **********************)
\* x = [r, c, perfect, max, m (full square matrix), row, col (has an edge), res, cost, as]
RECURSIVE SumTo(_, _, _)
SumTo(m, p, n) == IF n = 0 THEN 0 ELSE m[n][p[n]] + SumTo(m, p, n - 1)
RECURSIVE PermsOf(_)
PermsOf(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<v>> \o q : q \in PermsOf(S \ {v})} : v \in S}
Perms(n) == PermsOf(1..n)
Size(x) == Max(x.r, x.c)
Better(x, a, b) == IF x.max = 1 THEN a > b ELSE a < b
HungOk(x) ==
  LET n == Size(x)
      P == Perms(n)
      Vals == {SumTo(x.m, p, n) : p \in P}
      best == CHOOSE v \in Vals : \A w \in Vals : ~Better(x, w, v)
      Opt == {p \in P : SumTo(x.m, p, n) = best}
      Shown(p) == [i \in 1..n |-> IF x.perfect = 0 /\ (x.row[i] = 0 \/ x.col[p[i]] = 0) THEN -1 ELSE p[i] - 1]
  IN /\ x.res = 0
     /\ \E p \in Opt : x.as = Shown(p)
     /\ x.max = 0 => x.cost = best

(**************************** bipartite matching **************************)
\* x = [l, r, e (set of edges as pairs), as, adj]
\* Largest matching, by recursion over the left nodes with the set of used right nodes.
RECURSIVE Best(_, _, _)
Best(E, l, used) ==
  IF l = 0 THEN 0
  ELSE LET skip == Best(E, l - 1, used)
           S == {Best(E, l - 1, used \cup {e[2]}) + 1 : e \in {f \in E : f[1] = l /\ f[2] \notin used}}
       IN CHOOSE v \in S \cup {skip} : \A w \in S \cup {skip} : w <= v
BipOk(x) ==
  LET E == {<<x.e[i][1] + 1, x.e[i][2] + 1>> : i \in DOMAIN x.e}
      M == {i \in 1..x.l : x.as[i] >= 0}
  IN /\ \A i \in 1..x.l : x.as[i] \in -1..(x.r - 1)
     /\ \A i \in M : <<i, x.as[i] + 1>> \in E
     /\ \A i, j \in M : x.as[i] = x.as[j] => i = j
     /\ Cardinality(M) = Best(E, x.l, {})
     /\ x.adj = [k \in 1..(x.l * x.r) |-> IF <<((k - 1) \div x.r) + 1, ((k - 1) % x.r) + 1>> \in E THEN 1 ELSE 0]

(****************** partitioned boolean quadratic problem *****************)
\* x = [n, c (costs of each node), e (edges [s, t, m]), exact (solver), cost, sel]; -1 is infinite
Plus(a, b) == IF a = -1 \/ b = -1 THEN -1 ELSE a + b
RECURSIVE NodeSum(_, _, _)
NodeSum(x, s, i) == IF i = 0 THEN 0 ELSE Plus(x.c[i][s[i] + 1], NodeSum(x, s, i - 1))
EdgeVal(e, s) == IF e.s = e.t THEN e.m[s[e.s + 1] + 1][s[e.s + 1] + 1] ELSE e.m[s[e.s + 1] + 1][s[e.t + 1] + 1]
RECURSIVE EdgeSum(_, _, _)
EdgeSum(x, s, k) == IF k = 0 THEN 0 ELSE Plus(EdgeVal(x.e[k], s), EdgeSum(x, s, k - 1))
Cost(x, s) == Plus(NodeSum(x, s, x.n), EdgeSum(x, s, Len(x.e)))
RECURSIVE Sels(_, _)
Sels(x, i) == IF i = 0 THEN {<<>>} ELSE {Append(q, a) : q \in Sels(x, i - 1), a \in 0..(Len(x.c[i]) - 1)}
Less(a, b) == b = -1 \/ (a # -1 /\ a <= b)
Minimum(x) == LET C == {Cost(x, s) : s \in Sels(x, x.n)} IN CHOOSE v \in C : \A w \in C : Less(v, w)
\* the graph can be reduced by removing nodes with at most two neighbours (which then become adjacent)
RECURSIVE Reducible(_, _)
Reducible(V, E) ==
  IF V = {} THEN TRUE
  ELSE LET N(v) == {w \in V : {v, w} \in E /\ v # w}
           S == {v \in V : Cardinality(N(v)) <= 2}
       IN IF S = {} THEN FALSE
          ELSE LET v == CHOOSE u \in S : TRUE
               IN Reducible(V \ {v}, {e \in E : v \notin e} \cup (IF Cardinality(N(v)) = 2 THEN {N(v)} ELSE {}))
PbqpOk(x) ==
  LET red == Reducible(0..(x.n - 1), {{x.e[i].s, x.e[i].t} : i \in DOMAIN x.e})
      exact == x.exact = 1 \/ red
      valid == \A i \in 1..x.n : x.sel[i] \in 0..(Len(x.c[i]) - 1)
      min == Minimum(x)
  IN IF x.cost = -1 THEN exact => min = -1
     ELSE /\ valid
          \* the late decision variant does not account for the nodes it decides late
          /\ x.solver = 2 /\ ~red => Cost(x, x.sel) # -1
          /\ x.solver # 2 \/ red => Cost(x, x.sel) = x.cost
          /\ exact => x.cost = min

Ok(x) == CASE x.k = "hung" -> HungOk(x)
           [] x.k = "bip" -> BipOk(x)
           [] x.k = "pbqp" -> PbqpOk(x)

VARIABLES h, done
Init == h \in 1..Len(Inst) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED h
        /\ ~Ok(Inst[h]) => PrintT("@" \o ToJson([h |-> h]))
============================================================================
