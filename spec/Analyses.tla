------------------------------ MODULE Analyses ------------------------------
(* Graphs, and what it means for an analysis of a graph to be right.  A     *)
(* graph is a table of nodes <<op, block, flags, operands>> (node 1: start  *)
(* block, 2: end block, 3: End; nodes 1..core are those End reaches).       *)
(* Everything is defined by paths, then compared with what the library      *)
(* reported for the graph.  The state machine at the end takes the recorded *)
(* observations one by one: a record on which observation and definition    *)
(* differ is reported.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)

Range(q) == {q[i] : i \in DOMAIN q}
Op(N, n) == N[n][1]
Ins(N, n) == N[n][4]
IsX(N, n) == N[n][3] % 2 = 1
BlkOf(N, n) == IF Op(N, n) = "Block" THEN n ELSE N[n][2]
PredBlk(N, b, k) == LET p == Ins(N, b)[k] IN IF Op(N, p) = "Bad" THEN 0 ELSE BlkOf(N, p)
Blocks(N) == {n \in DOMAIN N : Op(N, n) = "Block"}
Flow(N) == UNION {{<<PredBlk(N, b, k), b>> : k \in DOMAIN Ins(N, b)} : b \in Blocks(N)} \ {<<0, b>> : b \in Blocks(N)}
Kept(N) == {p \in Range(Ins(N, 3)) : Op(N, p) = "Block"} \ {2}
\* the operands of a node, its block first
Down(N, n) == Range(Ins(N, n)) \cup (IF Op(N, n) = "Block" THEN {} ELSE {N[n][2]})

\* successor function of a set of edges
SuccFn(V, E) == [v \in V |-> {e[2] : e \in {x \in E : x[1] = v}}]
PredFn(V, E) == [v \in V |-> {e[1] : e \in {x \in E : x[2] = v}}]
RECURSIVE Clo(_, _, _, _)
Clo(S, front, seen, avoid) == IF front = {} THEN seen
                              ELSE LET nx == UNION {S[v] : v \in front} \ (seen \cup avoid) IN Clo(S, nx, seen \cup nx, avoid)
Reach(S, from, avoid) == Clo(S, from \ avoid, from \ avoid, avoid)

(* ---- dominance -------------------------------------------------------- *)
\* of every vertex reachable from root: the set of its dominators (a dominates b: no path from root to b avoids a)
DomSets(S, root) ==
  LET R == Reach(S, {root}, {})
      av == [a \in R |-> Reach(S, {root}, {a})]
  IN [b \in R |-> {a \in R : b \notin av[a]}]
Idom(D, b) == IF Cardinality(D[b]) = 1 THEN 0 ELSE CHOOSE a \in D[b] \ {b} : Cardinality(D[a]) = Cardinality(D[b]) - 1
Common(D, a, b) == LET C == D[a] \cap D[b] IN CHOOSE x \in C : Cardinality(D[x]) = Cardinality(C)

Row(q, b) == LET I == {i \in DOMAIN q : q[i][1] = b} IN IF I = {} THEN <<>> ELSE q[CHOOSE i \in I : TRUE]
Tail1(q) == SubSeq(q, 2, Len(q))
\* t: rows <<block, parent, depth, pre, max>>; k: children; q: <<a, everything a dominates>>
TreeOK(D, root, t, k, q, name) ==
  LET V == DOMAIN D
      row == [i \in {t[j][1] : j \in DOMAIN t} |-> Row(t, i)]
      B == DOMAIN row
  IN (IF \A b \in V : b \in B THEN {} ELSE {name \o ": a block is missing"}) \cup
     (IF \A b \in V : row[b][2] = Idom(D, b) THEN {} ELSE {name \o ": immediate dominator"}) \cup
     (IF \A b \in V : row[b][3] = Cardinality(D[b]) THEN {} ELSE {name \o ": depth"}) \cup
     (IF \A b \in B \ V : row[b][2] = 0 /\ row[b][3] < 1 THEN {} ELSE {name \o ": unreachable block in the tree"}) \cup
     (IF \A a, b \in V : (a = b \/ row[a][4] # row[b][4]) /\ ((a \in D[b]) <=> (row[a][4] <= row[b][4] /\ row[b][4] <= row[a][5]))
      THEN {} ELSE {name \o ": pre-order numbers"}) \cup
     (IF \A i \in DOMAIN k : k[i][1] \in V => /\ Range(Tail1(k[i])) = {b \in V : Idom(D, b) = k[i][1]}
                                              /\ Cardinality(Range(Tail1(k[i]))) = Len(k[i]) - 1
      THEN {} ELSE {name \o ": children"}) \cup
     (IF \A i \in DOMAIN q : q[i][1] \in V => Range(Tail1(q[i])) = {b \in V : q[i][1] \in D[b]} THEN {} ELSE {name \o ": dominance query"})
DcdOK(D, q) == IF \A i \in DOMAIN q : \A j \in 1..((Len(q[i]) - 1) \div 2) :
                    q[i][1] \in DOMAIN D /\ q[i][2 * j] \in DOMAIN D => q[i][2 * j + 1] = Common(D, q[i][1], q[i][2 * j])
               THEN {} ELSE {"deepest common dominator"}
FrontierOK(N, D, F, q) ==
  LET DF(a) == {y \in DOMAIN D : \E p \in DOMAIN D : <<p, y>> \in F /\ a \in D[p] /\ (a = y \/ a \notin D[y])}
  IN IF \A i \in DOMAIN q : q[i][1] \in DOMAIN D => Range(Tail1(q[i])) = DF(q[i][1]) THEN {} ELSE {"dominance frontier"}

\* edges for dominance: a kept block is a predecessor of the end block
DomEdges(N, F) == F \cup {<<k, 2>> : k \in Kept(N)}
\* edges for postdominance: only for kept blocks without a way to the end
PdomEdges(N, F) == LET P == PredFn(Blocks(N), F) IN F \cup {<<k, 2>> : k \in Kept(N) \ Reach(P, {2}, {})}

\* b is control dependent on p: b postdominates a successor of p, but not p itself (the start block has the end block
\* as a further successor)
Cdep(F, P, b) == {e[1] : e \in {x \in F : /\ x[2] \in DOMAIN P /\ b \in P[x[2]]
                                          /\ ~(IF x[1] = 1 THEN b = 2 ELSE b # x[1] /\ b \in P[x[1]])}}
CdepOK(F, P, q, u) ==
  (IF \A i \in DOMAIN q : q[i][1] \in DOMAIN P => Range(Tail1(q[i])) = Cdep(F, P, q[i][1]) /\ Cardinality(Range(Tail1(q[i]))) = Len(q[i]) - 1
   THEN {} ELSE {"control dependence"}) \cup
  (IF \A i \in DOMAIN u : u[i][1] \in DOMAIN P =>
        LET c == Cdep(F, P, u[i][1]) IN
        /\ Range(SubSeq(u[i], 4, Len(u[i]))) = c
        /\ u[i][2] = (IF Cardinality(c) = 1 THEN CHOOSE x \in c : TRUE ELSE 0)
        /\ (u[i][3] # 0) = (Cardinality(c) > 1)
   THEN {} ELSE {"control dependence query"})

(* ---- loops ------------------------------------------------------------ *)
Acyclic(V, E) == LET S == SuccFn(V, E) IN \A v \in V : v \notin Reach(S, S[v], {})
StronglyConnected(V, E) == LET S == SuccFn(V, {e \in E : e[1] \in V /\ e[2] \in V}) IN
                           \A v \in V : Reach(S, S[v], {}) = V
\* Loops are judged where the start block reaches them (cycles of unreachable blocks may go unnoticed).
\* the blocks lying on a common cycle with v (none: no cycle)
Scc(S, P, v) == Reach(S, S[v], {}) \cap Reach(P, P[v], {})
LoopOK(N, F, loops, of) ==
  LET lo == [b \in {of[i][1] : i \in DOMAIN of} |-> LET i == CHOOSE j \in DOMAIN of : of[j][1] = b IN of[i][2]]
      W == {b \in DOMAIN lo : lo[b] # 0}
      V == W \cap Reach(SuccFn(Blocks(N), F), {1}, {})
      FV == {e \in F : e[1] \in V /\ e[2] \in V}
      S == SuccFn(V, FV)   P == PredFn(V, FV)
      L == DOMAIN loops
      El(l) == Range(SubSeq(loops[l], 3, Len(loops[l])))
      Kids(l) == {-x : x \in {y \in El(l) : y < 0}}
      RECURSIVE Sub(_)
      Sub(l) == {x \in El(l) : x > 0} \cup UNION {Sub(c) : c \in Kids(l)}
      BE == UNION {{<<PredBlk(N, of[i][1], k), of[i][1]>> : k \in {x \in DOMAIN Ins(N, of[i][1]) : of[i][2 + x] = 1}} : i \in DOMAIN of}
      tree == /\ loops[1][2] = 0
              /\ \A l \in L \ {1} : loops[l][1] \in L /\ l \in Kids(loops[l][1]) /\ loops[l][1] # l
              /\ \A l \in L : \A c \in Kids(l) : c \in L \ {1} /\ loops[c][1] = l
              /\ \A l \in L : Cardinality(El(l)) = Len(loops[l]) - 2
              /\ \A l \in L : \A x \in El(l) : x > 0 => x \in W /\ lo[x] = l
              /\ \A b \in W : b \in El(lo[b])
              /\ Reach([l \in L |-> Kids(l)], {1}, {}) = L
  IN IF L = {} \/ ~tree THEN {"loop tree is not a tree"}
     ELSE (IF \A l \in L \ {1} : loops[l][2] = loops[loops[l][1]][2] + 1 THEN {} ELSE {"loop depth"}) \cup
          (IF \A b \in Reach(SuccFn(Blocks(N), F), {1}, {}) : b \in V THEN {} ELSE {"a reachable block is in no loop"}) \cup
          (IF \A l \in L \ {1} : Sub(l) # {} /\ (Sub(l) \cap V = {} \/ (Sub(l) \subseteq V /\ StronglyConnected(Sub(l), FV))) THEN {} ELSE {"a loop without a common cycle"}) \cup
          \* outermost loops: the maximal cycles
          (IF \A v \in V : LET c == Scc(S, P, v) IN
                IF c = {} THEN lo[v] = 1 ELSE \E l \in Kids(1) : Sub(l) = c
           THEN {} ELSE {"outermost loop"}) \cup
          \* every edge marked lies within a loop; without these edges no cycle is left
          (IF \A e \in BE : e[2] \in V => \E l \in Kids(1) : e[1] \in Sub(l) /\ e[2] \in Sub(l) THEN {} ELSE {"back edge outside of any loop"}) \cup
          (IF Acyclic(V, FV \ BE) THEN {} ELSE {"a cycle without back edge"}) \cup
          \* the inner loops catch every cycle that remains when the back edges of the loop are removed
          (IF \A l \in {x \in L \ {1} : Sub(x) \subseteq V} :
                LET in == Sub(l)
                    rep == [b \in in |-> IF b \in El(l) THEN b ELSE -(CHOOSE c \in Kids(l) : b \in Sub(c))]
                    E == {<<rep[e[1]], rep[e[2]]>> : e \in {x \in FV \ BE : x[1] \in in /\ x[2] \in in}}
                IN Acyclic({rep[b] : b \in in}, {e \in E : e[1] # e[2]})
           THEN {} ELSE {"inner loop"})
\* in a reducible graph the back edges are exactly the edges to a dominator
NaturalOK(N, F, D, of) ==
  LET V == DOMAIN D
      nat == {e \in F : e[1] \in V /\ e[2] \in D[e[1]]}
      FV == {e \in F : e[1] \in V /\ e[2] \in V}
      BE == UNION {{<<PredBlk(N, of[i][1], k), of[i][1]>> : k \in {x \in DOMAIN Ins(N, of[i][1]) : of[i][2 + x] = 1}} : i \in {x \in DOMAIN of : of[x][1] \in V}}
      \* an unreachable block with a way into a loop is an entry like any other
      alien == \E e \in F : e[2] \in V /\ e[1] \notin V
  IN IF ~alien /\ Acyclic(V, FV \ nat) => {e \in BE : e[1] \in V} = nat THEN {} ELSE {"back edges of a reducible graph"}

(* ---- liveness --------------------------------------------------------- *)
NoValue == {"Block", "Bad", "End", "Anchor", "NoMem"}
LiveOK(N, F, R, live) ==
  LET P == PredFn(Blocks(N), F)   S == SuccFn(Blocks(N), F)
      One(q) ==
        LET v == q[1]
            d == N[v][2]
            us == {u \in DOMAIN N : v \in Range(Ins(N, u)) /\ Op(N, u) \notin NoValue}
            inb == {N[u][2] : u \in {x \in us : Op(N, x) # "Phi"}}
            phi == UNION {{PredBlk(N, N[u][2], k) : k \in {x \in DOMAIN Ins(N, u) : Ins(N, u)[x] = v}} : u \in {x \in us : Op(N, x) = "Phi"}}
            in == Reach(P, (inb \cup phi) \ {d, 0}, {d})
            out == {b \in R : S[b] \cap in # {}}
            said == [b \in R |-> LET J == {j \in 1..((Len(q) - 1) \div 2) : q[2 * j] = b} IN IF J = {} THEN 0 ELSE q[2 * (CHOOSE j \in J : TRUE) + 1]]
            mask(b) == (IF b \in in THEN 1 ELSE 0) + (IF b \in out \/ b \in phi THEN 2 ELSE 0) + (IF b \in out THEN 4 ELSE 0)
        IN \A b \in R : said[b] = mask(b)
  IN IF \A i \in DOMAIN live : One(live[i]) THEN {} ELSE {"liveness"}

(* ---- heights ---------------------------------------------------------- *)
HeightOK(N, hs, hs2, hr) ==
  LET h == [n \in {hs[i][1] : i \in DOMAIN hs} |-> LET i == CHOOSE j \in DOMAIN hs : hs[j][1] = n IN hs[i][2]]
      V == DOMAIN h
      \* every node raises the operands in its block by one; a height is the largest of these

      users == [o \in V |-> {u \in V : Op(N, u) # "Phi" /\ N[u][2] = N[o][2] /\ o \in Range(Ins(N, u))}]
      Max0(T) == IF T = {} THEN 0 ELSE CHOOSE x \in T : \A y \in T : y <= x
      ops == [n \in V |-> IF Op(N, n) = "Phi" THEN {} ELSE {o \in Range(Ins(N, n)) \cap V : N[o][2] = N[n][2]}]
      One(q) == LET n == q[1]   up == Reach(ops, {n}, {}) IN
                \A j \in 2..Len(q) : (q[j] > 0) <=> ((IF q[j] > 0 THEN q[j] ELSE -q[j]) \in up)
  IN (IF \A n \in V : h[n] = Max0({h[u] + 1 : u \in users[n]}) THEN {} ELSE {"heights"}) \cup
     (IF hs = hs2 THEN {} ELSE {"heights after recomputing"}) \cup
     (IF \A i \in DOMAIN hr : One(hr[i]) THEN {} ELSE {"reachability within a block"})

(* ---- users ------------------------------------------------------------ *)
PairSet(q) == {<<q[2 * j], q[2 * j + 1]>> : j \in 1..((Len(q) - 1) \div 2)}
Users(N, top) == LET U == UNION {{<<Ins(N, u)[k], u, k - 1>> : k \in DOMAIN Ins(N, u)} \cup (IF Op(N, u) = "Block" THEN {} ELSE {<<N[u][2], u, -1>>}) : u \in 1..top}
                 IN [n \in DOMAIN N |-> {<<x[2], x[3]>> : x \in {y \in U : y[1] = n}}]
\* blocks the block walk finds: against the flow from the end block and the blocks of kept nodes
BlockWalk(N, F) == Reach(PredFn(Blocks(N), F), {2} \cup {BlkOf(N, p) : p \in {x \in Range(Ins(N, 3)) : Op(N, x) # "Bad"}}, {})
EdgesOK(N, F, es, bs, strict) ==
  LET U == Users(N, Len(N))
      BW == BlockWalk(N, F)
      S(b) == UNION {{<<c, k - 1>> : k \in {x \in DOMAIN Ins(N, c) : PredBlk(N, c, x) = b}} : c \in BW}
      Known(q) == {x \in PairSet(q) : x[1] # 0}
      Foreign(q) == Cardinality({j \in 1..((Len(q) - 1) \div 2) : q[2 * j] = 0})
  IN (IF \A n \in DOMAIN N : Known(es[n]) = U[n] THEN {} ELSE {"use lists"}) \cup
     (IF \A n \in DOMAIN N : es[n][1] = (Len(es[n]) - 1) \div 2 /\ (strict => es[n][1] = Cardinality(U[n]))
                             /\ es[n][1] = Cardinality(U[n]) + Foreign(es[n]) THEN {} ELSE {"number of users"}) \cup
     (IF \A i \in DOMAIN bs : bs[i][1] \in BW =>
            LET q == Tail1(bs[i]) IN {x \in PairSet(q) : x[1] \in BW} = S(bs[i][1]) /\ q[1] = (Len(q) - 1) \div 2 /\ (strict => q[1] = Cardinality(S(bs[i][1])))
      THEN {} ELSE {"block successor edges"})
OutsOK(N, core, os, bo, bk) ==
  LET U == Users(N, core)
      XOf(b) == {x \in 1..core : IsX(N, x) /\ N[x][2] = b /\ Op(N, x) \notin {"End", "Bad"}}
      C(b) == UNION {U[x] : x \in XOf(b)}
      Cnt(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
  IN (IF \A n \in DOMAIN N : PairSet(os[n]) = U[n] /\ os[n][1] = Cardinality(U[n]) /\ Len(os[n]) = 2 * os[n][1] + 1 THEN {} ELSE {"out arrays"}) \cup
     (IF \A i \in DOMAIN bo : LET q == Tail1(bo[i])   c == C(bo[i][1]) IN PairSet(q) = c /\ q[1] = Cardinality(c) /\ Len(q) = 2 * q[1] + 1
      THEN {} ELSE {"control flow successors (outs)"}) \cup
     (IF \A i \in DOMAIN bk : LET b == bk[i][1]   q == Tail1(bk[i])
                                  extra(x) == IF x = 2 /\ b # 2 THEN Cardinality({k \in DOMAIN Ins(N, 3) : Ins(N, 3)[k] = b}) ELSE 0 IN
            \A x \in DOMAIN N : Cnt(q, x) = Cardinality({u \in C(b) : u[1] = x}) + extra(x)
      THEN {} ELSE {"control flow successors (with kept blocks)"})

(* ---- walkers ---------------------------------------------------------- *)
\* the steps of a depth-first walk: enter a node (n) below the one being visited, or leave it (-n)
RECURSIVE Dfs(_, _, _, _, _, _)
Dfs(S, roots, w, i, stack, seen) ==
  IF i > Len(w) THEN stack = <<>>
  ELSE IF w[i] > 0 THEN /\ w[i] \notin seen
                        /\ IF stack = <<>> THEN w[i] \in roots ELSE w[i] \in S[stack[Len(stack)]]
                        /\ Dfs(S, roots, w, i + 1, Append(stack, w[i]), seen \cup {w[i]})
  ELSE /\ stack # <<>> /\ stack[Len(stack)] = -w[i]
       /\ S[-w[i]] \subseteq seen
       /\ Dfs(S, roots, w, i + 1, SubSeq(stack, 1, Len(stack) - 1), seen)
Entered(w) == {w[i] : i \in {j \in DOMAIN w : w[j] > 0}}
DfsOK(S, roots, all, w, name) == IF Entered(w) = all /\ Len(w) = 2 * Cardinality(all) /\ Dfs(S, roots, w, 1, <<>>, {}) THEN {} ELSE {name}
PosOf(w) == [x \in Range(w) |-> CHOOSE i \in DOMAIN w : w[i] = x]
Once(w, all) == Range(w) = all /\ Len(w) = Cardinality(all)
\* first come, first: every node but the root is below an earlier one
PreOK(S, w, all, name) == IF Once(w, all) /\ LET p == PosOf(w) IN \A i \in 2..Len(w) : \E j \in 1..(i - 1) : w[i] \in S[w[j]] THEN {} ELSE {name}
\* operands first, unless the operand itself needs the node
PostOK(S, w, all, name) == IF Once(w, {-x : x \in all}) /\ LET p == PosOf(w) IN
                                \A n \in all : \A m \in S[n] : p[-m] < p[-n] \/ m = n \/ n \in Reach(S, {m}, {})
                           THEN {} ELSE {name}
\* the nodes of a block without interruption
Grouped(N, w) == \A i \in 2..Len(w) : BlkOf(N, w[i]) # BlkOf(N, w[i - 1]) => \A j \in 1..(i - 1) : BlkOf(N, w[j]) # BlkOf(N, w[i])
Pos(w) == SelectSeq(w, LAMBDA x : x > 0)
Neg(w) == LET q == SelectSeq(w, LAMBDA x : x < 0) IN [i \in DOMAIN q |-> -q[i]]
BlkwiseOK(N, w, all, name) == IF Once(Pos(w), all) /\ Once(Neg(w), all) /\ Grouped(N, Pos(w)) /\ Grouped(N, Neg(w))
                                 /\ LET p == PosOf(w) IN \A n \in all : p[n] < p[-n] THEN {} ELSE {name}
WalkOK(r, N, F, D, P) ==
  LET core == 1..r.core
      S == [n \in DOMAIN N |-> Down(N, n)]
      U == Users(N, r.core)
      Up == [n \in core |-> {x[1] : x \in U[n]}]
      B == Blocks(N)
      FS == SuccFn(B, F)   FP == PredFn(B, F)
      kids(T) == [b \in DOMAIN T |-> {c \in DOMAIN T : Idom(T, c) = b}]
      BW == BlockWalk(N, F)
      roots == {2} \cup {BlkOf(N, p) : p \in {x \in Range(Ins(N, 3)) : Op(N, x) # "Bad"}}
      topo == Neg(r.w_topo)
  IN DfsOK(S, {3}, core, r.w_graph, "irg_walk_graph") \cup
     DfsOK(S, {3}, core, r.w_dep, "irg_walk_in_or_dep_graph") \cup
     DfsOK(S, {Len(N)}, Reach(S, {Len(N)}, {}), r.w_anchor, "irg_walk_anchors") \cup
     PreOK(S, r.w_pre, core, "irg_walk_graph (pre)") \cup PostOK(S, r.w_post, core, "irg_walk_graph (post)") \cup
     PreOK(S, r.w_deppre, core, "irg_walk_in_or_dep_graph (pre)") \cup PostOK(S, r.w_deppost, core, "irg_walk_in_or_dep_graph (post)") \cup
     DfsOK(FP, roots, BW, r.w_block, "irg_block_walk_graph") \cup
     UNION {DfsOK(S, {q[1]}, Reach(S, {q[1]}, {}), Tail1(q), "irg_walk") : q \in Range(r.w_sub)} \cup
     UNION {DfsOK(FP, {q[1]}, Reach(FP, {q[1]}, {}), Tail1(q), "irg_block_walk") : q \in Range(r.w_subblk)} \cup
     BlkwiseOK(N, r.w_blkwise, core, "irg_walk_blkwise_graph") \cup
     BlkwiseOK(N, r.w_blkdom, {n \in core : BlkOf(N, n) \in DOMAIN D}, "irg_walk_blkwise_dom_top_down") \cup
     (IF LET p == PosOf(r.w_blkdom) IN \A n \in core : BlkOf(N, n) \in DOMAIN D =>
           \A m \in core : Op(N, m) = "Block" /\ m \in D[BlkOf(N, n)] \ {BlkOf(N, n)} => p[m] < p[n]
      THEN {} ELSE {"irg_walk_blkwise_dom_top_down: order"}) \cup
     DfsOK(kids(D), {1}, DOMAIN D, r.w_dom, "dom_tree_walk") \cup
     DfsOK(kids(P), {2}, DOMAIN P, r.w_pdom, "postdom_tree_walk") \cup
     DfsOK(Up, {1}, Reach(Up, {1}, {}), r.w_out, "irg_out_walk") \cup
     DfsOK(FS, {1}, Reach(FS, {1}, {}), r.w_outblk, "irg_out_block_walk") \cup
     (IF Once(topo, core) /\ LET p == PosOf(topo) IN
           \A n \in core : Op(N, n) \notin {"Phi", "Block"} => \A m \in Range(Ins(N, n)) : N[m][2] = N[n][2] => p[m] < p[n]
      THEN {} ELSE {"irg_walk_topological"}) \cup
     (IF \A i \in DOMAIN r.phis : r.phis[i][1] \in core => Once(Tail1(r.phis[i]), {n \in core : Op(N, n) = "Phi" /\ N[n][2] = r.phis[i][1]})
      THEN {} ELSE {"phi lists"})

(* ---- claimed properties ------------------------------------------------ *)
Claims(r, N, F) ==
  LET has(i) == \E j \in DOMAIN r.props : r.props[j] = i
      core == 1..r.core
      R == Reach(SuccFn(Blocks(N), F), {1}, {})
      Fork == {"Cond", "Switch", "IJmp"}
      Crit(b) == Len(Ins(N, b)) > 1 /\ \E k \in DOMAIN Ins(N, b) : LET p == Ins(N, b)[k] IN
                   Op(N, p) = "Proj" /\ Op(N, Ins(N, p)[1]) \in Fork
      rets == {n \in core : Op(N, n) = "Return"} \cap Range(Ins(N, 2))
      Movable(n) == Len(Ins(N, N[n][2])) > 1 /\ \A m \in Range(Ins(N, n)) : Op(N, m) = "Phi" \/ N[m][2] # N[n][2]
  IN (IF has(0) /\ \E b \in Blocks(N) \cap core : b # 2 /\ Crit(b) THEN {"claims: no critical edges"} ELSE {}) \cup
     (IF has(1) /\ \E n \in core : Op(N, n) = "Bad" THEN {"claims: no Bads"} ELSE {}) \cup
     (IF has(2) /\ \E n \in core : Op(N, n) = "Tuple" THEN {"claims: no Tuples"} ELSE {}) \cup
     (IF has(3) /\ \E n \in core : BlkOf(N, n) \notin R /\ BlkOf(N, n) # 2 THEN {"claims: no unreachable code"} ELSE {}) \cup
     (IF has(4) /\ Cardinality(rets) > 1 THEN {"claims: one return"} ELSE {}) \cup
     (IF r.tag = "nret" /\ has(12) /\ \E n \in rets : Movable(n) THEN {"claims: many returns"} ELSE {}) \cup
     (IF \E j \in DOMAIN r.want : ~has(r.want[j]) THEN {"a requested property is not established"} ELSE {})

\* node i of the one graph corresponds to node i of the other; the operands of a commutative operation may change places
Swap(q) == <<q[2], q[1]>>
Iso(N, M) == /\ Len(N) = Len(M)
             /\ \A n \in DOMAIN N :
                  /\ <<M[n][1], M[n][2], M[n][3]>> = <<N[n][1], N[n][2], N[n][3]>>
                  /\ \/ Ins(M, n) = Ins(N, n)
                     \/ N[n][3] \div 4 = 1 /\ Len(Ins(N, n)) = 2 /\ Len(Ins(M, n)) = 2 /\ Swap(Ins(M, n)) = Ins(N, n)
                     \/ N[n][1] = "Sync" /\ Len(Ins(M, n)) = Len(Ins(N, n)) /\ Range(Ins(M, n)) = Range(Ins(N, n))

Dom(N, F) == DomSets(SuccFn(Blocks(N), DomEdges(N, F)), 1)
Pdom(N, F) == DomSets(PredFn(Blocks(N), PdomEdges(N, F)), 2)
Errors(r) ==
  LET N == r.nodes   F == Flow(r.nodes)
      D == Dom(N, F)   P == Pdom(N, F)
      f == DOMAIN r
      Judge(n) == CASE n = "dom" -> TreeOK(D, 1, r.dom, r.domkids, r.domq, "dominance") \cup DcdOK(D, r.dcd)
                    [] n = "pdom" -> TreeOK(P, 2, r.pdom, r.pdomkids, r.pdomq, "postdominance")
                    [] n = "df" -> FrontierOK(N, D, F, r.df)
                    [] n = "cdep" -> CdepOK(F, P, r.cdep, r.cdepq)
                    [] n = "loops" -> LoopOK(N, F, r.loops, r.loopof) \cup NaturalOK(N, F, D, r.loopof)
                    [] n = "live" -> LiveOK(N, F, DOMAIN D, r.live)
                    [] n = "heights" -> HeightOK(N, r.heights, r.heights2, r.hreach)
                    [] n = "edges" -> EdgesOK(N, F, r.edges, r.bedges, r.kind = "fresh")
                    [] n = "outs" -> OutsOK(N, r.core, r.outs, r.bouts, r.boutska)
                    [] n = "w_graph" -> WalkOK(r, N, F, D, P)
                    [] n = "props" -> Claims(r, N, F)
                    [] n = "c1" -> IF Iso(N, r.c1.nodes) /\ r.foreign = 0 /\ r.lost = 0 THEN {} ELSE {"the copy is not isomorphic"}
                    [] n = "c2" -> IF Iso(N, r.c2.nodes) THEN {} ELSE {"the compacted graph is not isomorphic"}
                    [] OTHER -> {}
      all == IF "only" \in f THEN Range(r.only) \cap f ELSE f
      \* where control flow passes through a Tuple the flow relation above is not the one meant
      tup == \E n \in DOMAIN N : IsX(N, n) /\ Op(N, n) = "Proj" /\ Op(N, Ins(N, n)[1]) = "Tuple"
      want == IF tup THEN all \ {"dom", "pdom", "df", "cdep", "loops", "live", "edges", "w_graph"} ELSE all
  IN UNION {Judge(n) : n \in want}

VARIABLES g, done
Init == \E x \in DOMAIN Recs : g = x /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ g' = g
        /\ \E S \in {Errors(Recs[g])} : IF S = {} THEN TRUE ELSE PrintT("@" \o ToJson([g |-> g, err |-> S]))
=============================================================================
