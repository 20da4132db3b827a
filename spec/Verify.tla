------------------------------- MODULE Verify -------------------------------
(* When a graph is well formed, and that the verifier agrees.  A graph is a *)
(* table of nodes [o: operation, b: block, m: mode, i: operands, n: numbers,*)
(* s: modes among the attributes] with 1 the start block, 2 the end block,  *)
(* 3 End; nodes 1..core are those End reaches, the others are anchored.     *)
(* The machine takes the recorded graphs one by one; each carries the       *)
(* verdict irg_verify gave about it.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)
Range(q) == {q[k] : k \in DOMAIN q}

(* ---- modes ------------------------------------------------------------ *)
Kind(G, m) == IF m \in DOMAIN G.modes THEN G.modes[m][1] ELSE "none"
IsInt(G, m) == Kind(G, m) = "int"
IsNum(G, m) == Kind(G, m) \in {"int", "float"}
IsRef(G, m) == Kind(G, m) = "ref"
IsData(G, m) == Kind(G, m) \in {"int", "float", "ref", "b", "data"}
IsDataNB(G, m) == IsData(G, m) /\ Kind(G, m) # "b"
IsUint(G, m) == IsInt(G, m) /\ G.modes[m][3] = "0"
IntB(G, m) == Kind(G, m) \in {"int", "b"}
Off(G, m) == G.modes[m][5]

(* ---- nodes ------------------------------------------------------------ *)
In(G, n, k) == G.nodes[n].i[k]
M(G, n) == G.nodes[n].m
InM(G, n, k) == M(G, In(G, n, k))
Op(G, n) == G.nodes[n].o
Ar(G, n) == Len(G.nodes[n].i)
Blk(G, n) == IF Op(G, n) = "Block" THEN n ELSE G.nodes[n].b
Num(G, n) == G.nodes[n].n[1]
Blocks(G) == {n \in DOMAIN G.nodes : Op(G, n) = "Block"}
Fragile == {"ASM", "Call", "Div", "Load", "Mod", "Store"}
Throws(G, n) == CASE Op(G, n) \in {"Call", "Div", "Load", "Mod", "Store"} -> G.nodes[n].n[1] = 1 [] OTHER -> FALSE
Cfop(G, n) == Op(G, n) \in {"Cond", "Switch", "Dummy", "End", "IJmp", "Jmp", "Raise", "Return"} \/ Throws(G, n)
RECURSIVE SkipT(_, _)
SkipT(G, n) == IF Op(G, n) = "Proj" /\ Op(G, In(G, n, 1)) = "Tuple" THEN SkipT(G, In(G, In(G, n, 1), Num(G, n) + 1)) ELSE n
SkipP(G, n) == IF Op(G, n) = "Proj" THEN In(G, n, 1) ELSE n
StartPlaced == {"Address", "Align", "Bad", "Const", "Dummy", "NoMem", "Offset", "Size", "Start", "Unknown"}

\* results: the modes a Proj of the given number of a node may have
ProjOk(G, p) ==
  \E q \in {In(G, p, 1)} : \E k \in {Num(G, p)} : \E m \in {M(G, p)} :
  /\ M(G, q) = "T"
  /\ G.pinned = 1 => Blk(G, p) = Blk(G, q)
  /\ \/ Op(G, q) \notin Fragile
     \/ Throws(G, q)
     \/ k \notin (CASE Op(G, q) = "Store" -> {1, 2} [] OTHER -> {2, 3})
  /\ CASE Op(G, q) = "Start" -> (CASE k = 0 -> m = "M" [] k = 1 -> IsRef(G, m) [] k = 2 -> m = "T" [] OTHER -> FALSE)
       [] Op(G, q) = "Cond" -> k \in {0, 1} /\ m = "X"
       [] Op(G, q) = "Switch" -> k < Num(G, q) /\ m = "X"
       [] Op(G, q) = "Raise" -> (CASE k = 0 -> m = "M" [] k = 1 -> m = "X" [] OTHER -> FALSE)
       [] Op(G, q) = "Call" -> (CASE k = 0 -> m = "M" [] k = 1 -> m = "T" [] k \in {2, 3} -> m = "X" [] OTHER -> FALSE)
       [] Op(G, q) \in {"Div", "Mod", "Load"} -> (CASE k = 0 -> m = "M" [] k = 1 -> m = G.nodes[q].s[1] [] k \in {2, 3} -> m = "X" [] OTHER -> FALSE)
       [] Op(G, q) = "Store" -> (CASE k = 0 -> m = "M" [] k \in {1, 2} -> m = "X" [] OTHER -> FALSE)
       [] Op(G, q) = "Alloc" -> (CASE k = 0 -> m = "M" [] k = 1 -> IsRef(G, m) [] OTHER -> FALSE)
       [] Op(G, q) = "Tuple" -> k < Ar(G, q) /\ m = InM(G, q, k + 1)
       [] Op(G, q) = "Proj" ->
            (\E r \in {In(G, q, 1)} :
             CASE Op(G, r) = "Start" -> k < Len(G.par) /\ m = G.par[k + 1]
               [] Op(G, r) = "Call" -> (LET np == G.nodes[r].n[3] IN k < Len(G.nodes[r].s) - np /\ m = G.nodes[r].s[np + k + 1])
               [] OTHER -> TRUE)
       [] OTHER -> TRUE

Value(G, m, want) == IF want = "agg" THEN IsRef(G, m) ELSE m = want
Same(G, n) == \A k \in 1..Ar(G, n) : InM(G, n, k) = M(G, n)

EntryOk(G, n, e) ==   \* entry e of a switch table
  LET a == G.nodes[n].s[2 * e - 1]  b == G.nodes[n].s[2 * e]  pn == G.nodes[n].n[2 * e]  gt == G.nodes[n].n[2 * e + 1]
  IN /\ IsInt(G, InM(G, n, 1)) => a = InM(G, n, 1) /\ b = InM(G, n, 1)
     /\ gt = 0 /\ pn < Num(G, n)

NodeOk(G, n) ==
  \E o \in {Op(G, n)} : \E m \in {M(G, n)} :
  /\ o \notin {"Block", "Anchor"} => /\ Op(G, G.nodes[n].b) = "Block"
                                     /\ o \in StartPlaced => G.nodes[n].b = 1
  /\ CASE o = "Proj" -> ProjOk(G, n)
       [] o = "Deleted" -> FALSE
       [] o = "Start" -> m = "T"
       [] o = "Jmp" -> m = "X"
       [] o = "IJmp" -> m = "X" /\ IsRef(G, InM(G, n, 1))
       [] o = "Cond" -> m = "T" /\ InM(G, n, 1) = "b"
       [] o = "Switch" -> m = "T" /\ IsInt(G, InM(G, n, 1)) /\ \A e \in 1..(Len(G.nodes[n].s) \div 2) : EntryOk(G, n, e)
       [] o = "Return" -> m = "X" /\ InM(G, n, 1) = "M" /\ Ar(G, n) = Len(G.res) + 1
                          /\ \A k \in 1..Len(G.res) : Value(G, InM(G, n, k + 1), G.res[k])
       [] o = "Raise" -> m = "X" /\ InM(G, n, 1) = "M" /\ IsRef(G, InM(G, n, 2))
       [] o = "Address" -> IsRef(G, m) /\ Num(G, n) = 1
       [] o = "Const" -> IsData(G, m) /\ G.nodes[n].s[1] = m
       [] o \in {"Align", "Offset", "Size"} -> IsInt(G, m)
       [] o = "Sel" -> IsRef(G, m) /\ IsRef(G, InM(G, n, 1)) /\ IsInt(G, InM(G, n, 2)) /\ Num(G, n) = 1
       [] o = "Member" -> IsRef(G, m) /\ IsRef(G, InM(G, n, 1)) /\ G.nodes[n].n[1] = 0 /\ (In(G, n, 1) = G.frame => G.nodes[n].n[2] = 1)
       [] o = "Call" -> (\E np \in {G.nodes[n].n[3]} :
                         /\ m = "T" /\ InM(G, n, 1) = "M" /\ IsRef(G, InM(G, n, 2))
                         /\ Ar(G, n) - 2 >= np /\ (Ar(G, n) - 2 > np => G.nodes[n].n[2] = 1)
                         /\ \A k \in 1..(Ar(G, n) - 2) : IF k <= np THEN Value(G, InM(G, n, k + 2), G.nodes[n].s[k]) ELSE IsDataNB(G, InM(G, n, k + 2)))
       [] o = "Add" -> \/ IsNum(G, m) /\ Same(G, n)
                       \/ IsRef(G, m) /\ \/ InM(G, n, 1) = Off(G, m) /\ InM(G, n, 2) = m
                                         \/ InM(G, n, 2) = Off(G, m) /\ InM(G, n, 1) = m
       [] o = "Sub" -> \/ IsNum(G, m) /\ Same(G, n)
                       \/ IsNum(G, m) /\ IsRef(G, InM(G, n, 1)) /\ InM(G, n, 2) = InM(G, n, 1) /\ m = Off(G, InM(G, n, 1))
                       \/ IsRef(G, m) /\ InM(G, n, 1) = m /\ InM(G, n, 2) = Off(G, m)
       [] o \in {"Minus", "Mul"} -> IsNum(G, m) /\ Same(G, n)
       [] o = "Mulh" -> IsInt(G, m) /\ Same(G, n)
       [] o \in {"Div", "Mod"} -> (\E r \in {G.nodes[n].s[1]} :
                         m = "T" /\ InM(G, n, 1) = "M" /\ InM(G, n, 2) = r /\ InM(G, n, 3) = r /\ (IF o = "Div" THEN IsNum(G, r) ELSE IsInt(G, r)))
       [] o \in {"And", "Or", "Eor", "Not"} -> IntB(G, m) /\ Same(G, n)
       [] o = "Cmp" -> m = "b" /\ IsDataNB(G, InM(G, n, 1)) /\ InM(G, n, 1) = InM(G, n, 2)
       [] o \in {"Shl", "Shr", "Shrs"} -> IsInt(G, m) /\ InM(G, n, 1) = m /\ IsUint(G, InM(G, n, 2))
       [] o = "Conv" -> IsDataNB(G, m) /\ IsDataNB(G, InM(G, n, 1))
       [] o = "Bitcast" -> (\E s \in {InM(G, n, 1)} : IsDataNB(G, m) /\ IsDataNB(G, s) /\ G.modes[m][2] = G.modes[s][2] /\ G.modes[m][4] # G.modes[s][4])
       [] o = "Phi" -> /\ Op(G, G.nodes[n].b) = "Block" => Ar(G, n) = Ar(G, G.nodes[n].b)
                       /\ (IsData(G, m) \/ m = "M") /\ Same(G, n)
                       /\ Num(G, n) = 1 => m = "M"
       [] o = "Load" -> m = "T" /\ InM(G, n, 1) = "M" /\ IsRef(G, InM(G, n, 2)) /\ IsDataNB(G, G.nodes[n].s[1])
       [] o = "Store" -> m = "T" /\ InM(G, n, 1) = "M" /\ IsRef(G, InM(G, n, 2)) /\ IsDataNB(G, InM(G, n, 3))
       [] o = "Alloc" -> m = "T" /\ InM(G, n, 1) = "M" /\ IsUint(G, InM(G, n, 2))
       [] o = "Free" -> m = "M" /\ InM(G, n, 1) = "M" /\ IsRef(G, InM(G, n, 2))
       [] o = "CopyB" -> m = "M" /\ InM(G, n, 1) = "M" /\ IsRef(G, InM(G, n, 2)) /\ IsRef(G, InM(G, n, 3)) /\ Num(G, n) = 1
       [] o = "Sync" -> m = "M" /\ Same(G, n)
       [] o = "Confirm" -> Same(G, n)
       [] o = "Mux" -> IsData(G, m) /\ InM(G, n, 1) = "b" /\ InM(G, n, 2) = m /\ InM(G, n, 3) = m
       [] o = "End" -> m = "X" /\ \A k \in Range(G.nodes[n].i) : Op(G, k) \in {"Block", "Call", "Bad"} \/ (Op(G, k) = "Phi" /\ Num(G, k) = 1)
       [] o = "Block" ->
            /\ m = "BB"
            /\ \A k \in 1..Ar(G, n) : \E q \in {SkipP(G, SkipT(G, In(G, n, k)))} :
                 /\ InM(G, n, k) = "X"
                 /\ Cfop(G, q) \/ Op(G, q) = "Bad"
                 /\ Op(G, q) = "IJmp" => G.nodes[n].n[2] = 1
                 /\ n = 2 => Op(G, q) \in {"Return", "Raise", "Bad"}
            /\ n = 1 => Ar(G, n) = 0
       [] OTHER -> TRUE

(* ---- control flow ----------------------------------------------------- *)
Core(G) == 1..G.core
CBlocks(G) == {n \in Core(G) : Op(G, n) = "Block"}
PredX(G, b, k) == SkipT(G, In(G, b, k))
Jumps(G) == UNION {{[x |-> PredX(G, b, k), b |-> b, k |-> k] : k \in 1..Ar(G, b)} : b \in CBlocks(G)}
Live(G, J) == {j \in J : Op(G, j.x) # "Bad"}
Flow(G, J) == {<<Blk(G, j.x), j.b>> : j \in J}
RECURSIVE Clo(_, _, _)
Clo(E, front, seen) == IF front = {} THEN seen
                       ELSE LET nx == {e[2] : e \in {x \in E : x[1] \in front}} \ seen IN Clo(E, nx, seen \cup nx)
Reach(E, from) == Clo(E, from, from)
Kept(G) == {p \in Range(G.nodes[3].i) : Op(G, p) # "Bad"}

CfgOk(G, J, F) ==
  /\ CBlocks(G) \subseteq Reach({<<e[2], e[1]>> : e \in F}, {2} \cup {Blk(G, p) : p \in Kept(G)})
  /\ \A b \in CBlocks(G) : G.nodes[b].n[1] = 1 /\ (Ar(G, b) = 0 => b \in {1, 2})
  \* a jump leads to one place; a block ends with one jump
  /\ \A j \in J : \A k \in J : j # k /\ j.x = k.x => Op(G, SkipP(G, j.x)) = "IJmp"
  /\ \A j \in J : \A k \in J : Blk(G, j.x) = Blk(G, k.x) => SkipP(G, j.x) = SkipP(G, k.x)
  /\ \A b \in CBlocks(G) : b = 2 \/ b \in Range(G.nodes[3].i) \/ \E j \in J : Blk(G, j.x) = b
  \* a decision leads somewhere in all cases
  /\ \A n \in Core(G) : Op(G, n) = "Cond" => \A c \in {0, 1} : \E j \in J : Op(G, j.x) = "Proj" /\ In(G, j.x, 1) = n /\ Num(G, j.x) = c
  /\ \A n \in Core(G) : Op(G, n) = "Switch" => \E j \in J : Op(G, j.x) = "Proj" /\ In(G, j.x, 1) = n /\ Num(G, j.x) = 0

(* ---- dominance -------------------------------------------------------- *)
DomOk(G, F) ==
  \E R \in {Reach(F, {1})} :
  \E av \in {[a \in R |-> Reach({e \in F : e[1] # a /\ e[2] # a}, {1} \ {a})]} :
  \A n \in DOMAIN G.nodes : Op(G, n) \notin {"Block", "End", "Anchor"} =>
    \A k \in 1..Ar(G, n) :
      \E d \in {Blk(G, In(G, n, k))} :
      \E u \in {IF Op(G, n) # "Phi" THEN G.nodes[n].b
                ELSE IF k > Ar(G, G.nodes[n].b) THEN 0
                ELSE LET x == PredX(G, G.nodes[n].b, k) IN IF Op(G, x) = "Bad" THEN 0 ELSE Blk(G, x)} :
      d \in R /\ u \in R => u \notin av[d]

(* ---- claims ----------------------------------------------------------- *)
PropsOk(G, F) ==
  \E P \in {Range(G.props)} :
  /\ 1 \in P => \A n \in Core(G) : Op(G, n) # "Bad"
  /\ 2 \in P => \A n \in Core(G) : Op(G, n) # "Tuple"
  /\ 4 \in P => Cardinality({n \in Core(G) : Op(G, n) = "Return"}) <= 1
  /\ 0 \in P => \A b \in CBlocks(G) : Ar(G, b) > 1 => \A k \in 1..Ar(G, b) : \E q \in {SkipP(G, PredX(G, b, k))} : Op(G, q) \notin {"Cond", "Switch"} /\ ~Throws(G, q)
  /\ 3 \in P => \E R \in {Reach(F \cup {<<p, 2>> : p \in {x \in Kept(G) : Op(G, x) = "Block"}}, {1})} : \A b \in CBlocks(G) : b \in R
MemOk(G) == \/ \E p \in Range(G.nodes[2].i) : Op(G, p) # "Bad"
            \/ \E p \in Range(G.nodes[3].i) : M(G, p) = "M" \/ Op(G, p) = "Call"

WF(G) ==
  \E J \in {Live(G, Jumps(G))} : \E F \in {Flow(G, J)} :
  /\ G.pinned = 1 => CfgOk(G, J, F)
  /\ \A n \in DOMAIN G.nodes : NodeOk(G, n)
  /\ G.pinned = 1 => DomOk(G, F)
  /\ PropsOk(G, F)
  /\ MemOk(G)

\* A value that depends on itself without a Phi in between is not a graph anyone builds; nothing is said about it.
Deps(G) == UNION {{<<n, p>> : p \in Range(G.nodes[n].i)} : n \in {x \in DOMAIN G.nodes : Op(G, x) \notin {"Block", "Phi", "End", "Anchor"}}}
SelfDep(G) == \E n \in {G.at} : n > 0 /\ \E D \in {Deps(G)} : n \in Reach(D, {e[2] : e \in {x \in D : x[1] = n}})

VARIABLES g
Init == g \in 1..Len(Recs)
Agrees(G, wf) == wf = (G.verdict = "accept") \/ (wf /\ SelfDep(G))
Next == /\ g > 0
        /\ g' = -g
        /\ \E w \in {WF(Recs[g])} :
           IF Agrees(Recs[g], w) THEN IF w THEN PrintT("@" \o ToJson([g |-> g, wf |-> 1])) ELSE TRUE
           ELSE PrintT("@" \o ToJson([g |-> g, err |-> IF w THEN Recs[g].verdict \o " of a well-formed graph" ELSE "an ill-formed graph is accepted"]))
=============================================================================
