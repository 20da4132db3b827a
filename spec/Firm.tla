-------------------------------- MODULE Firm --------------------------------
(* The meaning of Firm programs as a state machine.                          *)
(*                                                                            *)
(* A case of the input file is a program in several versions: version 1 is   *)
(* the program as its author wrote it (variables, program order), the others *)
(* are graphs recorded from the library after construction or after a        *)
(* transformation, each in one linear extension of its dependence edges.     *)
(* A behaviour executes version 1 on one input, remembers what can be        *)
(* observed, and then executes every other version on the same input.        *)
(*                                                                            *)
(* Observable: the sequence of calls of external functions with their        *)
(* arguments, of volatile accesses, the contents of externally visible       *)
(* memory at every external call and at the end.                             *)
(*                                                                            *)
(* Values are words (Words.tla); <<>> is an undefined value.  In version 1   *)
(* an undefined value that matters makes the behaviour undefined and the     *)
(* input is skipped; in the other versions it is a violation.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Words, Float

File  == ndJsonDeserialize(IOEnv.FIRM_FILE)
Modes == File[1].modes
Case(k) == File[k + 1]
NC == Len(File) - 1

VARIABLES c, r, v, stk, mem, log, cnt, st, obs, why
vars == <<c, r, v, stk, mem, log, cnt, st, obs, why>>
\* cnt = <<executed segments, bound, allocations, segments of version 1>>

Ver == Case(c).vers[v]
Inp == Case(c).runs[r]
Strict == v = 1

------------------------------------------------------------------------------
(* pure operations *)
W64(k) == WFromInt(64, k)
IsI(m) == m.k = "i"
IsF(m) == m.k = "f"
Sg(m)  == IF m.s = 1 THEN "S" ELSE "U"
FitW(n, m, a) == IF m.b = n THEN a ELSE WConv(m.b, m.s, n, a)

ShiftAmount(m, a) == IF m.ms = 0 THEN a ELSE WBin("ModU", 64, WTrunc(64, a), W64(m.ms))

BOOL(p) == IF p THEN <<1>> ELSE <<0>>
RelHas(rel, bit) == (rel \div bit) % 2 = 1

CmpRel(m, a, b) ==     \* the relation bit that holds: 1 equal, 2 less, 4 greater, 8 unordered
  IF IsF(m) THEN FCmp(m.f, a, b)
  ELSE LET z == WCmp(m.b, m.s, a, b) IN IF z = 0 THEN 1 ELSE IF z < 0 THEN 2 ELSE 4

ConvV(m, q, a) ==      \* value a of mode q as mode m
  CASE IsI(m) /\ IsI(q) -> WConv(q.b, q.s, m.b, a)
    [] IsF(m) /\ IsF(q) -> FConv(q.f, m.f, a)
    [] IsF(m) /\ IsI(q) -> FFromInt(m.f, q.b, q.s, a)
    [] IsI(m) /\ IsF(q) -> LET t == FToInt(q.f, m.b, m.s, a) IN
                            IF t[1] = "ok" THEN t[2] ELSE IF Strict THEN <<>> ELSE WZero(m.b)
    [] OTHER -> <<>>

DivV(op, m, a, b) ==
  IF IsF(m) THEN FDiv(m.f, a, b) ELSE WBin(op \o Sg(m), m.b, a, b)

IsMin(m, a) == m.s = 1 /\ WCount("Popcount", m.b, a) = 1 /\ Bit(a, m.b - 1) = 1
DivTraps(m, a, b) == IsI(m) /\ (WIsZero(b) \/ (IsMin(m, a) /\ WCount("Popcount", m.b, b) = m.b))

PureOps == {"Add", "Sub", "Mul", "And", "Or", "Eor", "Conv", "Cmp", "Shl", "Shr", "Shrs", "Not", "Minus", "Sel", "Off"}

Pure(n, m, q, a, b) ==
  IF n.o \in {"Add", "Sub", "Mul", "And", "Or", "Eor"}
  THEN IF IsF(m) THEN CASE n.o = "Add" -> FAdd(m.f, a, b) [] n.o = "Sub" -> FSub(m.f, a, b) [] n.o = "Mul" -> FMul(m.f, a, b)
       ELSE IF m = q THEN WBin(n.o, m.b, a, b)
       ELSE WTrunc(m.b, WBin(n.o, m.b, a, FitW(m.b, q, b)))
  ELSE IF n.o = "Cmp" THEN BOOL(RelHas(n.x[1], CmpRel(q, a, b)))
  ELSE IF n.o = "Conv" THEN ConvV(m, q, a)
  ELSE IF n.o \in {"Shl", "Shr", "Shrs"} THEN WBin(n.o, m.b, a, ShiftAmount(m, b))
  ELSE
  CASE n.o = "Mulh" -> WBin("Mulh" \o Sg(m), m.b, a, b)
    [] n.o = "Not"  -> WUn("Not", m.b, a)
    [] n.o = "Minus" -> IF IsF(m) THEN FNeg(m.f, a) ELSE WUn("Neg", m.b, a)
    [] n.o = "Bitcast" -> IF IsF(m) THEN FCanon(m.f, a) ELSE a
    [] n.o = "Sel"  -> WBin("Add", m.b, a, WBin("Mul", m.b, FitW(m.b, q, b), WFromInt(m.b, n.x[1])))
    [] n.o = "Off"  -> WBin("Add", m.b, a, WConv(32, 1, m.b, n.x))
    [] n.o = "Bswap" -> WUn("Bswap", m.b, a)
    [] n.o = "Popcount" -> WFromInt(m.b, WCount("Popcount", q.b, a))
    [] n.o = "Parity" -> WFromInt(m.b, WCount("Popcount", q.b, a) % 2)
    [] n.o = "Ffs"  -> WFromInt(m.b, WCount("Low", q.b, a) + 1)
    [] n.o = "Ctz"  -> IF WIsZero(a) THEN (IF Strict THEN <<>> ELSE WZero(m.b)) ELSE WFromInt(m.b, WCount("Low", q.b, a))
    [] n.o = "Clz"  -> IF WIsZero(a) THEN (IF Strict THEN <<>> ELSE WZero(m.b)) ELSE WFromInt(m.b, q.b - 1 - WCount("High", q.b, a))

------------------------------------------------------------------------------
(* memory: region -> sequence of byte cells, 256 = undefined                 *)
(* region R is addressed from R * 2^20                                       *)
BaseOf(reg, bits) == WTrunc(bits, <<0, reg * 16, 0, 0>>)
RegOf(w) == IF \E i \in 3..Len(w) : w[i] # 0 THEN 0 ELSE w[2] \div 16
OffOf(w) == w[1] + 65536 * (w[2] % 16)

Junk(i) == (165 + 37 * i) % 256
ByteAt(g, off, i) == IF off + i > Len(g) THEN 256 ELSE g[off + i]      \* i = 1, 2, ..

LoadCells(mm, p, k) == LET g == mm[RegOf(p)] o == OffOf(p) IN [i \in 1..k |-> ByteAt(g, o, i)]
Word(cells) == [j \in 1..((Len(cells) + 1) \div 2) |->
                  cells[2 * j - 1] + (IF 2 * j <= Len(cells) THEN 256 * cells[2 * j] ELSE 0)]
CellsOf(w, k) == IF w = <<>> THEN [i \in 1..k |-> 256]
                 ELSE [i \in 1..k |-> LET l == w[(i + 1) \div 2] IN IF i % 2 = 1 THEN l % 256 ELSE l \div 256]
StoreCells(mm, p, cells) ==
  LET R == RegOf(p) o == OffOf(p) k == Len(cells)
  IN  [mm EXCEPT ![R] = [i \in 1..Len(mm[R]) |-> IF i > o /\ i <= o + k THEN cells[i - o] ELSE mm[R][i]]]
Valid(mm, p) == p # <<>> /\ RegOf(p) \in DOMAIN mm
InBounds(mm, p, k) == Valid(mm, p) /\ OffOf(p) + k <= Len(mm[RegOf(p)])
ReadOnly(reg) == \E i \in 1..Len(Ver.ro) : Ver.ro[i] = reg

Snapshot(mm) == [i \in 1..Len(Case(c).esc) |-> mm[Case(c).esc[i]]]

------------------------------------------------------------------------------
(* acc: [e, m, l, x, k]: values of slots, memory, log, error, allocations    *)
Set1(acc, d, w) == IF d = 0 THEN acc ELSE [acc EXCEPT !.e[d] = w]
Fail(acc, what) == IF acc.x = "" THEN [acc EXCEPT !.x = what] ELSE acc
Nb(m) == (m.b + 7) \div 8

\* accesses to volatile objects are observable; an access marked volatile for want of better knowledge is not
VolObj(reg) == IF "vol" \in DOMAIN Case(c) THEN \E i \in 1..Len(Case(c).vol) : Case(c).vol[i] = reg ELSE TRUE

DoLoad(acc, n, m) ==
  LET p == acc.e[n.i[1]] IN
  IF p = <<>> THEN Fail(acc, "load from an undefined address")
  ELSE IF ~Valid(acc.m, p) THEN Fail(acc, "load from an invalid address")
  ELSE LET cells == LoadCells(acc.m, p, Nb(m))
           und == \E i \in 1..Len(cells) : cells[i] = 256
           w == IF ~und THEN Word(cells)
                ELSE IF Strict THEN <<>>
                ELSE Word([i \in 1..Len(cells) |-> IF cells[i] = 256 THEN Junk(i) ELSE cells[i]])
           ww == IF IsF(m) /\ w # <<>> THEN FCanon(m.f, w) ELSE w
           a2 == Set1(acc, n.d, ww)
       IN IF n.x[1] = 1 /\ VolObj(RegOf(p))
          THEN IF und THEN Fail(acc, "volatile load of undefined memory")
               ELSE [a2 EXCEPT !.l = Append(@, <<0, RegOf(p), OffOf(p), Nb(m), ww>>)]
          ELSE a2

DoStore(acc, n, q) ==
  LET p == acc.e[n.i[1]] w == acc.e[n.i[2]] IN
  IF p = <<>> THEN Fail(acc, "store to an undefined address")
  ELSE IF ~InBounds(acc.m, p, Nb(q)) THEN Fail(acc, "store to an invalid address")
  ELSE IF ReadOnly(RegOf(p)) THEN Fail(acc, "store to constant memory")
  ELSE IF n.x[1] = 1 /\ w = <<>> /\ VolObj(RegOf(p)) THEN Fail(acc, "volatile store of an undefined value")
  ELSE LET a2 == [acc EXCEPT !.m = StoreCells(acc.m, p, CellsOf(w, Nb(q)))] IN
       IF n.x[1] = 1 /\ VolObj(RegOf(p)) THEN [a2 EXCEPT !.l = Append(@, <<-1, RegOf(p), OffOf(p), Nb(q), w>>)] ELSE a2

DoCopy(acc, n) ==
  LET d == acc.e[n.i[1]] s == acc.e[n.i[2]] k == n.x[1] IN
  IF k = 0 THEN acc
  ELSE IF d = <<>> \/ s = <<>> THEN Fail(acc, "copy with an undefined address")
  ELSE IF ~InBounds(acc.m, d, k) \/ ~InBounds(acc.m, s, k) THEN Fail(acc, "copy at an invalid address")
  ELSE IF ReadOnly(RegOf(d)) THEN Fail(acc, "copy to constant memory")
  ELSE [acc EXCEPT !.m = StoreCells(acc.m, d, LoadCells(acc.m, s, k))]

DoDiv(acc, n, m) ==
  LET a == acc.e[n.i[1]] b == acc.e[n.i[2]] IN
  IF b = <<>> THEN Fail(acc, "division by an undefined value")
  ELSE IF IsI(m) /\ WIsZero(b) THEN Fail(acc, "division by zero")
  ELSE IF a = <<>> THEN (IF Strict THEN Fail(acc, "division of an undefined value") ELSE Set1(acc, n.d, <<>>))
  ELSE IF DivTraps(m, a, b) THEN Fail(acc, "division overflow")
  ELSE IF n.x[1] = 1 /\ Strict /\ ~WIsZero(DivV("Mod", m, a, b)) THEN Fail(acc, "inexact exact division")
  ELSE Set1(acc, n.d, DivV(n.o, m, a, b))

IsAcc(m) == m.k # "x"
Exec(acc, n) ==
  IF acc.x # "" THEN acc
  ELSE IF n.o = "Const" THEN Set1(acc, n.d, n.x)
  ELSE IF n.o \in PureOps
  THEN LET a == acc.e[n.i[1]] b == IF Len(n.i) > 1 THEN acc.e[n.i[2]] ELSE <<0>> IN
       IF a = <<>> \/ b = <<>> THEN Set1(acc, n.d, <<>>)
       ELSE Set1(acc, n.d, Pure(n, Modes[n.m], Modes[n.q], a, b))
  ELSE LET m == Modes[n.m] q == Modes[n.q] IN
  CASE n.o = "Id"   -> Set1(acc, n.d, acc.e[n.i[1]])
    [] n.o = "Unk"  -> Set1(acc, n.d, IF Strict THEN <<>> ELSE WTrunc(m.b, <<23130, 41394, 7710, 4>>))
    [] n.o = "Undef" -> Set1(acc, n.d, <<>>)
    [] n.o = "Addr" -> Set1(acc, n.d, BaseOf(n.x[1], m.b))
    [] n.o = "Fb"   -> Set1(acc, n.d, BaseOf(acc.fr, m.b))
    [] n.o = "Arg"  -> IF n.x[1] > Len(acc.a) THEN Fail(acc, "missing argument") ELSE Set1(acc, n.d, acc.a[n.x[1]])
    [] n.o = "Mux"  -> LET s == acc.e[n.i[1]] IN
                       Set1(acc, n.d, IF s = <<>> THEN <<>> ELSE IF WIsZero(s) THEN acc.e[n.i[2]] ELSE acc.e[n.i[3]])
    [] n.o = "Load" -> DoLoad(acc, n, m)
    [] n.o = "Store" -> DoStore(acc, n, q)
    [] n.o = "CopyB" -> DoCopy(acc, n)
    [] n.o \in {"Div", "Mod"} -> DoDiv(acc, n, m)
    [] n.o = "Alloc" ->
         LET s == acc.e[n.i[1]] IN
         IF s = <<>> THEN Fail(acc, "allocation of undefined size")
         ELSE IF WToInt(s) > 4096 \/ acc.k > 900 THEN Fail(acc, "allocation too large")
         ELSE Set1([acc EXCEPT !.m = (2000 + acc.k :> [i \in 1..WToInt(s) |-> 256]) @@ acc.m, !.k = @ + 1],
                   n.d, BaseOf(2000 + acc.k, m.b))
    [] n.o = "Check" ->     \* a fact the graph claims: i[1] rel i[2]
         LET a == acc.e[n.i[1]] b == acc.e[n.i[2]] IN
         IF a = <<>> \/ b = <<>> \/ RelHas(n.x[1], CmpRel(q, a, b)) THEN acc ELSE Fail(acc, "a Confirm does not hold")
    [] n.o = "In" ->        \* claimed bit facts: ones in x[1], zeros outside x[2]
         LET a == acc.e[n.i[1]] IN
         IF a = <<>> \/ (WBin("And", m.b, a, n.x[1]) = n.x[1] /\ WBin("Or", m.b, a, n.x[2]) = n.x[2]) THEN acc
         ELSE Fail(acc, "a claimed bit pattern does not hold")
    [] n.o = "Rng" ->       \* claimed range x[1]..x[2] (kind x[3]: 1 inside, 0 outside)
         LET a == acc.e[n.i[1]]
             ins == WCmp(m.b, m.s, a, n.x[1]) >= 0 /\ WCmp(m.b, m.s, a, n.x[2]) <= 0 IN
         IF a = <<>> \/ (n.x[3] = 1) = ins THEN acc ELSE Fail(acc, "a claimed value range does not hold")
    [] n.o = "Disj" ->      \* claimed: the two accesses of x[1], x[2] bytes do not overlap
         LET a == acc.e[n.i[1]] b == acc.e[n.i[2]] IN
         IF a = <<>> \/ b = <<>> THEN acc
         ELSE IF RegOf(a) = RegOf(b) /\ OffOf(a) < OffOf(b) + n.x[2] /\ OffOf(b) < OffOf(a) + n.x[1]
              THEN Fail(acc, "accesses claimed disjoint overlap") ELSE acc
    [] n.o = "Over" ->      \* claimed: the two accesses of x[1], x[2] bytes touch a common byte
         LET a == acc.e[n.i[1]] b == acc.e[n.i[2]] IN
         IF a = <<>> \/ b = <<>> THEN acc
         ELSE IF RegOf(a) = RegOf(b) /\ OffOf(a) < OffOf(b) + n.x[2] /\ OffOf(b) < OffOf(a) + n.x[1]
              THEN acc ELSE Fail(acc, "accesses claimed to meet do not overlap")
    [] n.o = "Nz" ->        \* claimed: not null
         IF acc.e[n.i[1]] # <<>> /\ WIsZero(acc.e[n.i[1]]) THEN Fail(acc, "a value claimed not null is null") ELSE acc
    [] n.o = "Dead" -> Fail(acc, "control reaches a block claimed unreachable")
    [] n.o = "Use" ->       \* an access (x[1]: 2 writes, 4 reads; x[2] bytes) must be among the recorded uses x[3] of what it touches
         LET a == acc.e[n.i[1]]
             Touched == {k \in 1..Len(n.x[3]) :
                           LET t == n.x[3][k] IN
                           /\ RegOf(a) = (IF t[1] = 0 THEN acc.fr ELSE t[1])
                           /\ OffOf(a) < t[3] /\ t[2] < OffOf(a) + n.x[2]}
             Has(flags, bit) == (flags \div bit) % 2 = 1
         IN IF a = <<>> THEN acc
            ELSE IF \E k \in Touched : ~Has(n.x[3][k][4], n.x[1]) THEN Fail(acc, "an access of an entity is not among its recorded uses")
            ELSE IF \E k \in Touched : LET t == n.x[3][k] IN
                       t[5] > 0 /\ IsAcc(m) /\ (m.b # t[5] \/ IsF(m) # (t[6] = 1)) /\ ~Has(t[4], 8)
                 THEN Fail(acc, "an access with another mode is not recorded") ELSE acc
    [] OTHER ->
         IF \E k \in 1..Len(n.i) : acc.e[n.i[k]] = <<>> THEN Set1(acc, n.d, <<>>)
         ELSE Set1(acc, n.d, Pure(n, m, q, acc.e[n.i[1]], IF Len(n.i) > 1 THEN acc.e[n.i[2]] ELSE <<>>))

------------------------------------------------------------------------------
(* A segment is a sequence of groups.  Groups with p = 1 hold only integer    *)
(* operations, constants, copies and selections (java/WordsOv.java speeds     *)
(* these up; FirmSelfTest compares it with this definition).                  *)
Calc(e, n, M) ==
  CASE n.o = "Const" -> n.x
    [] n.o = "Id"    -> e[n.i[1]]
    [] n.o = "Mux"   -> LET s == e[n.i[1]] IN IF s = <<>> THEN <<>> ELSE IF WIsZero(s) THEN e[n.i[2]] ELSE e[n.i[3]]
    [] OTHER -> LET a == e[n.i[1]] b == IF Len(n.i) > 1 THEN e[n.i[2]] ELSE <<0>> IN
                IF a = <<>> \/ b = <<>> THEN <<>> ELSE Pure(n, M[n.m], M[n.q], a, b)
PureSeq(e, ns, M) == FoldLeft(LAMBDA ee, n : IF n.d = 0 THEN ee ELSE [ee EXCEPT ![n.d] = Calc(ee, n, M)], e, ns)

ExecGroup(acc, g) ==
  IF acc.x # "" THEN acc
  ELSE IF g.p = 1 THEN [acc EXCEPT !.e = PureSeq(acc.e, g.n, Modes)]
  ELSE FoldLeft(Exec, acc, g.n)

------------------------------------------------------------------------------
Top == stk[Len(stk)]
Fn(k) == Ver.fns[k]
Blk(f) == Fn(f.f).b[f.b]
Seg(f) == Blk(f).s[f.s]

NewFrame(k, args, depth, loc) ==
  [f |-> k, b |-> 1, s |-> 1, e |-> [i \in 1..Fn(k).n |-> <<>>], a |-> args, fr |-> 1000 + depth]
FrameMem(k, depth) == (1000 + depth) :> [i \in 1..Fn(k).fs |-> 256]

Enter(f, t, e) ==      \* frame f goes to block t[1] through its predecessor t[2]
  LET ph == Fn(f.f).b[t[1]].p IN
  [f EXCEPT !.b = t[1], !.s = 1,
            !.e = IF ph = <<>> THEN e
                  ELSE FoldLeft(LAMBDA ee, p : [ee EXCEPT ![p[1]] = e[p[2][t[2]]]], e, ph)]

Update(acc, f) == [stk EXCEPT ![Len(stk)] = f]

(* external function: <<results, memory, log, error>> *)
OracleWord(k) == LET o == Inp.orc IN o[(k % Len(o)) + 1]
Ext(x, args, dm, acc) ==
  LET ncall == Len(SelectSeq(acc.l, LAMBDA z : z[1] > 0))     \* calls so far (volatile accesses do not count)
      word == OracleWord(ncall)
      \* results take consecutive bits of the oracle's word
      res(w) == FoldLeft(LAMBDA a, md :
                    <<Append(a[1], LET t == WTrunc(Modes[md].b, a[2]) IN IF IsF(Modes[md]) THEN FCanon(Modes[md].f, t) ELSE t),
                      WBin("Shr", 64, a[2], W64(Modes[md].b))>>, <<<<>>, w>>, dm)[1]
      snap == Snapshot(acc.m)
      undefSnap == \E i \in 1..Len(snap) : \E j \in 1..Len(snap[i]) : snap[i][j] = 256
      flat(as) == FoldLeft(LAMBDA a, w : a \o w, <<>>, as)
      undefArg == \E i \in 1..Len(args) : args[i] = <<>>
      clob == LET g == Case(c).esc IN   \* the callee writes one byte of every escaped global
              FoldLeft(LAMBDA mm, R : IF ReadOnly(R) THEN mm
                         ELSE [mm EXCEPT ![R] = [mm[R] EXCEPT ![1 + (word[2] % Len(mm[R]))] = word[3] % 256]], acc.m, g)
  IN CASE undefArg -> <<<<>>, acc.m, acc.l, "undefined argument of an external call">>
       [] x.kind = "log" -> <<res(word), acc.m, Append(acc.l, <<x.id, flat(args), snap>>), "">>
       [] x.kind = "clob" -> <<res(word), clob, Append(acc.l, <<x.id, flat(args), snap>>), "">>
       [] x.kind = "pure" -> <<res(WBin("Add", 64, WBin("Mul", 64, WTrunc(64, flat(args)), <<7, 0, 0, 0>>), W64(x.id))), acc.m, acc.l, "">>
       [] x.kind \in {"rd", "prd", "wr"} ->
            IF ~InBounds(acc.m, args[1], 4) THEN <<<<>>, acc.m, acc.l, "external function given a bad address">>
            ELSE LET cells == LoadCells(acc.m, args[1], 4)
                     rest == flat(Tail(args)) IN
                 IF x.kind = "wr"
                 THEN IF ReadOnly(RegOf(args[1])) THEN <<<<>>, acc.m, acc.l, "external function writes constant memory">>
                      ELSE <<res(word), StoreCells(acc.m, args[1], CellsOf(word, 4)), Append(acc.l, <<x.id, rest, snap>>), "">>
                 ELSE IF \E i \in 1..4 : cells[i] = 256 THEN <<<<>>, acc.m, acc.l, "external function reads undefined memory">>
                 ELSE IF x.kind = "rd" THEN <<res(word), acc.m, Append(acc.l, <<x.id, rest \o Word(cells), snap>>), "">>
                 ELSE <<res(WBin("Add", 64, WTrunc(64, Word(cells)), W64(x.id))), acc.m, acc.l, "">>
       [] x.kind \in {"memcpy", "memset"} ->
            LET k == WToInt(args[3]) IN
            IF k = 0 THEN <<<<args[1]>>, acc.m, acc.l, "">>
            ELSE IF ~InBounds(acc.m, args[1], k) \/ ReadOnly(RegOf(args[1])) \/ (x.kind = "memcpy" /\ ~InBounds(acc.m, args[2], k))
                 THEN <<<<>>, acc.m, acc.l, "bad memcpy/memset">>
            ELSE <<<<args[1]>>, StoreCells(acc.m, args[1], IF x.kind = "memcpy" THEN LoadCells(acc.m, args[2], k)
                                                   ELSE [i \in 1..k |-> args[2][1] % 256]), acc.l, "">>
       [] x.kind = "rt" ->     \* run-time support routine: the operation x.op on mode x.m (operand mode x.q)
            LET m == Modes[x.m] q == Modes[x.q]
                nl == Len(args)
                all == flat(args)
                k == NL(q.b)
                a == WTrunc(q.b, SubSeq(all, 1, k))
                b == IF Len(all) > k THEN SubSeq(all, k + 1, Len(all)) ELSE <<0>>
                bb == IF Len(b) >= k THEN WTrunc(q.b, SubSeq(b, 1, k)) ELSE b
                val == CASE x.op \in {"Div", "Mod"} -> IF IsI(m) /\ WIsZero(bb) THEN <<>> ELSE DivV(x.op, m, a, bb)
                         [] x.op = "Cmp3" -> LET rr == CmpRel(q, a, bb) IN
                               WConv(32, 1, m.b, IF rr = 1 THEN <<0, 0>> ELSE IF rr = 2 THEN <<65535, 65535>>
                                             ELSE IF rr = 4 THEN <<1, 0>> ELSE <<x.un % 65536, x.un \div 65536>>)
                         [] x.op = "Unord" -> WFromInt(m.b, IF CmpRel(q, a, bb) = 8 THEN 1 ELSE 0)
                         [] OTHER -> Pure([o |-> x.op, x |-> <<0>>, i |-> <<>>, d |-> 0, m |-> 1, q |-> 1], m, q, a, bb)
            IN IF val = <<>> THEN <<<<>>, acc.m, acc.l, "undefined result of a support routine">>
               ELSE <<res(WTrunc(64, val)), acc.m, acc.l, "">>
       [] OTHER -> <<<<>>, acc.m, acc.l, "unsupported external function">>

------------------------------------------------------------------------------
Init == /\ c \in 1..NC
        /\ r \in 1..Len(Case(c).runs)
        /\ v = 1 /\ stk = <<>> /\ mem = <<>> /\ log = <<>> /\ cnt = <<0, Case(c).limit, 1, 0>>
        /\ st = "new" /\ obs = <<>> /\ why = ""

Report(kind, text) == PrintT("@" \o ToJson(<<kind, Case(c).id, r, Case(c).vers[v].tag, text, cnt[1] + 1>>))

Stop(kind, text) ==
  /\ st' = kind /\ why' = text /\ Report(kind, text)
  /\ stk' = <<>> /\ mem' = <<>> /\ log' = <<>> /\ obs' = <<>>
  /\ UNCHANGED <<c, r, v, cnt>>

Broken(text) == Stop(IF Strict THEN "skip" ELSE "bad", text)

Go(s2, m2, l2, k2) ==
  /\ stk' = s2 /\ mem' = m2 /\ log' = l2
  /\ cnt' = [cnt EXCEPT ![1] = @ + 1, ![3] = k2]
  /\ UNCHANGED <<c, r, v, st, obs, why>>

(* a variable that was removed (nothing outside can see it) has no bytes *)
Final(m, l) == <<l, [i \in 1..Len(Case(c).obs) |-> IF Case(c).obs[i] \in DOMAIN m THEN m[Case(c).obs[i]] ELSE <<>>]>>

(* Version w is machine code: it was run by the processor on the same input *)
(* and what was observed was recorded (the calls and the memory, but not the *)
(* volatile accesses).                                                        *)
StartRecorded(w) ==
  /\ v' = w /\ st' = "rec" /\ stk' = <<>> /\ mem' = <<>> /\ log' = <<>>
  /\ UNCHANGED <<c, r, why>>

StartVersion(w) ==     \* begin executing version w
  IF "rec" \in DOMAIN Case(c).vers[w] THEN StartRecorded(w) ELSE
  LET V == Case(c).vers[w] IN
  /\ v' = w
  /\ stk' = << [f |-> V.main, b |-> 1, s |-> 1, e |-> [i \in 1..V.fns[V.main].n |-> <<>>], a |-> <<>>, fr |-> 1001] >>
  /\ mem' = (1001 :> [i \in 1..V.fns[V.main].fs |-> 256]) @@
            FoldLeft(LAMBDA mm, g : (g[1] :> g[2]) @@ mm, (Case(c).inreg :> Inp.inp), V.glob)
  /\ log' = <<>> /\ st' = "run"
  /\ UNCHANGED <<c, r, why>>

Begin == st = "new" /\ StartVersion(1) /\ UNCHANGED <<cnt, obs>>

(* an undefined byte of the program may be anything in the graphs *)
RefMem(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
                   a[i] = b[i] \/ (Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : b[i][j] = 256 \/ a[i][j] = b[i][j])
RefLog(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
                   a[i] = b[i] \/ (Len(a[i]) = 3 /\ Len(b[i]) = 3 /\ a[i][1] = b[i][1] /\ a[i][2] = b[i][2] /\ RefMem(a[i][3], b[i][3]))

MemDiff(a, b) ==       \* the first differing byte of every region, for the report
  [i \in 1..Len(a) |->
     IF i > Len(b) THEN <<>> ELSE
     LET K == {k \in 1..Len(a[i]) : k > Len(b[i]) \/ (b[i][k] # 256 /\ a[i][k] # b[i][k])} IN
     IF K = {} THEN <<>>
     ELSE LET k == CHOOSE k \in K : \A j \in K : k <= j IN <<i, k - 1, a[i][k], IF k > Len(b[i]) THEN -1 ELSE b[i][k]>>]

NextVersion(f) ==
  IF v = Len(Case(c).vers) THEN Stop("ok", "")
  ELSE /\ StartVersion(v + 1) /\ UNCHANGED obs /\ cnt' = [cnt EXCEPT ![1] = 0, ![3] = 1]

Compare(f, o) ==       \* f = <<log, memory>> of version v, o of version 1
  IF f # o /\ ~(RefLog(f[1], o[1]) /\ RefMem(f[2], o[2]))
  THEN Stop("bad", IF ~RefLog(f[1], o[1]) THEN "different calls or volatile accesses: " \o ToString(SelectSeq([i \in 1..Len(f[1]) |->
                            IF i > Len(o[1]) \/ f[1][i] # o[1][i] THEN f[1][i] ELSE <<>>], LAMBDA z : z # <<>>))
                                    \o " expected " \o ToString(SelectSeq([i \in 1..Len(o[1]) |->
                            IF i > Len(f[1]) \/ f[1][i] # o[1][i] THEN o[1][i] ELSE <<>>], LAMBDA z : z # <<>>))
                   ELSE "different final memory, <<region, byte, is, expected>>: " \o ToString(SelectSeq(MemDiff(f[2], o[2]), LAMBDA z : z # <<>>)))
  ELSE NextVersion(f)

Finish(acc) ==         \* the main function returned
  \E f \in {Final(acc.m, acc.l)} :
  IF v = 1
  THEN /\ IF Len(Case(c).vers) > 1
          THEN StartVersion(2) ELSE Stop("ok", "")
       /\ (Len(Case(c).vers) > 1 => obs' = f /\ cnt' = <<0, 6 * cnt[1] + 300, 1, cnt[1]>>)
  ELSE Compare(f, obs)

Recorded ==            \* judge what the machine code did
  /\ st = "rec"
  /\ \E o \in {Ver.rec[r]} :
     IF o.x # "" THEN Stop("bad", "the machine code " \o o.x)
     ELSE Compare(<<o.log, o.mem>>, <<SelectSeq(obs[1], LAMBDA z : z[1] > 0), obs[2]>>)

SwitchTarget(t, m, a) ==
  LET k == SelectInSeq(t.tab, LAMBDA z : WCmp(m.b, m.s, a, z[1]) >= 0 /\ WCmp(m.b, m.s, a, z[2]) <= 0)
  IN IF k = 0 THEN t.t[1] ELSE t.t[t.tab[k][3] + 1]

SetResults(e, ds, vals) ==
  FoldLeft(LAMBDA ee, k : IF ds[k] = 0 \/ k > Len(vals) THEN ee ELSE [ee EXCEPT ![ds[k]] = vals[k]], e, [i \in 1..Len(ds) |-> i])

Step ==
  /\ st = "run"
  /\ IF cnt[1] >= cnt[2] THEN Broken("does not terminate in time")
     ELSE
     \* (existential quantification binds values: TLC evaluates a LET anew for every use)
     \E f \in {Top} : \E s \in {Seg(f)} :
     \E acc \in {FoldLeft(ExecGroup, [e |-> f.e, m |-> mem, l |-> log, x |-> "", k |-> cnt[3], a |-> f.a, fr |-> f.fr], s.g)} : \E t \in {s.t} :
     IF acc.x # "" THEN Broken(acc.x)
     ELSE CASE t.o = "jmp" -> Go(Update(acc, Enter(f, t.t[1], acc.e)), acc.m, acc.l, acc.k)
       [] t.o = "cond" ->
            LET b == acc.e[t.i[1]] IN
            IF b = <<>> THEN Broken("branch on an undefined value")
            ELSE Go(Update(acc, Enter(f, IF WIsZero(b) THEN t.t[2] ELSE t.t[1], acc.e)), acc.m, acc.l, acc.k)
       [] t.o = "sw" ->
            LET a == acc.e[t.i[1]] IN
            IF a = <<>> THEN Broken("switch on an undefined value")
            ELSE Go(Update(acc, Enter(f, SwitchTarget(t, Modes[t.m], a), acc.e)), acc.m, acc.l, acc.k)
       [] t.o = "ret" ->
            IF Len(stk) = 1 THEN Finish(acc)
            ELSE \E caller \in {stk[Len(stk) - 1]} :
                 LET ct == Seg(caller).t
                     vals == [k \in 1..Len(t.i) |-> acc.e[t.i[k]]] IN
                     \* compound results are copied to fresh memory of the caller
                 \E cp \in {FoldLeft(LAMBDA a, k :
                             IF k > Len(ct.rs) \/ ct.rs[k] = 0 THEN <<Append(a[1], vals[k]), a[2], a[3], a[4]>>
                             ELSE IF a[4] # "" \/ vals[k] = <<>> \/ ~InBounds(a[2], vals[k], ct.rs[k]) THEN <<a[1], a[2], a[3], "bad compound result">>
                             ELSE <<Append(a[1], BaseOf(2000 + a[3], Case(c).pbits)),
                                    (2000 + a[3] :> LoadCells(a[2], vals[k], ct.rs[k])) @@ a[2], a[3] + 1, "">>,
                             <<<<>>, acc.m, acc.k, "">>, [k \in 1..Len(vals) |-> k])} :
                 LET m2 == [R \in (DOMAIN cp[2]) \ {f.fr} |-> cp[2][R]]
                     c2 == [caller EXCEPT !.s = @ + 1, !.e = SetResults(caller.e, ct.d, cp[1])]
                 IN IF cp[4] # "" THEN Broken(cp[4])
                    ELSE Go(SubSeq(stk, 1, Len(stk) - 2) \o <<c2>>, m2, acc.l, cp[3])
       [] t.o = "call" ->
            \E p \in {acc.e[t.i[1]]} :
            \E args \in {[k \in 1..(Len(t.i) - 1) |-> acc.e[t.i[k + 1]]]} :
            \E k \in {IF p = <<>> THEN 0 ELSE RegOf(p) - 3000} :
               IF p = <<>> THEN Broken("call through an undefined address")
               ELSE IF k < 1 \/ k > Len(Ver.fns) \/ OffOf(p) # 0 THEN Broken("call of something that is not a function")
               ELSE IF Fn(k).k = "x"
               THEN \E R \in {Ext(Fn(k), args, t.dm, acc)} :
                    IF R[4] # "" THEN Broken(R[4])
                    ELSE Go(Update(acc, [f EXCEPT !.s = @ + 1, !.e = SetResults(acc.e, t.d, R[1])]), R[2], R[3], acc.k)
               ELSE IF Len(stk) >= 60 THEN Broken("recursion too deep")
               ELSE \E depth \in {Len(stk) + 1} :
                    \* compound arguments are copied to fresh memory
                    \E cp \in {FoldLeft(LAMBDA a, j :
                                IF j > Len(t.ps) \/ t.ps[j] = 0 THEN <<Append(a[1], args[j]), a[2], a[3], a[4]>>
                                ELSE IF a[4] # "" \/ args[j] = <<>> \/ ~InBounds(a[2], args[j], t.ps[j]) THEN <<a[1], a[2], a[3], "bad compound argument">>
                                ELSE <<Append(a[1], BaseOf(2000 + a[3], Case(c).pbits)),
                                       (2000 + a[3] :> LoadCells(a[2], args[j], t.ps[j])) @@ a[2], a[3] + 1, "">>,
                                <<<<>>, acc.m, acc.k, "">>, [j \in 1..Len(args) |-> j])} :
                       IF cp[4] # "" THEN Broken(cp[4])
                       ELSE Go(Append([stk EXCEPT ![Len(stk)] = [f EXCEPT !.e = acc.e]], NewFrame(k, cp[1], depth, 0)),
                               FrameMem(k, depth) @@ cp[2], acc.l, cp[3])
       [] OTHER -> Broken("control reaches a block without exit")

Next == Begin \/ Step \/ Recorded
Spec == Init /\ [][Next]_vars

NoViolation == st # "bad"      \* decided by the terminal reports, so that one run lists every violation
TypeOK == st \in {"new", "run", "rec", "ok", "skip", "bad"}
=============================================================================
