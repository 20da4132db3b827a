-------------------------------- MODULE Tarvals --------------------------------
(* Compile-time target values of integer modes (property C01).              *)
(*                                                                          *)
(* State: the library's only mutable setting (wrap on overflow) and the     *)
(* position in a recorded history of calls.  Each step of the history is a  *)
(* group of calls of one operation; the step is enabled only with the       *)
(* results the two's-complement definition gives.  Mode = <<bits, signed,   *)
(* modulo shift, isref>>.                                                   *)
EXTENDS Words, Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TV_FILE)
NG == Len(Hist)

VARIABLES g, bad
vars == <<g, bad>>

Bad == <<-1>>                       \* tarval_bad
N(m) == m[1]  Sgn(m) == m[2]  Ms(m) == m[3]
IsNeg(m, a) == Sgn(m) = 1 /\ Bit(a, N(m) - 1) = 1
Wide(m, a, w) == WConv(N(m), Sgn(m), w, a)          \* the mathematical value, in w bits
InRange(m, v, w) == WConv(N(m), Sgn(m), w, WTrunc(N(m), v)) = v
Ovf(wrap, m, v, w) == IF wrap = 1 \/ InRange(m, v, w) THEN WTrunc(N(m), v) ELSE Bad
Ones(n) == WUn("Not", n, WZero(n))
MinV(m) == IF Sgn(m) = 1 THEN WBin("Shl", N(m), WFromInt(N(m), 1), WFromInt(16, N(m) - 1)) ELSE WZero(N(m))
MaxV(m) == WUn("Not", N(m), MinV(m))
One(m) == WTrunc(N(m), <<1>>)

Shift(op, m, a, k) ==               \* k: word, the unsigned shift amount
  LET kk == IF Ms(m) = 0 THEN k ELSE WBin("ModU", 64, WTrunc(64, k), WFromInt(64, Ms(m)))
  IN  WBin(op, N(m), a, kk)

Rel(m, a, b) == LET c == WCmp(N(m), Sgn(m), a, b) IN IF c = 0 THEN 1 ELSE IF c < 0 THEN 2 ELSE 4

(* ---- text: sequences of character codes --------------------------------- *)
Digit(c) == IF c >= 97 THEN c - 87 ELSE IF c >= 65 THEN c - 55 ELSE c - 48
ParseDigits(s, base, w) ==
  FoldLeft(LAMBDA acc, c : WBin("Add", w, WBin("Mul", w, acc, WFromInt(w, base)), WFromInt(w, Digit(c))), WZero(w), s)
Drop(s, k) == SubSeq(s, k + 1, Len(s))
ParseInt(s, w) ==
  LET neg == s[1] = 45
      t   == IF s[1] \in {43, 45} THEN Drop(s, 1) ELSE s
      v   == IF Len(t) >= 2 /\ t[1] = 48
             THEN IF t[2] \in {88, 120} THEN ParseDigits(Drop(t, 2), 16, w)
                  ELSE IF t[2] \in {66, 98} THEN ParseDigits(Drop(t, 2), 2, w)
                  ELSE ParseDigits(Drop(t, 1), 8, w)
             ELSE ParseDigits(t, 10, w)
  IN  IF neg THEN WUn("Neg", w, v) ELSE v

W2(m) == 2 * N(m) + 2

Expected(wrap, op, m, m2, a, b) ==
  LET n == N(m)
      s(o) == o \o (IF Sgn(m) = 1 THEN "S" ELSE "U")
      w == W2(m)
      wa == Wide(m, a, w)
      wb == Wide(m, b, w)
      bc == IF m2 = m THEN b ELSE WConv(N(m2), Sgn(m2), n, b)   \* pointer +- integer converts the integer
  IN
  CASE op = "add" -> IF m = m2 THEN Ovf(wrap, m, WBin("Add", w, wa, wb), w) ELSE WBin("Add", n, a, bc)
    [] op = "sub" -> IF m = m2 THEN Ovf(wrap, m, WBin("Sub", w, wa, wb), w) ELSE WBin("Sub", n, a, bc)
    [] op = "subpp" -> WBin("Sub", n, a, b)
    [] op = "mul" -> Ovf(wrap, m, WBin("Mul", w, wa, wb), w)
    [] op = "neg" -> Ovf(wrap, m, WUn("Neg", w, wa), w)
    [] op = "abs" -> IF IsNeg(m, a) THEN Ovf(wrap, m, WUn("Neg", w, wa), w) ELSE a
    [] op \in {"div", "divmodq"} -> IF WIsZero(b) THEN Bad ELSE WBin(s("Div"), n, a, b)
    [] op \in {"mod", "divmodr"} -> IF WIsZero(b) THEN Bad ELSE WBin(s("Mod"), n, a, b)
    [] op = "not" -> WUn("Not", n, a)
    [] op = "and" -> WBin("And", n, a, b)
    [] op = "or"  -> WBin("Or", n, a, b)
    [] op = "eor" -> WBin("Eor", n, a, b)
    [] op = "andnot" -> WBin("And", n, a, WUn("Not", n, b))
    [] op = "ornot"  -> WBin("Or", n, a, WUn("Not", n, b))
    [] op = "shl"  -> Shift("Shl", m, a, b)
    [] op = "shr"  -> Shift("Shr", m, a, b)
    [] op = "shrs" -> Shift("Shrs", m, a, b)
    [] op = "shlu"  -> Shift("Shl", m, a, b)
    [] op = "shru"  -> Shift("Shr", m, a, b)
    [] op = "shrsu" -> Shift("Shrs", m, a, b)
    [] op = "cmp" -> <<Rel(m, a, b)>>
    [] op = "same" -> <<IF a = b THEN 1 ELSE 0>>           \* equal values are the same object
    [] op = "conv" -> LET ww == (IF n > N(m2) THEN n ELSE N(m2)) + 1
                      IN  IF m = m2 THEN a ELSE Ovf(wrap, m2, Wide(m, a, ww), ww)
    [] op = "bitcast" -> a
    [] op = "id" -> a
    [] op = "popcount" -> <<WCount("Popcount", n, a)>>
    [] op = "low"  -> <<WCount("Low", n, a)>>
    [] op = "high" -> <<WCount("High", n, a)>>
    [] op = "isneg" -> <<IF IsNeg(m, a) THEN 1 ELSE 0>>
    [] op = "isnull" -> <<IF WIsZero(a) THEN 1 ELSE 0>>
    [] op = "isone" -> <<IF a = One(m) THEN 1 ELSE 0>>
    [] op = "isallone" -> <<IF a = Ones(n) THEN 1 ELSE 0>>
    [] op = "islong" -> \* fits the host's 64-bit long (for unsigned modes: fits in 64 bits)
         <<IF n <= 64 THEN 1 ELSE IF WConv(64, Sgn(m), n, WTrunc(64, a)) = a THEN 1 ELSE 0>>
    [] op = "getlong" -> WConv(n, Sgn(m), 64, a)
    [] op = "subbits" -> \* byte b[1] of the value, bits above the mode are 0
         <<LET k == WToInt(b) IN FoldLeft(LAMBDA acc, i : acc * 2 + (IF k * 8 + 8 - i < n THEN Bit(a, k * 8 + 8 - i) ELSE 0), 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)>>
    [] op = "min" -> MinV(m)
    [] op = "max" -> MaxV(m)
    [] op = "null" -> WZero(n)
    [] op = "one" -> One(m)
    [] op = "allone" -> Ones(n)
    [] op = "fromlong" -> WConv(64, 1, n, a)
    [] op = "fromstr" -> LET ww == 132 IN Ovf(wrap, m, ParseInt(a, ww), ww)
    [] op = "intstr" -> LET ww == 132                       \* b = <<base, negative>>
                            v == ParseDigits(a, b[1], ww)
                        IN  Ovf(wrap, m, IF b[2] = 1 THEN WUn("Neg", ww, v) ELSE v, ww)
    [] op = "text" -> WZero(n)                             \* compared by TextOk instead
    [] OTHER -> <<-9>>

(* printed text denotes the value *)
TextOk(m, a, r) == IF m[4] = 1 /\ WIsZero(a) THEN r = <<78, 85, 76, 76>>  \* NULL
                   ELSE /\ Len(r) > 2 /\ r[1] = 48 /\ r[2] = 120
                        /\ ParseDigits(Drop(r, 2), 16, N(m)) = a
                        /\ Len(r) - 2 <= (N(m) + 3) \div 4

Ok(grp, v) == IF grp.op = "text" THEN TextOk(grp.m, v[1], v[3])
              ELSE Expected(grp.wrap, grp.op, grp.m, grp.m2, v[1], v[2]) = v[3]

FirstBad(grp) == SelectInSeq(grp.vs, LAMBDA v : ~Ok(grp, v))

Init == g \in 1..NG /\ bad = -1
Next == /\ bad = -1
        /\ LET k == FirstBad(Hist[g])
           IN  /\ bad' = k
               /\ k # 0 => PrintT("@" \o ToJson([grp |-> g, op |-> Hist[g].op, m |-> Hist[g].m, m2 |-> Hist[g].m2,
                                       wrap |-> Hist[g].wrap, vec |-> Hist[g].vs[k],
                                       expected |-> Expected(Hist[g].wrap, Hist[g].op, Hist[g].m, Hist[g].m2, Hist[g].vs[k][1], Hist[g].vs[k][2])]))
        /\ UNCHANGED g
Holds == bad <= 0
================================================================================
