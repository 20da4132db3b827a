------------------------------- MODULE TarvalsF -------------------------------
(* Compile-time target values of floating point modes (property C02).        *)
(* Mode = <<"i", bits, signed>> or <<"f", e, m, x87, overflow style>>.       *)
EXTENDS Float, Words, Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TV_FILE)
NG == Len(Hist)
VARIABLES g, bad
vars == <<g, bad>>

Bad == <<-1>>
F(m) == <<m[2], m[3], m[4]>>
MinI(m) == IF m[3] = 1 THEN WBin("Shl", m[2], WFromInt(m[2], 1), WFromInt(16, m[2] - 1)) ELSE WZero(m[2])
MaxI(m) == WUn("Not", m[2], MinI(m))
B(x) == <<IF x THEN 1 ELSE 0>>
ToI(m, m2, a) ==
  LET r == FToInt(F(m), m2[2], m2[3], a) IN
  CASE r[1] = "ok"  -> r[2]
    [] r[1] = "nan" -> Bad
    [] r[1] = "pos" -> IF m[5] = 1 THEN MaxI(m2) ELSE MinI(m2)
    [] r[1] = "neg" -> MinI(m2)

MaxF(f) == FMake(f, 0, EMaxF(f) - 1, WUn("Not", f[2], WZero(f[2])))

Expected(op, m, m2, a, b) ==
  CASE op = "add" -> FAdd(F(m), a, b)
    [] op = "sub" -> FSub(F(m), a, b)
    [] op = "mul" -> FMul(F(m), a, b)
    [] op = "div" -> FDiv(F(m), a, b)
    [] op = "neg" -> FNeg(F(m), a)
    [] op = "abs" -> IF FSign(F(m), a) = 1 THEN FNeg(F(m), a) ELSE FCanon(F(m), a)
    [] op = "id"  -> FCanon(F(m), a)
    [] op = "cmp" -> <<FCmp(F(m), a, b)>>
    [] op = "isnan" -> B(FIsNan(F(m), a))
    [] op = "isfinite" -> B(~FIsNan(F(m), a) /\ ~FIsInf(F(m), a))
    [] op = "isneg" -> <<FSign(F(m), a)>>
    [] op = "isnull" -> B(FIsZero(F(m), a) /\ FSign(F(m), a) = 0)
    [] op = "isone" -> B(FCmp(F(m), a, FFromInt(F(m), 2, 0, <<1>>)) = 1)
    [] op = "conv" -> IF m[1] = "f" /\ m2[1] = "f" THEN (IF m = m2 THEN FCanon(F(m), a) ELSE FConv(F(m), F(m2), a))
                      ELSE IF m[1] = "f" THEN ToI(m, m2, a)
                      ELSE FFromInt(F(m2), m[2], m[3], a)
    [] op = "bitcast" -> IF m[1] = "f" /\ m2[1] = "f" THEN FCanon(F(m), a) ELSE a
    [] op = "exponent" -> <<FExp(F(m), a) - Bias(F(m))>>
    [] op = "zeromant" -> B(WIsZero(FracPart(F(m), a)))
    [] op = "lossless" -> B(FConv(F(m2), F(m), FConv(F(m), F(m2), a)) = FCanon(F(m), a))
    [] op = "null" -> FZero(F(m), 0)
    [] op = "one" -> FFromInt(F(m), 2, 0, <<1>>)
    [] op = "max" -> MaxF(F(m))
    [] op = "min" -> FNeg(F(m), MaxF(F(m)))
    [] op = "inf" -> FInf(F(m), 0)
    [] OTHER -> <<-9>>

IsFloatRes(op, m, m2) ==
  \/ op \in {"add", "sub", "mul", "div", "neg", "abs", "id"}
  \/ op \in {"conv", "bitcast"} /\ m2[1] = "f"
Canon(op, m, m2, r) ==       \* NaN results are compared as a class
  IF r # Bad /\ IsFloatRes(op, m, m2)
  THEN FCanon(IF op \in {"conv", "bitcast"} THEN F(m2) ELSE F(m), r) ELSE r
(* "lossless" may be answered no for a value that would survive *)
Ok(grp, v) == IF grp.op = "lossless" THEN v[3] = <<0>> \/ Expected(grp.op, grp.m, grp.m2, v[1], v[2]) = <<1>> ELSE
              LET e == Expected(grp.op, grp.m, grp.m2, v[1], v[2]) IN
              Canon(grp.op, grp.m, grp.m2, v[3]) = Canon(grp.op, grp.m, grp.m2, e)

FirstBad(grp) == SelectInSeq(grp.vs, LAMBDA v : ~Ok(grp, v))
Init == g \in 1..NG /\ bad = -1
Next == /\ bad = -1
        /\ LET k == FirstBad(Hist[g])
           IN  /\ bad' = k
               /\ k # 0 => PrintT("@" \o ToJson([grp |-> g, op |-> Hist[g].op, m |-> Hist[g].m, m2 |-> Hist[g].m2,
                                       vec |-> Hist[g].vs[k],
                                       expected |-> Expected(Hist[g].op, Hist[g].m, Hist[g].m2, Hist[g].vs[k][1], Hist[g].vs[k][2])]))
        /\ UNCHANGED g
Holds == bad <= 0
================================================================================
