-------------------------------- MODULE Float --------------------------------
(* IEEE-754 binary floating point over Words, any format, round to nearest   *)
(* even.                                                                     *)
(*                                                                           *)
(* A format is <<e, m, x>>: e exponent bits, m mantissa field bits, x = 1    *)
(* when the leading one is stored (x87 extended).  A value is the word of    *)
(* its 1 + e + m bits.  Every NaN is represented by the canonical one: the   *)
(* properties compare NaNs as a class.                                       *)
LOCAL INSTANCE Words
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

FBits(f) == 1 + f[1] + f[2]
Prec(f)  == IF f[3] = 1 THEN f[2] ELSE f[2] + 1       \* significand bits p
Bias(f)  == 2 ^ (f[1] - 1) - 1
EMaxF(f) == 2 ^ f[1] - 1                               \* all-ones exponent field
EMin(f)  == 1 - Bias(f) - (Prec(f) - 1)                \* exponent of the smallest subnormal's bit

FSign(f, w) == Bit(w, f[1] + f[2])
FExp(f, w)  == WToInt(WTrunc(f[1], WBin("Shr", FBits(f), w, WFromInt(16, f[2]))))
FMan(f, w)  == WTrunc(f[2], w)
FracPart(f, w) == IF f[3] = 1 THEN WTrunc(f[2] - 1, w) ELSE FMan(f, w)

FIsNan(f, w) == FExp(f, w) = EMaxF(f) /\ ~WIsZero(FracPart(f, w))
FIsInf(f, w) == FExp(f, w) = EMaxF(f) /\ WIsZero(FracPart(f, w))
FIsZero(f, w) == FExp(f, w) # EMaxF(f) /\ FExp(f, w) = 0 /\ WIsZero(FMan(f, w))

FMake(f, s, ex, man) ==        \* man: word with the m mantissa field bits
  LET n == FBits(f) IN
  WBin("Or", n, WTrunc(n, man),
       WBin("Or", n, WBin("Shl", n, WTrunc(n, WFromInt(f[1] + 1, ex)), WFromInt(16, f[2])),
                     WBin("Shl", n, WTrunc(n, <<s>>), WFromInt(16, n - 1))))
TopBit(f) == WBin("Shl", f[2], WTrunc(f[2], <<1>>), WFromInt(16, f[2] - 1))
FZero(f, s) == FMake(f, s, 0, WZero(f[2]))
FInf(f, s)  == FMake(f, s, EMaxF(f), IF f[3] = 1 THEN TopBit(f) ELSE WZero(f[2]))
FNan(f)     == FMake(f, 0, EMaxF(f), IF f[3] = 1 THEN WBin("Or", f[2], TopBit(f), WBin("Shr", f[2], TopBit(f), <<1>>)) ELSE TopBit(f))

(* finite value = significand * 2^exponent *)
Sig(f, w) == LET p == Prec(f) IN
  IF f[3] = 1 THEN FMan(f, w)
  ELSE IF FExp(f, w) = 0 THEN WTrunc(p, FMan(f, w))
  ELSE WBin("Or", p, WTrunc(p, FMan(f, w)), WBin("Shl", p, WTrunc(p, <<1>>), WFromInt(16, p - 1)))
Expo(f, w) == (IF FExp(f, w) = 0 THEN 1 ELSE FExp(f, w)) - Bias(f) - (Prec(f) - 1)

Max2(a, b) == IF a > b THEN a ELSE b

(* the format's value nearest to (-1)^s * (S + sticky*epsilon) * 2^X, S an n-bit word *)
Round(f, s, S, n, X, sticky) ==
  IF WIsZero(S) THEN FZero(f, s)
  ELSE
  LET p == Prec(f)
      h == WCount("High", n, S)
      L == Max2(X + h - (p - 1), EMin(f))
      k == L - X
      w == Max2(n, p) + 2
      Sw == WTrunc(w, S)
      T0 == IF k <= 0 THEN WBin("Shl", w, Sw, WFromInt(16, -k))
            ELSE IF k > n + 1 THEN WZero(w) ELSE WBin("Shr", w, Sw, WFromInt(16, k))
      half == IF k <= 0 \/ k > n THEN 0 ELSE Bit(S, k - 1)
      rest == IF k <= 0 THEN sticky
              ELSE IF k > n THEN 1
              ELSE IF sticky = 1 THEN 1
              ELSE IF k = 1 THEN 0
              ELSE IF WCount("Low", n, S) < k - 1 THEN 1 ELSE 0
      up == half = 1 /\ (rest = 1 \/ Bit(T0, 0) = 1)
      T1 == IF up THEN WBin("Add", w, T0, WTrunc(w, <<1>>)) ELSE T0
      over == Bit(T1, p) = 1
      T == IF over THEN WBin("Shr", w, T1, <<1>>) ELSE T1
      LL == IF over THEN L + 1 ELSE L
  IN IF Bit(T, p - 1) = 1
     THEN LET E == LL + (p - 1) + Bias(f) IN
          IF E >= EMaxF(f) THEN FInf(f, s) ELSE FMake(f, s, E, WTrunc(f[2], T))
     ELSE FMake(f, s, 0, WTrunc(f[2], T))

FNeg(f, a) == IF FIsNan(f, a) THEN FNan(f)
              ELSE WBin("Eor", FBits(f), a, WBin("Shl", FBits(f), WTrunc(FBits(f), <<1>>), WFromInt(16, FBits(f) - 1)))
FCanon(f, a) == IF FIsNan(f, a) THEN FNan(f) ELSE a

FAdd(f, a, b) ==
  LET sa == FSign(f, a) sb == FSign(f, b) IN
  IF FIsNan(f, a) \/ FIsNan(f, b) THEN FNan(f)
  ELSE IF FIsInf(f, a) THEN (IF FIsInf(f, b) /\ sa # sb THEN FNan(f) ELSE a)
  ELSE IF FIsInf(f, b) THEN b
  ELSE IF FIsZero(f, a) /\ FIsZero(f, b) THEN FZero(f, IF sa = 1 /\ sb = 1 THEN 1 ELSE 0)
  ELSE IF FIsZero(f, a) THEN b
  ELSE IF FIsZero(f, b) THEN a
  ELSE
  LET p == Prec(f)
      big == Expo(f, a) >= Expo(f, b)
      u == IF big THEN a ELSE b
      v == IF big THEN b ELSE a
      d == Expo(f, u) - Expo(f, v)
      near == d <= 3 * p + 6
      n == 4 * p + 10
      su == FSign(f, u) sv == FSign(f, v)
      Su == WBin("Shl", n, WTrunc(n, Sig(f, u)), WFromInt(16, IF near THEN d ELSE p + 3))
      X  == IF near THEN Expo(f, v) ELSE Expo(f, u) - (p + 3)
      Sv == IF near THEN WTrunc(n, Sig(f, v)) ELSE WZero(n)
      c == WCmp(n, 0, Su, Sv)
  IN IF su = sv THEN Round(f, su, WBin("Add", n, Su, Sv), n, X, IF near THEN 0 ELSE 1)
     ELSE IF ~near THEN Round(f, su, WBin("Sub", n, Su, WTrunc(n, <<1>>)), n, X, 1)
     ELSE IF c = 0 THEN FZero(f, 0)
     ELSE IF c > 0 THEN Round(f, su, WBin("Sub", n, Su, Sv), n, X, 0)
     ELSE Round(f, sv, WBin("Sub", n, Sv, Su), n, X, 0)
FSub(f, a, b) == IF FIsNan(f, b) THEN FNan(f) ELSE FAdd(f, a, FNeg(f, b))

FMul(f, a, b) ==
  LET s == (FSign(f, a) + FSign(f, b)) % 2
      n == 2 * Prec(f) IN
  IF FIsNan(f, a) \/ FIsNan(f, b) THEN FNan(f)
  ELSE IF FIsInf(f, a) \/ FIsInf(f, b)
       THEN (IF FIsZero(f, a) \/ FIsZero(f, b) THEN FNan(f) ELSE FInf(f, s))
  ELSE Round(f, s, WBin("Mul", n, WTrunc(n, Sig(f, a)), WTrunc(n, Sig(f, b))), n, Expo(f, a) + Expo(f, b), 0)

FDiv(f, a, b) ==
  LET s == (FSign(f, a) + FSign(f, b)) % 2
      p == Prec(f)
      n == 3 * p + 4
      A == WBin("Shl", n, WTrunc(n, Sig(f, a)), WFromInt(16, 2 * p + 2))
      B == WTrunc(n, Sig(f, b)) IN
  IF FIsNan(f, a) \/ FIsNan(f, b) THEN FNan(f)
  ELSE IF FIsInf(f, a) THEN (IF FIsInf(f, b) THEN FNan(f) ELSE FInf(f, s))
  ELSE IF FIsInf(f, b) THEN FZero(f, s)
  ELSE IF FIsZero(f, b) THEN (IF FIsZero(f, a) THEN FNan(f) ELSE FInf(f, s))
  ELSE IF FIsZero(f, a) THEN FZero(f, s)
  ELSE Round(f, s, WBin("DivU", n, A, B), n, Expo(f, a) - Expo(f, b) - (2 * p + 2),
             IF WIsZero(WBin("ModU", n, A, B)) THEN 0 ELSE 1)

(* 1 equal, 2 less, 4 greater, 8 unordered *)
FCmp(f, a, b) ==
  IF FIsNan(f, a) \/ FIsNan(f, b) THEN 8
  ELSE IF FIsZero(f, a) /\ FIsZero(f, b) THEN 1
  ELSE LET sa == FSign(f, a) sb == FSign(f, b)
           c == WCmp(FBits(f), 0, a, b) IN
       IF sa # sb THEN (IF sa = 1 THEN 2 ELSE 4)
       ELSE IF c = 0 THEN 1
       ELSE IF (c < 0) = (sa = 0) THEN 2 ELSE 4

FConv(f, g, a) ==                       \* float to float
  IF FIsNan(f, a) THEN FNan(g)
  ELSE IF FIsInf(f, a) THEN FInf(g, FSign(f, a))
  ELSE Round(g, FSign(f, a), Sig(f, a), Prec(f), Expo(f, a), 0)

FFromInt(g, n, sg, a) ==                \* n-bit integer to float
  LET neg == sg = 1 /\ Bit(a, n - 1) = 1
  IN  Round(g, IF neg THEN 1 ELSE 0, IF neg THEN WUn("Neg", n, a) ELSE a, n, 0, 0)

(* truncation to an n-bit integer: <<kind, word>>, kind "ok" "nan" "pos" "neg" (overflow) *)
FToInt(f, n, sg, a) ==
  IF FIsNan(f, a) THEN <<"nan", WZero(n)>>
  ELSE IF FIsInf(f, a) THEN <<IF FSign(f, a) = 1 THEN "neg" ELSE "pos", WZero(n)>>
  ELSE
  LET S == Sig(f, a) X == Expo(f, a) p == Prec(f) h == WCount("High", p, S)
      w == n + p + 2
      neg == FSign(f, a) = 1 IN
  IF h < 0 THEN <<"ok", WZero(n)>>
  ELSE IF h + X > n THEN <<IF neg THEN "neg" ELSE "pos", WZero(n)>>
  ELSE
  LET V == IF X >= 0 THEN WBin("Shl", w, WTrunc(w, S), WFromInt(16, X))
           ELSE IF -X > p THEN WZero(w) ELSE WBin("Shr", w, WTrunc(w, S), WFromInt(16, -X))
      R == IF neg THEN WUn("Neg", w, V) ELSE V
      fits == WConv(n, sg, w, WTrunc(n, R)) = R
  IN  IF fits THEN <<"ok", WTrunc(n, R)>>
      ELSE <<IF neg THEN "neg" ELSE "pos", WZero(n)>>
=============================================================================
