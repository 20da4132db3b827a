------------------------------- MODULE Words -------------------------------
(* Fixed-width machine words.                                              *)
(*                                                                         *)
(* A word of n bits is a sequence of ceil(n/16) limbs, least significant   *)
(* limb first, each in 0..65535; bits above n are 0.  TLC integers are     *)
(* 32 bit, so words wider than that cannot be TLC integers.                *)
(*                                                                         *)
(* The definitions below ARE the specification.  java/WordsOv.java replaces*)
(* the marked operators by BigInteger code when TLC runs with it on its    *)
(* class path; WordsSelfTest.tla (checks: words self test) compares the two*)
(* on the same vectors.                                                    *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

NL(n) == (n + 15) \div 16
WZero(n) == [i \in 1..NL(n) |-> 0]

Bit(w, i) == IF (i \div 16) + 1 > Len(w) THEN 0
             ELSE (w[(i \div 16) + 1] \div (2 ^ (i % 16))) % 2

LOCAL LimbOf(f, n, j) ==     \* limb j (1-based) of the word whose bit i is f[i]
  FoldLeft(LAMBDA acc, i : acc * 2 + (IF (j - 1) * 16 + 16 - i < n THEN f[(j - 1) * 16 + 16 - i] ELSE 0),
           0, [i \in 1..16 |-> i])
FromBits(n, f) == [j \in 1..NL(n) |-> LimbOf(f, n, j)]   \* f : [0..n-1 -> {0,1}]

(* truncate / zero extend w to n bits *)
WTrunc(n, w) == FromBits(n, [i \in 0..(n - 1) |-> Bit(w, i)])

LOCAL AddC(n, a, b, c0) ==
  LET step(acc, j) ==
        LET s == (IF j > Len(a) THEN 0 ELSE a[j]) + (IF j > Len(b) THEN 0 ELSE b[j]) + acc[2]
        IN  <<Append(acc[1], s % 65536), s \div 65536>>
  IN  WTrunc(n, FoldLeft(step, << <<>>, c0 >>, [j \in 1..NL(n) |-> j])[1])

LOCAL NotW(n, a) == FromBits(n, [i \in 0..(n - 1) |-> 1 - Bit(a, i)])
LOCAL SubW(n, a, b) == AddC(n, a, NotW(n, b), 1)
LOCAL NegW(n, a) == SubW(n, WZero(n), a)
LOCAL ShlW(n, a, k) == FromBits(n, [i \in 0..(n - 1) |-> IF i - k < 0 THEN 0 ELSE Bit(a, i - k)])
LOCAL ShrW(n, a, k) == FromBits(n, [i \in 0..(n - 1) |-> IF i + k >= n THEN 0 ELSE Bit(a, i + k)])
LOCAL ShrsW(n, a, k) == FromBits(n, [i \in 0..(n - 1) |-> IF i + k >= n THEN Bit(a, n - 1) ELSE Bit(a, i + k)])

LOCAL Cmp3(n, a, b) ==        \* unsigned comparison, -1 / 0 / 1
  FoldLeft(LAMBDA acc, j : IF a[j] # b[j] THEN (IF a[j] < b[j] THEN -1 ELSE 1) ELSE acc,
           0, [j \in 1..NL(n) |-> j])

LOCAL MulW(n, a, b) ==
  FoldLeft(LAMBDA acc, i : IF Bit(b, i - 1) = 1 THEN AddC(n, acc, ShlW(n, a, i - 1), 0) ELSE acc,
           WZero(n), [i \in 1..n |-> i])

LOCAL UDivMod(n, a, b) ==     \* <<quotient, remainder>>; b # 0; one spare bit avoids overflow
  LET m == n + 1
      bb == WTrunc(m, b)
      step(acc, i) ==
        LET pos == n - i
            r1  == AddC(m, ShlW(m, acc[2], 1), <<Bit(a, pos)>>, 0)
        IN  IF Cmp3(m, r1, bb) >= 0
            THEN << AddC(n, acc[1], ShlW(n, <<1>>, pos), 0), SubW(m, r1, bb) >>
            ELSE << acc[1], r1 >>
      r == FoldLeft(step, << WZero(n), WZero(m) >>, [i \in 1..n |-> i])
  IN  << r[1], WTrunc(n, r[2]) >>

LOCAL Sx(n, a, m) == FromBits(m, [i \in 0..(m - 1) |-> IF i < n THEN Bit(a, i) ELSE Bit(a, n - 1)])
LOCAL IsNeg(n, a) == Bit(a, n - 1) = 1
LOCAL AbsW(n, a) == IF IsNeg(n, a) THEN NegW(n, a) ELSE a

(* integer value of a word when it is below 2^30, else 2^30 *)
WToInt(w) == IF \E i \in 3..Len(w) : w[i] # 0 THEN 1073741824
             ELSE IF Len(w) >= 2 /\ w[2] >= 16384 THEN 1073741824
             ELSE (IF Len(w) >= 2 THEN w[2] * 65536 ELSE 0) + (IF Len(w) >= 1 THEN w[1] ELSE 0)
WFromInt(n, k) == WTrunc(n, << k % 65536, (k \div 65536) % 65536 >>)   \* 0 <= k < 2^30

WIsZero(w) == \A i \in 1..Len(w) : w[i] = 0

(* ---- overridden operators --------------------------------------------- *)
(* Binary operations on n-bit words.  Shift amounts are the unsigned value  *)
(* of b; over-wide shifts give 0 (Shl, Shr) or sign copies (Shrs).          *)
(* Division by zero is <<>> (no value).                                     *)
WBin(op, n, a, b) ==
  CASE op = "Add"   -> AddC(n, a, b, 0)
    [] op = "Sub"   -> SubW(n, a, b)
    [] op = "Mul"   -> MulW(n, a, b)
    [] op = "MulhU" -> WTrunc(n, ShrW(2 * n, MulW(2 * n, a, b), n))
    [] op = "MulhS" -> WTrunc(n, ShrW(2 * n, MulW(2 * n, Sx(n, a, 2 * n), Sx(n, b, 2 * n)), n))
    [] op = "DivU"  -> IF WIsZero(b) THEN <<>> ELSE UDivMod(n, a, b)[1]
    [] op = "ModU"  -> IF WIsZero(b) THEN <<>> ELSE UDivMod(n, a, b)[2]
    [] op = "DivS"  -> IF WIsZero(b) THEN <<>>
                       ELSE LET q == UDivMod(n, AbsW(n, a), AbsW(n, b))[1]
                            IN  IF IsNeg(n, a) # IsNeg(n, b) THEN NegW(n, q) ELSE q
    [] op = "ModS"  -> IF WIsZero(b) THEN <<>>
                       ELSE LET r == UDivMod(n, AbsW(n, a), AbsW(n, b))[2]
                            IN  IF IsNeg(n, a) THEN NegW(n, r) ELSE r
    [] op = "And"   -> FromBits(n, [i \in 0..(n - 1) |-> Bit(a, i) * Bit(b, i)])
    [] op = "Or"    -> FromBits(n, [i \in 0..(n - 1) |-> IF Bit(a, i) + Bit(b, i) > 0 THEN 1 ELSE 0])
    [] op = "Eor"   -> FromBits(n, [i \in 0..(n - 1) |-> (Bit(a, i) + Bit(b, i)) % 2])
    [] op = "Shl"   -> ShlW(n, a, WToInt(b))
    [] op = "Shr"   -> ShrW(n, a, WToInt(b))
    [] op = "Shrs"  -> ShrsW(n, a, WToInt(b))

WUn(op, n, a) ==
  CASE op = "Not" -> NotW(n, a)
    [] op = "Neg" -> NegW(n, a)
    [] op = "Bswap" -> LET nb == n \div 8
                       IN FromBits(n, [i \in 0..(n - 1) |-> Bit(a, (nb - 1 - (i \div 8)) * 8 + (i % 8))])

(* -1, 0, 1 *)
WCmp(n, sgn, a, b) ==
  IF sgn = 1 /\ Bit(a, n - 1) # Bit(b, n - 1) THEN (IF Bit(a, n - 1) = 1 THEN -1 ELSE 1)
  ELSE Cmp3(n, a, b)

(* value of the n1-bit word a (signed iff s1=1) as an n2-bit word *)
WConv(n1, s1, n2, a) ==
  IF n2 <= n1 \/ s1 = 0 THEN WTrunc(n2, a) ELSE Sx(n1, a, n2)

(* small integer results *)
WCount(op, n, a) ==
  CASE op = "Popcount" -> FoldLeft(LAMBDA acc, i : acc + Bit(a, i - 1), 0, [i \in 1..n |-> i])
    [] op = "High"     -> \* index of highest set bit, -1 if none
         FoldLeft(LAMBDA acc, i : IF Bit(a, i - 1) = 1 THEN i - 1 ELSE acc, -1, [i \in 1..n |-> i])
    [] op = "Low"      -> \* index of lowest set bit, -1 if none
         FoldLeft(LAMBDA acc, i : IF acc = -1 /\ Bit(a, i - 1) = 1 THEN i - 1 ELSE acc, -1, [i \in 1..n |-> i])
=============================================================================
