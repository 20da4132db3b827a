----------------------------- MODULE WordsSelfTest -----------------------------
(* Evaluates every operator of Words on recorded vectors and prints the      *)
(* results; run once with and once without the Java accelerators, the two   *)
(* outputs must be equal.                                                    *)
EXTENDS Words, Integers, Sequences, TLC, Json, IOUtils
VS == ndJsonDeserialize(IOEnv.WST_FILE)
VARIABLES i, done
Ops == <<"Add", "Sub", "Mul", "MulhU", "MulhS", "DivU", "ModU", "DivS", "ModS", "And", "Or", "Eor">>
Row(v) == LET n == v[1] a == v[2] b == v[3] m == v[4] k == v[5] IN
  << [j \in 1..Len(Ops) |-> WBin(Ops[j], n, a, b)],
     WBin("Shl", n, a, k), WBin("Shr", n, a, k), WBin("Shrs", n, a, k),
     WUn("Not", n, a), WUn("Neg", n, a), IF n % 8 = 0 THEN WUn("Bswap", n, a) ELSE <<>>,
     WCmp(n, 0, a, b), WCmp(n, 1, a, b), WConv(n, 0, m, a), WConv(n, 1, m, a), WTrunc(m, a),
     WCount("Popcount", n, a), WCount("High", n, a), WCount("Low", n, a) >>
Init == i \in 1..Len(VS) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ PrintT(<<i, Row(VS[i].v)>>) /\ UNCHANGED i
================================================================================
