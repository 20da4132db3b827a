------------------------------ MODULE Lowered ------------------------------
(* What may remain in a graph after a lowering.                            *)
(* Every record is one exported graph of the program, right after the      *)
(* named stage; it lists the pairs <operation, mode> that occur and its    *)
(* Switch nodes (selector mode, number of ranges, span, size of Copy).     *)
(* The rules are the post-conditions include/libfirm/lowering.h gives.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)
Has(s, x) == \E i \in DOMAIN s : s[i] = x

Ops(r) == {r.pairs[i][1] : i \in DOMAIN r.pairs}
AddressOps == {"Sel", "Size", "Offset", "Align"}
\* selections, sizes, offsets and alignments are constants and arithmetic now;
\* a Member stays where the address is not known before the frame is laid out
NoAddressOps(r) == Ops(r) \cap AddressOps = {}
MembersOfFrame(r) == r.members = 0
NoMux(r) == "Mux" \notin Ops(r)
\* truth values exist only where something branches on them
NoBooleans(r) == \A i \in DOMAIN r.pairs : r.pairs[i][2] = "b" => r.pairs[i][1] \in {"Cmp", "Const"}
NoDoubleWords(r) == \A i \in DOMAIN r.pairs : r.pairs[i][2] \notin {"Ls", "Lu"}
CopiesBetween(r, small, large) == \A i \in DOMAIN r.copies : r.copies[i] > small /\ r.copies[i] < large
SwitchesFit(r, small, spare, mode) ==
  \A i \in DOMAIN r.switches :
    LET s == r.switches[i] IN s.mode = mode /\ s.cases > small /\ s.span - (s.cases - 1) < spare /\ s.min = 0

\* the switch modes and copy limits the targets ask for
Word(r) == IF r.target = "amd64" THEN "Lu" ELSE "Iu"
CopyLimits(t) == CASE t = "amd64" -> <<64, 65>> [] t = "ia32" -> <<64, 8193>> [] OTHER -> <<16, 17>>

Rule(r) ==
  CASE r.tag = "lhl" \/ r.tag = "lhlall" -> {<<"an address construct remains", NoAddressOps(r)>>, <<"a member selection of something other than the frame remains", MembersOfFrame(r)>>}
    [] r.tag = "lmux" -> {<<"a selection remains", NoMux(r)>>}
    [] r.tag = "lmodeb" \/ r.tag = "be:lower-modeb" -> {<<"boolean arithmetic remains", NoBooleans(r)>>}
    [] r.tag = "lcopyb" -> {<<"a block copy remains", CopiesBetween(r, 32, 33)>>}
    [] r.tag = "lcopyb2" -> {<<"a block copy remains", CopiesBetween(r, 3, 64)>>}
    [] r.tag = "be:lower-copyb" -> {<<"a block copy remains", CopiesBetween(r, CopyLimits(r.target)[1], CopyLimits(r.target)[2])>>}
    [] r.tag = "lswitch" -> {<<"a switch that should be decided by comparisons remains", SwitchesFit(r, 4, 256, "Iu")>>}
    [] r.tag = "lswitch2" -> {<<"a switch that should be decided by comparisons remains", SwitchesFit(r, 1, 4, "Iu")>>}
    [] r.tag = "be:lower-switch" -> {<<"a switch that should be decided by comparisons remains", SwitchesFit(r, 4, 256, IF r.target = "amd64" THEN "Iu" ELSE "Iu")>>}
    [] r.tag = "be:lower-64" -> {<<"an operation wider than a register remains", r.target = "amd64" \/ NoDoubleWords(r)>>}
    [] OTHER -> {}

VARIABLES g, i
Init == /\ g \in DOMAIN Recs
        /\ i = 0
Next == /\ i = 0
        /\ i' = 1
        /\ UNCHANGED g
        /\ \E bad \in {{x[1] : x \in {y \in Rule(Recs[g]) : ~y[2]}}} :
             IF bad = {} THEN TRUE ELSE PrintT("@" \o ToJson([g |-> g, err |-> bad, tag |-> Recs[g].tag]))
=============================================================================
