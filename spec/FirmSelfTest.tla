---------------------------- MODULE FirmSelfTest ----------------------------
(* The accelerated PureSeq equals its definition in Firm.tla: this module is  *)
(* run with and without the Java class and the printed values are compared.   *)
EXTENDS Firm
VARIABLE k
SInit == k \in 1..NC /\ c = 1 /\ r = 1 /\ v = 1 /\ stk = <<>> /\ mem = <<>> /\ log = <<>> /\ cnt = <<>> /\ st = "new" /\ obs = <<>> /\ why = ""
SNext == /\ k > 0 /\ k' = 0 /\ UNCHANGED vars
         /\ PrintT("@" \o ToJson(<<k, PureSeq(Case(k).e, Case(k).n, Modes)>>))
=============================================================================
