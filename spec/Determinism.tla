---------------------------- MODULE Determinism ----------------------------
(* Compilation is a function: the state is what has been observed so far,  *)
(* a partial function from programs (with their options) to outputs.  A    *)
(* compilation either extends the function or repeats it; address space    *)
(* layout, unrelated identifiers and earlier compilations are not          *)
(* arguments of the function, so they may not matter.                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)   \* one record per program: its compilations in the order they happened
VARIABLES g, i, known, ok
vars == <<g, i, known, ok>>

Ev == Recs[g].ev[i]
Init == /\ g \in DOMAIN Recs
        /\ i = 1
        /\ known = <<>>
        /\ ok = TRUE
Compile == /\ i <= Len(Recs[g].ev)
           /\ i' = i + 1
           /\ UNCHANGED g
           /\ IF Ev.key \in DOMAIN known
              THEN /\ UNCHANGED known
                   /\ ok' = (known[Ev.key] = Ev.out)
              ELSE /\ known' = [k \in DOMAIN known \cup {Ev.key} |-> IF k = Ev.key THEN Ev.out ELSE known[k]]
                   /\ ok' = TRUE
           /\ IF ok' THEN TRUE ELSE PrintT("@" \o ToJson([g |-> g, i |-> i, how |-> Ev.how, key |-> Ev.key]))
Next == Compile
=============================================================================
