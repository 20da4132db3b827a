----------------------------- MODULE RoundTrip -----------------------------
(* The textual format as a store of programs.  The state is what the texts *)
(* denote: a partial function from texts to programs.  Writing a program   *)
(* defines what the new text denotes; reading a text must succeed and give *)
(* exactly the program it denotes.  A program is a record of its sections  *)
(* (modes, types, entities with initialisers, graphs, ...), each a         *)
(* sequence of items numbered in the order in which they are met from the  *)
(* roots: two isomorphic programs have equal sections.                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)   \* histories: [ev |-> << [op, file, rc, img] ... >>]
VARIABLES g, i, text
vars == <<g, i, text>>

Ev == Recs[g].ev[i]
Sections == {"name", "modes", "asms", "segs", "types", "ents", "graphs"}

Different(a, b) == {s \in Sections : a[s] # b[s]}
(* where two sections part *)
Place(x, y) == LET n == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
                   D == {k \in 1..n : x[k] # y[k]}
               IN  IF D = {} THEN [at |-> n + 1, is |-> "missing or additional", should |-> ""]
                   ELSE LET k == CHOOSE k \in D : \A l \in D : k <= l
                        IN  [at |-> k, is |-> y[k], should |-> x[k]]

Report(what, d) == PrintT("@" \o ToJson([g |-> g, i |-> i, what |-> what, d |-> d]))

Init == /\ g \in DOMAIN Recs
        /\ i = 1
        /\ text = <<>>
Write == /\ i <= Len(Recs[g].ev)
         /\ Ev.op = "write"
         /\ text' = [f \in DOMAIN text \cup {Ev.file} |-> IF f = Ev.file THEN Ev.img ELSE text[f]]
         /\ i' = i + 1
         /\ UNCHANGED g
Read == /\ i <= Len(Recs[g].ev)
        /\ Ev.op = "read"
        /\ Ev.file \in DOMAIN text
        /\ IF Ev.rc # 0
           THEN Report("the text cannot be read", [section |-> "", at |-> 0, is |-> "", should |-> ""])
           ELSE \A s \in Different(text[Ev.file], Ev.img) :
                   Report("the program read is another one", Place(text[Ev.file][s], Ev.img[s]) @@ [section |-> s])
        /\ i' = i + 1
        /\ UNCHANGED <<g, text>>
Next == Write \/ Read
=============================================================================
