------------------------------- MODULE Names -------------------------------
(* Names of a program: the identifier table, the entities of a program,    *)
(* the member lists of its types and the lookup of globals by linker name. *)
(* A recorded history of the real code is accepted iff it is a behaviour   *)
(* of this machine.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Hists == ndJsonDeserialize(IOEnv.HIST)
Range(q) == {q[i] : i \in DOMAIN q}

(***************************** identifiers ********************************)
\* strings are sequences of byte values; the table maps strings to objects
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Dec(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
IsNumber(q) == q # <<>> /\ \A i \in DOMAIN q : q[i] \in 48..57
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* the text an operation must produce; unique names are judged separately
Text(e) ==
  CASE e.o = "str" -> e.a
    [] e.o = "chars" -> SubSeq(e.a, e.x + 1, e.y)
    [] e.o = "fs" -> e.a
    [] e.o = "fss" -> e.a \o <<46>> \o e.b
    [] e.o = "fsd" -> e.a \o <<95>> \o Dec(e.x) \o <<37>>
    [] e.o = "fu" -> <<76>> \o e.a          \* digits given by the generator (32 bit unsigned)
    [] e.o = "fc" -> <<e.x>> \o e.a

\* state: [tab |-> string -> object, uni |-> set of unique names handed out]
IdInit == [tab |-> << >>, uni |-> {}]
IdSucc(st, e) ==
  LET no == e.r[1]
      txt == Tail(e.r)
      ok == /\ IF e.o = "uniq"
               THEN /\ Len(txt) > Len(e.a) + 1
                    /\ SubSeq(txt, 1, Len(e.a) + 1) = e.a \o <<46>>
                    /\ IsNumber(SubSeq(txt, Len(e.a) + 2, Len(txt)))
                    /\ txt \notin st.uni
               ELSE txt = Text(e)
            /\ IF txt \in DOMAIN st.tab THEN st.tab[txt] = no
               ELSE no \notin Range(st.tab)
  IN IF ok THEN {[tab |-> Put(st.tab, txt, no), uni |-> IF e.o = "uniq" THEN st.uni \cup {txt} ELSE st.uni]} ELSE {}

\* many names at once: same string iff same object
ManyOk(h) ==
  LET pairs == {<<h.ev[i].r[1], Tail(h.ev[i].r)>> : i \in DOMAIN h.ev}
  IN /\ \A i \in DOMAIN h.ev : Tail(h.ev[i].r) = Text(h.ev[i])
     /\ Cardinality({p[1] : p \in pairs}) = Cardinality(pairs)
     /\ Cardinality({p[2] : p \in pairs}) = Cardinality(pairs)

(******************************* entities *********************************)
\* types 0 global, 1 thread local, 2 constructors (anonymous), 3.. compounds
Segments == {0, 1}
AllSegments == 0..2
Types == 0..5
External == 0..2
Private == 4
HiddenUser == 16    \* linkage bit
NoCodegen == 32

\* state: [ent |-> entity -> record, mem |-> type -> sequence of entities]
EntInit == [ent |-> << >>, mem |-> [t \in Types |-> <<>>], live |-> [t \in Types |-> TRUE]]
Without(q, e) == SelectSeq(q, LAMBDA x : x # e)
InMap(r) == r.owner \in Segments /\ r.vis # Private
Owning(st, k) == {e \in DOMAIN st.ent : InMap(st.ent[e]) /\ st.ent[e].name = k}
\* contract: names of the entities in the map are distinct and present
Legal(st) == /\ \A e \in DOMAIN st.ent : InMap(st.ent[e]) => st.ent[e].name # 0
             /\ \A e, f \in DOMAIN st.ent : e # f /\ InMap(st.ent[e]) /\ InMap(st.ent[f]) => st.ent[e].name # st.ent[f].name
Add(st, e, rec) == [st EXCEPT !.ent = Put(st.ent, e, rec), !.mem[rec.owner] = Append(@, e)]
DropAll(st, D) == [st EXCEPT !.ent = [x \in DOMAIN st.ent \ D |-> st.ent[x]],
                             !.mem = [t \in Types |-> SelectSeq(st.mem[t], LAMBDA x : x \notin D)]]
Bit(n, b) == (n \div b) % 2 = 1
Visible(r) == r.vis \in External \/ Bit(r.lnk, HiddenUser)
RECURSIVE Kept(_, _)
Kept(st, S) == LET T == S \cup {st.ent[x].target : x \in {y \in S : st.ent[y].target # 0}} IN IF T = S THEN S ELSE Kept(st, T)
Garbage(st) ==
  LET roots == {x \in DOMAIN st.ent : st.ent[x].owner \in AllSegments /\ (Visible(st.ent[x]) \/ Bit(st.ent[x].lnk, NoCodegen))}
  IN {x \in DOMAIN st.ent : st.ent[x].owner \in AllSegments /\ x \notin Kept(st, roots)}

After(st, e) ==
  CASE e.o = "new" -> Add(st, e.a, [owner |-> IF e.d \div 2 = 2 THEN 0 ELSE e.b, name |-> IF e.d \div 2 \in {2, 3} THEN 0 ELSE e.c,
                                    vis |-> CASE e.d \div 2 = 0 -> 0 [] e.d \div 2 = 1 -> e.e [] OTHER -> Private,
                                    lnk |-> IF e.d \div 2 < 2 /\ e.d % 2 = 1 THEN 1 ELSE 0, target |-> 0])
    [] e.o = "alias" -> Add(st, e.a, [owner |-> e.b, name |-> e.c, vis |-> e.e, lnk |-> 0, target |-> e.d])
    [] e.o = "clone" -> Add(st, e.a, [st.ent[e.d] EXCEPT !.owner = e.b, !.name = e.c])
    [] e.o = "free" -> DropAll(st, {e.a})
    [] e.o = "move" -> LET o == st.ent[e.a].owner
                           s1 == [st EXCEPT !.mem[o] = Without(@, e.a)]
                       IN [s1 EXCEPT !.mem[e.b] = Append(@, e.a), !.ent[e.a].owner = e.b]
    [] e.o = "readd" -> [st EXCEPT !.mem[st.ent[e.a].owner] = Append(Without(@, e.a), e.a)]
    [] e.o = "ren" -> [st EXCEPT !.ent[e.a].name = e.b]
    [] e.o = "renid" -> st          \* the source name is not the linker name
    [] e.o = "vis" -> [st EXCEPT !.ent[e.a].vis = e.b]
    [] e.o = "link" -> [st EXCEPT !.ent[e.a].lnk = e.b]
    [] e.o = "freetype" -> [DropAll(st, Range(st.mem[e.a])) EXCEPT !.live[e.a] = FALSE]
    [] e.o = "newtype" -> [st EXCEPT !.live[e.a] = TRUE]
    [] e.o = "gc" -> DropAll(st, Garbage(st))

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
\* everything the interface shows of a state: lookups, member lists, linker names and owners
Observed(st, n) ==
  Flat([k \in 1..n |-> LET O == Owning(st, k) IN IF O = {} THEN <<0>> ELSE <<CHOOSE x \in O : TRUE>>])
  \o Flat([i \in 1..6 |-> IF ~st.live[i - 1] THEN <<-2>> ELSE <<Len(st.mem[i - 1])>> \o st.mem[i - 1]])
  \o Flat([i \in 1..63 |-> IF i \in DOMAIN st.ent THEN <<i, st.ent[i].name, st.ent[i].owner>> ELSE <<>>])
EntSucc(st, e) ==
  LET s2 == After(st, e)
  IN IF ~Legal(s2) THEN Assert(FALSE, <<"history outside the contract", e>>)
     ELSE IF e.r = Observed(s2, e.n) THEN {s2} ELSE {}

(****************************** the machine *******************************)
VARIABLES h, i, st, ok
vars == <<h, i, st, ok>>
InitOf(k) == IF k = "ent" THEN EntInit ELSE IdInit
Succ(k, s, e) == IF k = "ent" THEN EntSucc(s, e) ELSE IdSucc(s, e)
Init == \E x \in DOMAIN Hists :
          /\ h = x /\ i = 1
          /\ st = InitOf(Hists[x].k)
          /\ ok = (Hists[x].k = "many" => (ManyOk(Hists[x]) \/ (PrintT("@" \o ToJson([h |-> x, i |-> 1, st |-> "many"])) /\ FALSE)))
Next ==
  /\ ok /\ Hists[h].k # "many" /\ i <= Len(Hists[h].ev)
  /\ h' = h /\ i' = i + 1
  /\ \E S \in {Succ(Hists[h].k, st, Hists[h].ev[i])} :
       IF S = {} THEN /\ PrintT("@" \o ToJson([h |-> h, i |-> i, st |-> IF Hists[h].k = "ent" THEN ToString(Observed(After(st, Hists[h].ev[i]), Hists[h].ev[i].n)) ELSE ToString(st.uni)]))
                      /\ st' = st /\ ok' = FALSE
       ELSE st' \in S /\ ok' = ok
=============================================================================
