------------------------------- MODULE Types -------------------------------
(* Class hierarchies and the layout of compound types.                      *)
(*                                                                          *)
(* State: the declared relations (direct subclasses and super-classes as    *)
(* sequences, overwritten members) and the closure that was computed last.  *)
(* After every operation all queries are answered; each answer must be what *)
(* the declared relations imply, the closure queries what they implied when *)
(* the closure was computed.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Recs == ndJsonDeserialize(IOEnv.HIST)
VARIABLES h, i, cls, own, sub, sup, ovs, ovb, clo, fresh
vars == <<h, i, cls, own, sub, sup, ovs, ovb, clo, fresh>>

K == 12
Ids == 1..K
IdSeq == [a \in Ids |-> a]
(* relations as successor functions; Clo by Warshall's algorithm *)
Rel(f) == [a \in Ids |-> {f[a][k] : k \in DOMAIN f[a]}]
Clo(R) == FoldLeft(LAMBDA T, k : [a \in Ids |-> IF k \in T[a] THEN T[a] \cup T[k] ELSE T[a]], R, IdSeq)
NoRel == [a \in Ids |-> {}]
Size(R) == FoldLeft(LAMBDA n, a : n + Cardinality(R[a]), 0, IdSeq)
None == [st |-> 0, ts |-> NoRel, tp |-> NoRel, tb |-> NoRel, to |-> NoRel]

Flat(f) == FoldLeft(LAMBDA acc, a : acc \o [k \in DOMAIN f[a] |-> <<a, f[a][k]>>], <<>>, [a \in Ids |-> a])
(* the pairs s are exactly the relation R, each pair once *)
Exactly(s, R) == /\ Len(s) = Size(R) /\ \A k \in DOMAIN s : s[k][1] \in Ids /\ s[k][2] \in R[s[k][1]]
                 /\ Cardinality({<<s[k][1], s[k][2]>> : k \in DOMAIN s}) = Len(s)
SameSeq(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s : s[k][1] = t[k][1] /\ s[k][2] = t[k][2]

Rm(s, x) == LET P == {k \in DOMAIN s : s[k] = x}
            IN IF P = {} THEN s ELSE LET m == CHOOSE k \in P : \A l \in P : k <= l
                                     IN SubSeq(s, 1, m - 1) \o SubSeq(s, m + 1, Len(s))
Add(s, x) == IF \E k \in DOMAIN s : s[k] = x THEN s ELSE Append(s, x)

Ev == Recs[h].ev[i]
Ok(c, what) == IF c THEN TRUE ELSE PrintT("@" \o ToJson([h |-> h, i |-> i, what |-> what]))

(* what the answers r must be in the new state *)
Judge(r, c, o, sb, sp, os, ob, cl, fr) ==
  \E S \in {Clo(Rel(sb))} :               \* S[high]: all classes below
  \E OB \in {Clo(Rel(ob))} :
  \E IsSub \in {[x \in Ids |-> IF x \in c THEN {x} \cup {y \in c : x \in S[y]} ELSE {}]} :   \* IsSub[low]
  LET Resolves(e, d, x) ==              \* x is what member e means in an object of class d
         /\ x = e \/ x \in OB[e]
         /\ o[x] \in IsSub[d]
         /\ o[x] = d \/ \A k \in DOMAIN ob[x] : o[ob[x][k]] \notin IsSub[d]
      order(w) == {w[k] : k \in DOMAIN w} = c /\ Len(w) = Cardinality(c)
      pre(w) == order(w) /\ \A k, l \in DOMAIN w : (k < l => w[k] \notin S[w[l]])
  IN
     /\ Ok(SameSeq(r.sub, Flat(sb)), "direct subclasses")
     /\ Ok(SameSeq(r.sup, Flat(sp)), "direct super-classes")
     /\ Ok(SameSeq(r.ovs, Flat(os)), "overwritten members")
     /\ Ok(SameSeq(r.ovb, Flat(ob)), "overwriting members")
     /\ Ok(Exactly(r.is, IsSub), "is_SubClass_of")
     /\ Ok(Exactly(r.isov, OB), "is_overwritten_by")
     /\ Ok((\A k \in DOMAIN r.res : Resolves(r.res[k][1], r.res[k][2], r.res[k][3])), "resolve_ent_polymorphy")
     /\ Ok((r.st = (IF cl.st = 0 THEN 0 ELSE IF fr THEN 1 ELSE 2)), "state of the closure")
     /\ Ok(cl.st = 0 \/ Exactly(r.ts, cl.ts), "transitive subclasses")
     /\ Ok(cl.st = 0 \/ Exactly(r.its, cl.ts), "is_class_trans_subtype")
     /\ Ok(cl.st = 0 \/ Exactly(r.tp, cl.tp), "transitive super-classes")
     /\ Ok(cl.st = 0 \/ Exactly(r.tb, cl.tb), "transitively overwriting members")
     /\ Ok(cl.st = 0 \/ Exactly(r.to, cl.to), "transitively overwritten members")
     /\ Ok(pre(r.walk), "classes are not walked once, super-classes first")
     /\ Ok(order(r.post), "classes are not left once")

----------------------------------------------------------------------------
(* layout: the recorded tree of types t must be what the definition gives   *)
Up(x, a) == IF a = 0 THEN x ELSE ((x + a - 1) \div a) * a
Max2(a, b) == IF a > b THEN a ELSE b
Pow2(x) == CHOOSE p \in {1, 2, 4, 8, 16, 32} : p >= x /\ (p = 1 \/ p \div 2 < x)
Place(t) ==            \* <<offsets, end, alignment>>
  FoldLeft(LAMBDA a, k :
     LET m == t.e[k] IN
     IF m.k = "m" THEN <<Append(a[1], 0), a[2], a[3]>>
     ELSE IF t.k = "u" THEN <<Append(a[1], 0), Max2(a[2], m.size), Max2(a[3], m.align)>>
     ELSE <<Append(a[1], Up(a[2], m.align)), Up(a[2], m.align) + m.size, Max2(a[3], m.align)>>,
     <<<<>>, 0, 1>>, [k \in 1..Len(t.e) |-> k])
RECURSIVE Right(_, _)
Right(t, ptr) ==
  /\ \A k \in DOMAIN t.e : Right(t.e[k], ptr)
  /\ CASE t.k = "p" -> t.size = (t.bits + 7) \div 8
       [] t.k = "P" -> t.size = ptr /\ t.align = ptr
       [] t.k = "m" -> TRUE
       [] t.k = "a" -> t.align = t.e[1].align /\ (t.n = 0 \/ t.size = t.n * t.e[1].size)
       [] OTHER -> \E p \in {Place(t)} :
                   /\ t.off = p[1] /\ t.align = p[3] /\ t.size = Up(p[2], p[3]) /\ t.fix = 1
                   \* and what that is for: inside, aligned, and (except in unions) apart
                   /\ \A k \in DOMAIN t.e : t.e[k].k = "m" \/
                        /\ t.off[k] >= 0 /\ t.off[k] + t.e[k].size <= t.size
                        /\ (t.e[k].align > 0 => t.off[k] % t.e[k].align = 0)
                        /\ \A l \in DOMAIN t.e : (t.k = "u" \/ l <= k \/ t.e[l].k = "m") \/ t.off[k] + t.e[k].size <= t.off[l]

----------------------------------------------------------------------------
Init == /\ h \in DOMAIN Recs /\ i = 1 /\ cls = {}
        /\ own = [a \in Ids |-> 0]
        /\ sub = [a \in Ids |-> <<>>] /\ sup = [a \in Ids |-> <<>>]
        /\ ovs = [a \in Ids |-> <<>>] /\ ovb = [a \in Ids |-> <<>>]
        /\ clo = None /\ fresh = FALSE

Changed(o) == o \in {"sub", "sup", "rm", "ov", "rmov"}
Step ==
  /\ i <= Len(Recs[h].ev)
  /\ \E e \in {Ev} :
     IF e.o = "lay"
     THEN /\ Ok(Right(e.r, e.a), "layout")
          /\ UNCHANGED <<cls, own, sub, sup, ovs, ovb, clo, fresh>>
     ELSE
     /\ cls' = IF e.o = "cls" THEN cls \cup {e.a} ELSE IF e.o = "free" THEN cls \ {e.a} ELSE cls
     /\ own' = IF e.o = "ent" THEN [own EXCEPT ![e.a] = e.b] ELSE own
     /\ sub' = CASE e.o = "sub" -> [sub EXCEPT ![e.a] = Append(@, e.b)]
                 [] e.o = "sup" -> [sub EXCEPT ![e.a] = Add(@, e.b)]
                 [] e.o = "rm" -> [sub EXCEPT ![e.a] = Rm(@, e.b)]
                 [] OTHER -> sub
     /\ sup' = CASE e.o = "sub" -> [sup EXCEPT ![e.b] = Add(@, e.a)]
                 [] e.o = "sup" -> [sup EXCEPT ![e.b] = Append(@, e.a)]
                 [] e.o = "rm" -> [sup EXCEPT ![e.b] = Rm(@, e.a)]
                 [] OTHER -> sup
     /\ ovs' = CASE e.o = "ov" -> [ovs EXCEPT ![e.a] = Append(@, e.b)]
                 [] e.o = "rmov" -> [ovs EXCEPT ![e.a] = Rm(@, e.b)]
                 [] OTHER -> ovs
     /\ ovb' = CASE e.o = "ov" -> [ovb EXCEPT ![e.b] = Append(@, e.a)]
                 [] e.o = "rmov" -> [ovb EXCEPT ![e.b] = Rm(@, e.a)]
                 [] OTHER -> ovb
     /\ clo' = CASE e.o = "comp" -> [st |-> 1, ts |-> Clo(Rel(sub)), tp |-> Clo(Rel(sup)), tb |-> Clo(Rel(ovb)), to |-> Clo(Rel(ovs))]
                 [] e.o = "drop" -> None
                 [] OTHER -> clo
     /\ fresh' = IF e.o = "comp" THEN TRUE ELSE IF Changed(e.o) \/ e.o \in {"inval", "drop"} THEN FALSE ELSE fresh
     /\ Judge(e.r, cls', own', sub', sup', ovs', ovb', clo', fresh')
  /\ i' = i + 1
  /\ UNCHANGED h
Next == Step
=============================================================================
