-------------------------------- MODULE Places --------------------------------
(***************************************************************************)
(* Where in a key hashes are computed, and under which address.            *)
(*                                                                         *)
(* A key of d layers of trees of height th has as places                   *)
(*   S  the start (secret) of each chain of each one-time key,             *)
(*   F  each step of each chain,                                           *)
(*   L  each node of the L-tree that compresses a one-time public key,     *)
(*   T  each inner node of each tree.                                      *)
(* Tree numbers are given as digits (in addresses they take two words).    *)
(*                                                                         *)
(* The machine: a key is generated, signs and verifies, each of which uses *)
(* some places; using a place puts what is hashed there (a free term: the  *)
(* place itself says it) under the place's address.  `Mode' breaks the     *)
(* addresses in several ways (negative controls).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS D, TH, LEN, WW, Base, Digits, Mode

P0 == [d |-> D, th |-> TH, len |-> LEN, w |-> WW]

TreeBits(p, l) == p.th * (p.d - 1 - l)
\* Digits, most significant first, of a tree number that exists on layer l.
TreeFits(p, l, t, base, bitsPerDigit) ==
  \A j \in 1..Len(t) :
     LET low == bitsPerDigit * (Len(t) - j)          \* bits below this digit
         room == TreeBits(p, l) - low
     IN t[j] \in 0..((IF room <= 0 THEN 1 ELSE IF room >= bitsPerDigit THEN base ELSE 2^room) - 1)

\* Nodes on level h of an L-tree over len nodes that have two children.
RECURSIVE LWidth(_, _)
LWidth(len, h) == IF h = 0 THEN len ELSE (LWidth(len, h - 1) + 1) \div 2
LPairs(len, h) == LWidth(len, h) \div 2

OtsOk(p, leaf, c, s) == leaf \in 0..(2^p.th - 1) /\ c \in 0..(p.len - 1) /\ s \in 0..(p.w - 2)
LtreeOk(p, leaf, h, i) == /\ leaf \in 0..(2^p.th - 1) /\ h \in 0..15
                          /\ i \in 0..(LPairs(p.len, h) - 1)
TreeOk(p, z, h, i) == z = 0 /\ h \in 0..(p.th - 1) /\ i \in 0..(2^(p.th - 1 - h) - 1)

\* Domain (0: F, 1: H, 4: secrets), address type and the last three words.
LegalTail(p, dom, type, w4, w5, w6) ==
  CASE dom = 0 /\ type = 0 -> OtsOk(p, w4, w5, w6)
    [] dom = 4 /\ type = 0 -> OtsOk(p, w4, w5, 0) /\ w6 = 0
    [] dom = 1 /\ type = 1 -> LtreeOk(p, w4, w5, w6)
    [] dom = 1 /\ type = 2 -> TreeOk(p, w4, w5, w6)
    [] OTHER -> FALSE

----------------------------------------------------------------------------
Trees(l) == 0..(2^TreeBits(P0, l) - 1)
Leaves == 0..(2^TH - 1)
Idx == 0..(2^(D * TH) - 1)
DigitsOf(t) == [j \in 1..Digits |-> (t \div Base^(Digits - j)) % Base]

SPlaces(l, t, lf) == { [k |-> "S", l |-> l, t |-> t, lf |-> lf, a |-> c, b |-> 0] : c \in 0..(LEN-1) }
FPlaces(l, t, lf) == { [k |-> "F", l |-> l, t |-> t, lf |-> lf, a |-> c, b |-> s] : c \in 0..(LEN-1), s \in 0..(WW-2) }
LPlaces(l, t, lf) == { [k |-> "L", l |-> l, t |-> t, lf |-> lf, a |-> x[1], b |-> x[2]] :
                         x \in { y \in (0..3) \X (0..LEN) : y[2] < LPairs(LEN, y[1]) } }
TPlaces(l, t) == { [k |-> "T", l |-> l, t |-> t, lf |-> 0, a |-> x[1], b |-> x[2]] :
                     x \in { y \in (0..(TH-1)) \X (0..(2^TH)) : y[2] < 2^(TH - 1 - y[1]) } }
LeafPlaces(l, t, lf) == SPlaces(l, t, lf) \cup FPlaces(l, t, lf) \cup LPlaces(l, t, lf)
Whole(l, t) == TPlaces(l, t) \cup UNION { LeafPlaces(l, t, lf) : lf \in Leaves }

Type(k) == CASE k \in {"S", "F"} -> 0 [] k = "L" -> 1 [] k = "T" -> 2
\* Where a hash is computed: its domain and address.
Address(x) ==
  LET t == DigitsOf(x.t)
  IN << IF x.k = "S" THEN 4 ELSE IF x.k = "F" THEN 0 ELSE 1,
        IF Mode = "no layer" THEN 0 ELSE x.l,
        IF Mode = "tree cut" THEN << t[Digits] >> ELSE t,
        IF Mode = "no type" THEN 0 ELSE Type(x.k),
        IF Mode = "no leaf" THEN 0 ELSE x.lf,
        IF Mode = "chain in part" THEN x.a % (LEN - 1) ELSE x.a,
        x.b >>

VARIABLES used, signed
vars == <<used, signed>>
Use(ps) == used' = used \cup { [at |-> Address(x), what |-> x] : x \in ps }

LeafAt(i, l) == (i \div 2^(TH * l)) % 2^TH
TreeAt(i, l) == i \div 2^(TH * (l + 1))
OnPath(i) == UNION { Whole(l, TreeAt(i, l)) : l \in 0..(D-1) }

Init == used = {} /\ signed = {}
Generate == Use(Whole(D - 1, 0)) /\ UNCHANGED signed
Sign(i) == i \notin signed /\ signed' = signed \cup {i} /\ Use(OnPath(i))
\* Verifying follows one leaf per layer; nothing that signing has not used.
Verify(i) == /\ i \in signed /\ UNCHANGED signed
             /\ Use(UNION { FPlaces(l, TreeAt(i, l), LeafAt(i, l)) \cup LPlaces(l, TreeAt(i, l), LeafAt(i, l)) : l \in 0..(D-1) })
Next == Generate \/ \E i \in Idx : Sign(i) \/ Verify(i)
Spec == Init /\ [][Next]_vars

\* Each address is used for one thing.
OnePlace == \A u, v \in used : u.at = v.at => u.what = v.what
\* (the same, for all places at once)
AllPlaces == UNION { Whole(l, t) : <<l, t>> \in { y \in (0..(D-1)) \X Idx : y[2] \in Trees(y[1]) } }
Injective == Cardinality({ Address(x) : x \in AllPlaces }) = Cardinality(AllPlaces)
\* Every address in use is one that the key has.
Legal == \A u \in used :
  LET x == u.what
  IN /\ TreeFits(P0, x.l, DigitsOf(x.t), Base, 1)
     /\ LegalTail(P0, Address(x)[1], Type(x.k), x.lf, x.a, x.b)
\* In the end every one-time key has been used.
Count(p) == LET S[l \in 0..p.d] == IF l = p.d THEN 0 ELSE 2^(p.th * (p.d - l)) + S[l + 1] IN S[0]
Complete == signed = Idx =>
  Cardinality({ <<u.what.l, u.what.t, u.what.lf>> : u \in { v \in used : v.what.k = "S" } }) = Count(P0)
=============================================================================
