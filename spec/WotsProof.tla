------------------------------- MODULE WotsProof -------------------------------
(***************************************************************************)
(* Why a WOTS+ signature covers one digest only (C08), for every length,   *)
(* every w and every digest: if the chain positions of a second digest are *)
(* nowhere before those of a first one, the checksum chains included, the  *)
(* digests are equal.  (Wots and WotsReal have TLC show it within bounds.) *)
(*                                                                         *)
(* Message digits are a, b in 0..W-1; the checksum is the sum of W-1-a[i]; *)
(* it is written to base W, most significant digit first, in c and d.      *)
(* Sums and values are given as the functions of their partial results.    *)
(***************************************************************************)
EXTENDS Integers, NaturalsInduction, TLAPS
CONSTANTS W, L1, L2
ASSUME Sizes == W \in Nat /\ W > 1 /\ L1 \in Nat /\ L2 \in Nat

\* S[n]: sum of W-1-x[i] for i up to n
IsSum(x, S) == /\ S \in [0..L1 -> Int] /\ S[0] = 0
               /\ \A n \in 0..(L1 - 1) : S[n + 1] = S[n] + (W - 1 - x[n + 1])
\* V[n]: value of the first n digits of x
IsVal(x, V) == /\ V \in [0..L2 -> Int] /\ V[0] = 0
               /\ \A n \in 0..(L2 - 1) : V[n + 1] = V[n] * W + x[n + 1]
Digits(x, n) == x \in [1..n -> 0..(W - 1)]

LEMMA Product == \A x, y \in Int : x <= y => x * W <= y * W
  BY Sizes, Z3

\* Further positions mean a smaller sum; and an equal one only if they are the same.
LEMMA Sums ==
  ASSUME NEW a, NEW b, NEW SA, NEW SB, Digits(a, L1), Digits(b, L1), IsSum(a, SA), IsSum(b, SB),
         \A i \in 1..L1 : a[i] <= b[i]
  PROVE \A n \in Nat : n <= L1 => /\ SB[n] <= SA[n]
                                  /\ SB[n] = SA[n] => \A i \in 1..n : a[i] = b[i]
<1> DEFINE P(n) == n <= L1 => /\ SB[n] <= SA[n]
                              /\ SB[n] = SA[n] => \A i \in 1..n : a[i] = b[i]
<1>1. P(0)
  BY Sizes DEF IsSum
<1>2. ASSUME NEW n \in Nat, P(n) PROVE P(n + 1)
  <2> SUFFICES ASSUME n + 1 <= L1 PROVE /\ SB[n + 1] <= SA[n + 1]
                                        /\ SB[n + 1] = SA[n + 1] => \A i \in 1..(n + 1) : a[i] = b[i]
    OBVIOUS
  <2>1. n \in 0..(L1 - 1) /\ n \in 0..L1 /\ n + 1 \in 1..L1 /\ n <= L1
    BY Sizes
  <2>2. SA[n + 1] = SA[n] + (W - 1 - a[n + 1]) /\ SB[n + 1] = SB[n] + (W - 1 - b[n + 1])
    BY <2>1 DEF IsSum
  <2>3. a[n + 1] \in Int /\ b[n + 1] \in Int /\ SA[n] \in Int /\ SB[n] \in Int /\ a[n + 1] <= b[n + 1]
    BY <2>1, Sizes DEF IsSum, Digits
  <2>4. SB[n] <= SA[n]
    BY <1>2, <2>1
  <2>5. SB[n + 1] <= SA[n + 1]
    BY <2>2, <2>3, <2>4, Sizes
  <2>6. ASSUME SB[n + 1] = SA[n + 1], NEW i \in 1..(n + 1) PROVE a[i] = b[i]
    <3>1. SB[n] = SA[n] /\ a[n + 1] = b[n + 1]
      BY <2>2, <2>3, <2>4, <2>6, Sizes
    <3>2. CASE i = n + 1
      BY <3>1, <3>2
    <3>3. CASE i \in 1..n
      BY <3>1, <3>3, <1>2, <2>1
    <3> QED
      BY <3>2, <3>3
  <2> QED
    BY <2>5, <2>6
<1>3. \A n \in Nat : P(n)
  BY <1>1, <1>2, NatInduction, Isa
<1> QED
  BY <1>3

\* Digits that are nowhere smaller make a value that is not smaller.
LEMMA Vals ==
  ASSUME NEW c, NEW d, NEW VC, NEW VD, Digits(c, L2), Digits(d, L2), IsVal(c, VC), IsVal(d, VD),
         \A i \in 1..L2 : c[i] <= d[i]
  PROVE \A n \in Nat : n <= L2 => VC[n] <= VD[n]
<1> DEFINE P(n) == n <= L2 => VC[n] <= VD[n]
<1>1. P(0)
  BY Sizes DEF IsVal
<1>2. ASSUME NEW n \in Nat, P(n) PROVE P(n + 1)
  <2> SUFFICES ASSUME n + 1 <= L2 PROVE VC[n + 1] <= VD[n + 1]
    OBVIOUS
  <2>1. n \in 0..(L2 - 1) /\ n \in 0..L2 /\ n + 1 \in 1..L2 /\ n <= L2
    BY Sizes
  <2>2. VC[n + 1] = VC[n] * W + c[n + 1] /\ VD[n + 1] = VD[n] * W + d[n + 1]
    BY <2>1 DEF IsVal
  <2>3. c[n + 1] \in Int /\ d[n + 1] \in Int /\ VC[n] \in Int /\ VD[n] \in Int /\ c[n + 1] <= d[n + 1]
    BY <2>1, Sizes DEF IsVal, Digits
  <2>4. VC[n] * W <= VD[n] * W
    BY <1>2, <2>1, <2>3, Product
  <2>5. VC[n] * W \in Int /\ VD[n] * W \in Int
    BY <2>3, Sizes
  <2> QED
    BY <2>2, <2>3, <2>4, <2>5
<1>3. \A n \in Nat : P(n)
  BY <1>1, <1>2, NatInduction, Isa
<1> QED
  BY <1>3

THEOREM OneDigest ==
  ASSUME NEW a, NEW b, NEW c, NEW d, NEW SA, NEW SB, NEW VC, NEW VD,
         Digits(a, L1), Digits(b, L1), Digits(c, L2), Digits(d, L2),
         IsSum(a, SA), IsSum(b, SB), IsVal(c, VC), IsVal(d, VD),
         VC[L2] = SA[L1], VD[L2] = SB[L1],            \* the checksums are written out in full
         \A i \in 1..L1 : a[i] <= b[i],               \* no chain goes back
         \A i \in 1..L2 : c[i] <= d[i]
  PROVE a = b
<1>1. SB[L1] <= SA[L1] /\ (SB[L1] = SA[L1] => \A i \in 1..L1 : a[i] = b[i])
  BY Sums, Sizes
<1>2. SA[L1] <= SB[L1]
  BY Vals, Sizes
<1>3. SA[L1] \in Int /\ SB[L1] \in Int
  BY Sizes DEF IsSum
<1>4. \A i \in 1..L1 : a[i] = b[i]
  BY <1>1, <1>2, <1>3
<1> QED
  BY <1>4 DEF Digits
================================================================================
