--------------------------------- MODULE Wots ---------------------------------
(***************************************************************************)
(* A one-time key that has signed one value, and an adversary who goes on  *)
(* along the chains it revealed.  Invariant: he never holds the chain      *)
(* positions of another value.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, L1, L2,
  Lose      \* number of low checksum digits that are lost (negative control; 0 in WOTS+)
VARIABLES v, at
vars == <<v, at>>

Values == [1..L1 -> 0..(W-1)]
RECURSIVE Sum(_, _)
Sum(f, i) == IF i = 0 THEN 0 ELSE (W - 1 - f[i]) + Sum(f, i - 1)
ChecksumDigit(c, i) == (c \div W^(L2 - i)) % W               \* most significant first
Dig(x) ==
  LET c == Sum(x, L1) * W^Lose
  IN [i \in 1..(L1 + L2) |-> IF i <= L1 THEN x[i] ELSE ChecksumDigit(c, i - L1)]

ASSUME Lose # 0 \/ L1 * (W - 1) < W^L2        \* the checksum fits

Init == v \in Values /\ at = Dig(v)
Advance == \E c \in 1..(L1 + L2) : at[c] < W - 1 /\ at' = [at EXCEPT ![c] = @ + 1] /\ UNCHANGED v
Next == Advance
Spec == Init /\ [][Next]_vars

NoSecondValue == \A x \in Values : x # v => Dig(x) # at
\* The same without the adversary: some position of the other value is strictly below.
NeverDominated == at = Dig(v) => \A x \in Values : x # v => \E c \in 1..(L1 + L2) : Dig(x)[c] < at[c]
=============================================================================
