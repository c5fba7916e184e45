------------------------------ MODULE IndexField ------------------------------
(***************************************************************************)
(* The index of a key as it is stored and transmitted: a big-endian string *)
(* of NB digits of B bits (B = 8 in the implementation, smaller in model   *)
(* checking), for a key of total height H.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Digit(B) == 0..(2^B - 1)
Fields(B, NB) == [1..NB -> Digit(B)]

\* idx + 1, wrapping around like the field does
RECURSIVE IncAt(_, _, _)
IncAt(idx, B, j) ==
  IF j = 0 THEN idx
  ELSE IF idx[j] < 2^B - 1 THEN [idx EXCEPT ![j] = @ + 1]
  ELSE IncAt([idx EXCEPT ![j] = 0], B, j - 1)
Inc(idx, B) == IncAt(idx, B, Len(idx))

RECURSIVE LessAt(_, _, _)
LessAt(a, b, j) ==
  IF j > Len(a) THEN FALSE
  ELSE IF a[j] # b[j] THEN a[j] < b[j] ELSE LessAt(a, b, j + 1)
Less(a, b) == LessAt(a, b, 1)

\* 2^H - 1
LastIdx(H, B, NB) ==
  [j \in 1..NB |-> LET lo == B * (NB - j)
                   IN IF H >= lo + B THEN 2^B - 1 ELSE IF H <= lo THEN 0 ELSE 2^(H - lo) - 1]

\* Does every value of the field name a one-time key?
NoSpare(H, B, NB) == H = B * NB

\* May a signature still be made at this index?
Signable(idx, H, B) ==
  LET last == LastIdx(H, B, Len(idx))
  IN IF NoSpare(H, B, Len(idx)) THEN Less(idx, last) ELSE ~Less(last, idx)

\* The last index of which a signature is made.
FinalIdx(H, B, NB) ==
  LET last == LastIdx(H, B, NB)
  IN IF NoSpare(H, B, NB) THEN [last EXCEPT ![NB] = @ - 1] ELSE last

\* Is nothing left to sign after this one?
IsFinal(idx, H, B) == ~Signable(Inc(idx, B), H, B)

RECURSIVE ValAt(_, _, _)
ValAt(idx, B, j) == IF j = 0 THEN 0 ELSE ValAt(idx, B, j - 1) * 2^B + idx[j]
Val(idx, B) == ValAt(idx, B, Len(idx))
=============================================================================
