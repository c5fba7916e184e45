------------------------------- MODULE WotsReal -------------------------------
(***************************************************************************)
(* The step from Wots to the real sizes.  Let x, y be different values     *)
(* with every message digit of y at or above x's.  Then y's checksum is    *)
(* smaller than x's; and as the checksum digits are the positional digits  *)
(* of the checksum (Positional, for every checksum there can be: a sum of  *)
(* the digits with positive weights gives it back), some checksum digit of *)
(* y is smaller than x's.  Also: the digits of a value give the value back *)
(* (Reversible), so different values differ in some message digit.         *)
(***************************************************************************)
EXTENDS XmssRfc
VARIABLES n, w, c
vars == <<n, w, c>>
P == Derive(TRUE, "SHA2", n, w, 4, 2)

Init == n \in {24, 32, 64} /\ w \in {4, 16, 256}
        /\ c \in { 256 * i : i \in 0..((P.len1 * (w - 1)) \div 256) }
Next == c < P.len1 * (w - 1) /\ c % 256 # 255 /\ c' = c + 1 /\ UNCHANGED <<n, w>>
Spec == Init /\ [][Next]_vars

\* The encoding of Digits, for a checksum c.
Enc ==
  LET bits == P.len2 * P.logw
      shift == (8 - (bits % 8)) % 8
  IN BaseW(P, ToByte(c * 2^shift, (bits + 7) \div 8), P.len2)
Positional ==
  /\ FoldLeft(LAMBDA acc, d : acc * w + d, 0, Enc) = c
  /\ \A i \in 1..P.len2 : Enc[i] \in 0..(w - 1)

\* Some value with checksum c: digits as low as needed from the left.
ValueDigits ==
  [i \in 1..P.len1 |-> LET left == c - (i - 1) * (w - 1)
                       IN IF left <= 0 THEN w - 1 ELSE IF left >= w - 1 THEN 0 ELSE w - 1 - left]
ValueBytes ==
  LET per == 8 \div P.logw
  IN [b \in 1..n |-> FoldLeft(LAMBDA acc, d : acc * w + d, 0, SubSeq(ValueDigits, (b-1)*per + 1, b*per))]
Reversible == Digits(P, ValueBytes) = ValueDigits \o Enc
=============================================================================
