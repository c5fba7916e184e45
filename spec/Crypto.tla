------------------------------- MODULE Crypto -------------------------------
(***************************************************************************)
(* What the specification takes as given: the primitive hash functions.    *)
(* Byte strings are tuples of 0..255.  CoreHash and HexBytes are evaluated *)
(* by /verif/java/CryptoOverrides.java (JDK SHA-2; Keccak from FIPS 202).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

\* First `outlen' bytes of hash `alg' of `data'.
CoreHash(alg, data, outlen) == CHOOSE x \in Seq(0..255) : Len(x) = outlen

\* The byte string written in hexadecimal.
HexBytes(s) == CHOOSE x \in Seq(0..255) : TRUE

XorBytes(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]

(***************************************************************************)
(* Integers that may need 64 bits are little-endian bit sequences (bit 1   *)
(* is the least significant one): TLC's integers have 32 bits.             *)
(***************************************************************************)
ByteBits(b) == [i \in 1..8 |-> (b \div 2^(i-1)) % 2]

\* Big-endian byte string -> bits.
BitsOf(bytes) ==
  [i \in 1..(8 * Len(bytes)) |->
     ((bytes[Len(bytes) - ((i-1) \div 8)]) \div 2^((i-1) % 8)) % 2]

BitAt(bits, i) == IF i <= Len(bits) THEN bits[i] ELSE 0

\* Bits -> big-endian byte string of length n (truncating or zero-extending).
BytesOf(bits, n) ==
  [j \in 1..n |->
     LET lo == 8 * (n - j)
     IN  BitAt(bits, lo+1) + 2*BitAt(bits, lo+2) + 4*BitAt(bits, lo+3) + 8*BitAt(bits, lo+4)
         + 16*BitAt(bits, lo+5) + 32*BitAt(bits, lo+6) + 64*BitAt(bits, lo+7) + 128*BitAt(bits, lo+8)]

ShiftRight(bits, k) == IF k >= Len(bits) THEN <<>> ELSE SubSeq(bits, k+1, Len(bits))

\* The value of the first k bits (k <= 30).
RECURSIVE LowVal(_, _)
LowVal(bits, k) == IF k = 0 THEN 0 ELSE LowVal(bits, k-1) + BitAt(bits, k) * 2^(k-1)

RECURSIVE IntBits(_)
IntBits(i) == IF i = 0 THEN <<>> ELSE <<i % 2>> \o IntBits(i \div 2)

\* toByte(i, n) of RFC 8391 for a small non-negative i
ToByte(i, n) == BytesOf(IntBits(i), n)
=============================================================================
