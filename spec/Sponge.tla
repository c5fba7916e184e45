-------------------------------- MODULE Sponge --------------------------------
(***************************************************************************)
(* SHAKE as a machine: whole blocks of the input are absorbed one by one,  *)
(* the rest is absorbed with the padding, and the output is squeezed in    *)
(* blocks.  The permutation is left open: what goes into it and what is    *)
(* taken out of it are recorded, and have to be what FIPS 202 says.        *)
(*                                                                         *)
(* Mode "good", or a defect that has to be found:                          *)
(*   "lazy"    a block that fills the rate exactly waits for the padding   *)
(*   "apart"   the two ends of the padding always take a byte each         *)
(*   "whole"   output that fills its last block gets one more permutation  *)
(*   "stale"   the last block keeps what the block before it left          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS R,        \* bytes of a block
          MaxIn, MaxOut, Letters, Mode
(* ------------------------------ definition ----------------------------- *)
Suffix == 31        \* 1111 and the first bit of the padding
Last   == 128       \* the last bit of the padding
Zeros(n) == [ i \in 1..n |-> 0 ]
\* in || 1111 || pad10*1, in bytes
PadLen(r, n) == r - (n % r)
Padding(r, n) == LET k == PadLen(r, n)
                 IN IF k = 1 THEN << Suffix + Last >> ELSE << Suffix >> \o Zeros(k - 2) \o << Last >>
Padded(r, in) == in \o Padding(r, Len(in))
NBlocks(r, n) == (n \div r) + 1                    \* absorbed for an input of n bytes
NOut(r, n) == (n + r - 1) \div r                   \* squeezed for n bytes of output
Block(r, in, j) == LET P == Padded(r, in) IN SubSeq(P, r * (j - 1) + 1, r * j)
OutPart(r, n, j) == IF j * r <= n THEN r ELSE n - (j - 1) * r      \* bytes taken from block j
(* -------------------------------- machine ------------------------------ *)
VARIABLES in, outlen, off, phase, calls, out, rest
\* calls: what the permutation was given: <<"in", block>> or <<"none">>
\* out: <<number of permutations so far, bytes taken>>, in order
vars == <<in, outlen, off, phase, calls, out, rest>>
Inputs == UNION { [1..n -> Letters] : n \in 0..MaxIn }
Init == /\ in \in Inputs /\ outlen \in 0..MaxOut /\ off = 0 /\ phase = "absorb"
        /\ calls = << >> /\ out = << >> /\ rest = Zeros(R)
Left == Len(in) - off
Whole == IF Mode = "lazy" THEN Left > R ELSE Left >= R
Absorb == /\ phase = "absorb" /\ Whole
          /\ calls' = Append(calls, SubSeq(in, off + 1, off + R))
          /\ off' = off + R
          /\ rest' = SubSeq(in, off + 1, off + R)
          /\ UNCHANGED <<in, outlen, phase, out>>
LastBlock ==
  LET m == SubSeq(in, off + 1, Len(in))
      z == IF Mode = "stale" THEN rest ELSE Zeros(R)
      t == [ i \in 1..R |-> IF i <= Len(m) THEN m[i] ELSE z[i] ]
  IN IF Len(m) = R THEN t                              \* "lazy": there is no room left
     ELSE LET s == [ t EXCEPT ![Len(m) + 1] = Suffix ]
          IN IF Mode = "apart" /\ Len(m) + 1 = R THEN s
             ELSE [ s EXCEPT ![R] = IF @ >= 128 THEN @ ELSE @ + Last ]
Pad == /\ phase = "absorb" /\ ~Whole
       /\ calls' = Append(calls, LastBlock)
       /\ off' = Len(in) /\ phase' = "squeeze"
       /\ UNCHANGED <<in, outlen, out, rest>>
Taken == IF out = << >> THEN 0 ELSE R * (Len(out) - 1) + out[Len(out)][2]
More == IF Mode = "whole" THEN outlen >= R * Len(out) ELSE outlen > Taken
\* The permutation that follows the padded block serves the first block of output.
Squeeze == /\ phase = "squeeze" /\ More /\ Len(out) <= MaxOut
           /\ LET n == IF outlen - Taken >= R THEN R ELSE outlen - Taken
              IN out' = Append(out, << Len(out), n >>)
           /\ UNCHANGED <<in, outlen, off, phase, calls, rest>>
Done == /\ phase = "squeeze" /\ ~More /\ phase' = "done"
        /\ UNCHANGED <<in, outlen, off, calls, out, rest>>
Next == Absorb \/ Pad \/ Squeeze \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* ------------------------------ properties ----------------------------- *)
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Flat(Tail(s))
\* What was absorbed is the padded input, block by block.
Absorbed == phase \in {"squeeze", "done"} => /\ Flat(calls) = Padded(R, in)
                                             /\ Len(calls) = NBlocks(R, Len(in))
                                             /\ \A j \in 1..Len(calls) : calls[j] = Block(R, in, j)
\* All of the output, from as few blocks as it needs.
Output == phase = "done" => /\ Taken = outlen /\ Len(out) = NOut(R, outlen)
                            /\ \A j \in 1..Len(out) : out[j] = << j - 1, OutPart(R, outlen, j) >>
\* A longer output begins with the shorter one: block j does not depend on the length.
Prefix == \A j \in 1..Len(out) : j < Len(out) => out[j][2] = R
Ends == <>(phase = "done")
\* No two inputs are padded to the same blocks (a constant; looked at once).
Injective == (phase = "absorb" /\ in = << >> /\ outlen = 0) => Cardinality({ Padded(R, s) : s \in Inputs }) = Cardinality(Inputs)
================================================================================
