-------------------------------- MODULE Keccak --------------------------------
(***************************************************************************)
(* Keccak-f[1600] as FIPS 202, section 3, defines it.  A lane of 64 bits   *)
(* is a sequence of four 16-bit numbers, the lowest first; the state is    *)
(* the sequence of the 25 lanes A[x, y], A[x, y] at position x + 5y + 1.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC
LOCAL At(x, y) == ((x % 5) + 5 * (y % 5)) + 1
Zero == << 0, 0, 0, 0 >>
\* Bits at the positions of S (0..63).
RECURSIVE SumOf(_, _)
SumOf(S, j) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE
                                     IN (2 ^ (b - 16 * j)) + SumOf(S \ {b}, j)
LaneOf(S) == [ j \in 1..4 |-> SumOf({ b \in S : b \div 16 = j - 1 }, j - 1) ]
XorL(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4] >>
Xor5(a, b, c, d, e) == << (((a[1] ^^ b[1]) ^^ c[1]) ^^ d[1]) ^^ e[1], (((a[2] ^^ b[2]) ^^ c[2]) ^^ d[2]) ^^ e[2],
                          (((a[3] ^^ b[3]) ^^ c[3]) ^^ d[3]) ^^ e[3], (((a[4] ^^ b[4]) ^^ c[4]) ^^ d[4]) ^^ e[4] >>
\* Rotation towards higher positions.
Rot(a, r) ==
  LET q == r \div 16
      s == r % 16
      W(j) == a[((j - q) % 4) + 1]         \* the part that whole words bring to part j (from 0)
  IN IF s = 0 THEN << W(0), W(1), W(2), W(3) >>
     ELSE << ((W(0) % (2^(16-s))) * (2^s)) + (W(3) \div (2^(16-s))), ((W(1) % (2^(16-s))) * (2^s)) + (W(0) \div (2^(16-s))),
             ((W(2) % (2^(16-s))) * (2^s)) + (W(1) \div (2^(16-s))), ((W(3) % (2^(16-s))) * (2^s)) + (W(2) \div (2^(16-s))) >>
(* 3.2.1 *)
Theta(A) ==
  LET C == TLCEval([ x \in 1..5 |-> Xor5(A[At(x-1,0)], A[At(x-1,1)], A[At(x-1,2)], A[At(x-1,3)], A[At(x-1,4)]) ])
      D == TLCEval([ x \in 1..5 |-> XorL(C[((x + 3) % 5) + 1], Rot(C[(x % 5) + 1], 1)) ])
  IN TLCEval([ i \in 1..25 |-> XorL(A[i], D[((i - 1) % 5) + 1]) ])
(* 3.2.2: the walk (1,0), (y, 2x+3y), ... *)
RECURSIVE Walk(_, _, _)
Walk(t, x, y) == IF t = 24 THEN << >> ELSE << << At(x, y), (((t + 1) * (t + 2)) \div 2) % 64 >> >> \o Walk(t + 1, y, (2 * x + 3 * y) % 5)
Steps == Walk(0, 1, 0)
Offsets == [ i \in 1..25 |-> IF i = 1 THEN 0 ELSE LET t == CHOOSE t \in 1..24 : Steps[t][1] = i IN Steps[t][2] ]
(* 3.2.3 after 3.2.2: B[x, y] = rho(A)[x + 3y, x] *)
Source == [ i \in 1..25 |-> LET x == (i - 1) % 5
                                y == (i - 1) \div 5
                            IN At(x + 3 * y, x) ]
RhoPi(A) == TLCEval([ i \in 1..25 |-> Rot(A[Source[i]], Offsets[Source[i]]) ])
(* 3.2.4 *)
Chi1(a, b, c) == << a[1] ^^ ((65535 - b[1]) & c[1]), a[2] ^^ ((65535 - b[2]) & c[2]),
                    a[3] ^^ ((65535 - b[3]) & c[3]), a[4] ^^ ((65535 - b[4]) & c[4]) >>
Chi(A) == TLCEval([ i \in 1..25 |-> LET x == (i - 1) % 5
                                           y == (i - 1) \div 5
                                       IN Chi1(A[i], A[At(x + 1, y)], A[At(x + 2, y)]) ])
(* 3.2.5: rc(t), the bit of the shift register x^8 + x^6 + x^5 + x^4 + 1;  *)
(* the round constant has rc(j + 7 ir) at position 2^j - 1.                *)
RECURSIVE Register(_, _)
Register(R, t) ==
  IF t = 0 THEN R
  ELSE LET o == R[8]
           n == << o, R[1], R[2], R[3], (R[4] + o) % 2, (R[5] + o) % 2, (R[6] + o) % 2, R[7] >>
       IN Register(n, t - 1)
RcBit(t) == Register(<< 1, 0, 0, 0, 0, 0, 0, 0 >>, t % 255)[1]
RC == [ i \in 1..24 |-> LaneOf({ (2 ^ j) - 1 : j \in { j \in 0..6 : RcBit(j + 7 * (i - 1)) = 1 } }) ]
Round(A, i) == LET B == Chi(RhoPi(Theta(A))) IN [ B EXCEPT ![1] = XorL(B[1], RC[i]) ]
RECURSIVE Rounds(_, _)
Rounds(A, i) == IF i > 24 THEN A ELSE Rounds(Round(A, i), i + 1)
F(A) == Rounds(A, 1)
Start == [ i \in 1..25 |-> Zero ]
(* Bytes: byte b of the state is byte b % 8 of lane b \div 8. *)
LaneBytes(l) == << l[1] % 256, l[1] \div 256, l[2] % 256, l[2] \div 256, l[3] % 256, l[3] \div 256, l[4] % 256, l[4] \div 256 >>
ByteOf(A, b) == LaneBytes(A[(b \div 8) + 1])[(b % 8) + 1]
\* blk: r bytes (a multiple of 8), as a function of 1..r
AddBlock(A, blk, r) ==
  [ i \in 1..25 |-> IF 8 * i > r THEN A[i]
                    ELSE LET o == 8 * (i - 1)
                         IN XorL(A[i], << blk[o+1] + 256 * blk[o+2], blk[o+3] + 256 * blk[o+4],
                                         blk[o+5] + 256 * blk[o+6], blk[o+7] + 256 * blk[o+8] >>) ]
OutBlock(A, n) == [ j \in 1..n |-> ByteOf(A, j - 1) ]
================================================================================
