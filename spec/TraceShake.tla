------------------------------ MODULE TraceShake ------------------------------
(***************************************************************************)
(* Recorded calls of shake128 and shake256 against FIPS 202: Sponge around *)
(* Keccak-f[1600], one permutation per step.                               *)
(*   call [alg, in, out, outlen, mem]  one call; mem: nothing but the      *)
(*                                     output was written                  *)
(*   long [outs, mem]   inputs too long to be computed here: the outputs   *)
(*                      of different inputs differ                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Keys == ndJsonDeserialize(IOEnv.TRACES)
C == INSTANCE Crypto
K == INSTANCE Keccak
VARIABLES k, pos, lanes, done, got
\* lanes: state of the sponge; done: permutations of this call; got: bytes of output compared
vars == <<k, pos, lanes, done, got>>
Sp == INSTANCE Sponge WITH R <- 8, MaxIn <- 0, MaxOut <- 0, Letters <- {0}, Mode <- "good", in <- << >>, outlen <- 0,
                           off <- 0, phase <- "", calls <- << >>, out <- << >>, rest <- << >>
Key == Keys[k]
Ev == Key.ev[pos]
Rate(e) == IF e.alg = "SHAKE128" THEN 168 ELSE 136
In(e) == C!HexBytes(e.in)
Out(e) == C!HexBytes(e.out)
Init == /\ k \in 1..Len(Keys) /\ pos = 1 /\ lanes = K!Start /\ done = 0 /\ got = 0
Fine(e) == /\ e.mem /\ e.alg \in {"SHAKE128", "SHAKE256"}
           /\ Len(e.out) = 2 * e.outlen
Absorb(e) == LET r == Rate(e)
                 m == In(e)
             IN /\ done < Sp!NBlocks(r, Len(m))
                /\ lanes' = K!F(K!AddBlock(lanes, Sp!Block(r, m, done + 1), r))
                /\ done' = done + 1 /\ UNCHANGED <<k, pos, got>>
Squeeze(e) == LET r == Rate(e)
                  o == Out(e)
                  n == IF e.outlen - got >= r THEN r ELSE e.outlen - got
              IN /\ done >= Sp!NBlocks(r, Len(In(e)))
                 /\ got < e.outlen
                 /\ K!OutBlock(lanes, n) = SubSeq(o, got + 1, got + n)
                 /\ got' = got + n
                 /\ IF got + n < e.outlen THEN lanes' = K!F(lanes) ELSE lanes' = lanes
                 /\ UNCHANGED <<k, pos, done>>
Finish(e) == /\ done >= Sp!NBlocks(Rate(e), Len(In(e))) /\ got = e.outlen
             /\ pos' = pos + 1 /\ lanes' = K!Start /\ done' = 0 /\ got' = 0 /\ UNCHANGED k
Long(e) == /\ e.op = "long" /\ e.mem
           /\ Cardinality({ e.outs[j] : j \in DOMAIN e.outs }) = Len(e.outs)
           /\ pos' = pos + 1 /\ UNCHANGED <<k, lanes, done, got>>
Next == \/ /\ pos <= Len(Key.ev)
           /\ LET e == Ev
              IN \/ /\ e.op = "call" /\ Fine(e)
                    /\ \/ Absorb(e)
                       \/ Squeeze(e)
                       \/ Finish(e)
                 \/ Long(e)
        \/ pos > Len(Key.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
(* Known answers: the empty input (FIPS 202 example values). *)
ASSUME LET e(alg, r, n) == SubSeq(K!OutBlock(K!F(K!AddBlock(K!Start, Sp!Block(r, << >>, 1), r)), r), 1, n)
       IN /\ e("SHAKE128", 168, 32) = C!HexBytes("7f9c2ba4e88f827d616045507605853ed73b8093f6efbc88eb1a6eacfa66ef26")
          /\ e("SHAKE256", 136, 32) = C!HexBytes("46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762f")
(* The operator that the other modules take SHAKE from is this function. *)
OneShot(alg, r, m, n) ==
  LET RECURSIVE Ab(_, _)
      Ab(A, j) == IF j > Sp!NBlocks(r, Len(m)) THEN A ELSE Ab(K!F(K!AddBlock(A, Sp!Block(r, m, j), r)), j + 1)
      RECURSIVE Sq(_, _)
      Sq(A, left) == IF left <= r THEN K!OutBlock(A, left) ELSE K!OutBlock(A, r) \o Sq(K!F(A), left - r)
  IN Sq(Ab(K!Start, 1), n)
ASSUME \A x \in { <<"SHAKE128", 168>>, <<"SHAKE256", 136>> } :
         \A n \in { 1, 64, 96, 135, 136, 137, 167, 168, 169, 272, 336 } :
           LET m == [ i \in 1..n |-> (i * i + 7 * n) % 256 ]
           IN C!CoreHash(x[1], m, 32 + n \div 2) = OneShot(x[1], x[2], m, 32 + n \div 2)
================================================================================
