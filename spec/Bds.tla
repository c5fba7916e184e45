--------------------------------- MODULE Bds ---------------------------------
(***************************************************************************)
(* Model checking of the state-keeping signer: for every configuration in  *)
(* Configs, the whole lifetime of a key (up to Limit signatures).          *)
(***************************************************************************)
EXTENDS BdsOps
CONSTANTS Configs, Limit
VARIABLES c, S
vars == <<c, S>>

\* A configuration is given as the number th*10000 + d*100 + k.
Conf(x) == LET th == x \div 10000  d == (x \div 100) % 100 IN
  [th |-> th, d |-> d, k |-> x % 100, h |-> th * d]

Init == \E x \in Configs : c = Conf(x) /\ S = InitSigner(Conf(x))
Alive == (c.h >= 31 \/ S.idx < 2^c.h) /\ S.idx < Limit
Sign == Alive /\ S' = Step(c, S) /\ UNCHANGED c
Next == Sign
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C01/C05/C09: every signature contains exactly what belongs there.
SignatureRight == Alive => Emitted(c, S) = Due(c, S.idx)
\* C12/C15: no node ever leaves the memory that the secret key reserves.
MemoryFits == /\ \A i \in 1..c.d : S.cur[i].fits /\ Len(S.cur[i].stack) <= c.th + 1
              /\ \A i \in 1..(c.d - 1) : S.nxt[i].fits /\ Len(S.nxt[i].stack) <= c.th + 1
\* C15: the work of one signature.
WorkBounded == /\ S.work.leaves <= Budget(c) + 2
               /\ S.work.signs <= c.d
\* The last signature of a tree is made, whatever comes after.
Complete == <>(~Alive)
=============================================================================
