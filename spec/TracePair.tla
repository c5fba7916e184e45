------------------------------- MODULE TracePair -------------------------------
(***************************************************************************)
(* Two signers of the same key material side by side: the state-keeping    *)
(* one and the recomputing one.  What they are is Signer; what their       *)
(* signatures are is a function of (key, index, message), of which the     *)
(* trace reveals one value after the other (`memo').  Byte strings are     *)
(* numbered: equal numbers for equal bytes.                                *)
(*                                                                         *)
(* A key whose index was moved (event "jump") by its owner far ahead has,  *)
(* on layer l, a state of another tree; it is right again once that layer  *)
(* has gone through a whole tree, which takes 2^(th (l+1)) signatures.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Keys == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES
  idx, live, out, ret,   \* Signer: the state-keeping one
  k, pos,
  since,                 \* signatures since the jump, or -1: never jumped
  memo                   \* {[i, m, s]}: signatures known at the present index
S == INSTANCE Signer WITH B <- 8, NB <- 4, H <- 0
C == INSTANCE Crypto
vars == <<idx, live, out, ret, k, pos, since, memo>>

Key == Keys[k]
Ev == Key.ev[pos]

Init ==
  /\ k \in 1..Len(Keys) /\ pos = 1
  /\ idx = (IF "stub" \in DOMAIN Keys[k] THEN <<>> ELSE Keys[k].start) /\ live = TRUE /\ out = <<>> /\ ret = "none"
  /\ since = -1 /\ memo = {}

\* Both made from the same random bytes.
Gen(e) ==
  /\ e.op = "gen"
  /\ e.ret = <<0, 0>>
  /\ e.pk[1] = e.pk[2]
  /\ e.fields[1] = e.fields[2]          \* identifier, index, seeds, root, public seed
  /\ UNCHANGED <<idx, live, out, ret, since, memo>>

\* The public key that the regular fields of a secret key determine.
Same(e) == e.op = "samekey" /\ e.same /\ UNCHANGED <<idx, live, out, ret, since, memo>>

Passed(e) == e < 31 /\ since >= 2^e
WotsRight(l) == since = -1 \/ l = 0 \/ Passed(Key.th * l)
AuthRight(l) == since = -1 \/ Passed(Key.th * (l + 1))

\* Both sign the same message at the same index.
Pair(e) ==
  /\ e.op = "pair" /\ e.i = idx
  /\ e.ret = <<0, 0>>
  /\ S!SignOkAt(Key.h)
  /\ e.ia[1] = e.ia[2] /\ idx' = e.ia[1] /\ out' = e.i
  /\ e.slen[1] = e.slen[2]
  /\ IF since = -1
     THEN e.s[1] = e.s[2]
     ELSE /\ e.rid[1] = e.rid[2]
          /\ \A l \in 0..(Key.d - 1) :
               /\ WotsRight(l) => e.w[1][l + 1] = e.w[2][l + 1]
               /\ AuthRight(l) => e.a[1][l + 1] = e.a[2][l + 1]
  /\ e.wiped = <<~live', ~live'>>
  /\ memo' = { [i |-> e.i, m |-> e.m, s |-> e.s[1]] }
  /\ since' = IF since = -1 THEN -1 ELSE since + 1

\* The state-keeping one signs alone.
Alone(e) ==
  /\ e.op = "alone" /\ e.ret = 0
  /\ S!SignOkAt(Key.h)
  /\ out' = idx /\ idx' = e.ia
  /\ memo' = {}
  /\ since' = IF since = -1 THEN -1 ELSE since + 1

\* ... many times in a row, not up to the end of the key.
Many(e) ==
  /\ e.op = "many" /\ live /\ e.ok = e.n /\ Len(e.ia) = Len(idx)
  /\ LET low(x) == C!LowVal(C!BitsOf(x), 30)
         to == low(idx) + e.n
     IN /\ to < (IF Key.h <= 30 THEN 2^Key.h - 1 ELSE 2^30)
        /\ low(e.ia) = to
        /\ C!ShiftRight(C!BitsOf(idx), 30) = C!ShiftRight(C!BitsOf(e.ia), 30)
  /\ idx' = e.ia /\ out' = <<>> /\ ret' = "ok" /\ memo' = {}
  /\ since' = IF since = -1 THEN -1 ELSE since + e.n
  /\ UNCHANGED live

\* Either signs again at the index of the last pair (from a copy kept from before):
\* a function of index and message.
Again(e) ==
  /\ e.op = "again" /\ e.ret = 0 /\ memo # {}
  /\ LET known == { x \in memo : x.m = e.m }
     IN IF known = {} THEN memo' = memo \cup { [i |-> out, m |-> e.m, s |-> e.s] }
                           /\ \A x \in memo : x.s # e.s
        ELSE /\ \A x \in known : x.s = e.s
             /\ UNCHANGED memo
  /\ UNCHANGED <<idx, live, out, ret, since>>

Jump(e) ==
  /\ e.op = "jump"
  /\ idx' = e.to /\ live' = TRUE /\ out' = <<>> /\ ret' = "none"
  /\ since' = 0 /\ memo' = {}

Refuse(e) ==
  /\ e.op = "pair" /\ e.ret[1] # 0 /\ e.ret[2] # 0
  /\ S!RefuseToAt(Key.h, e.ia[1]) /\ e.wiped = <<TRUE, TRUE>>
  /\ memo' = {} /\ UNCHANGED since

Next == \/ /\ pos <= Len(Key.ev)
           /\ Gen(Ev) \/ Same(Ev) \/ Pair(Ev) \/ Alone(Ev) \/ Many(Ev) \/ Again(Ev) \/ Jump(Ev) \/ Refuse(Ev)
           /\ pos' = pos + 1 /\ UNCHANGED k
        \/ pos > Len(Key.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
