------------------------------- MODULE TraceKey -------------------------------
(***************************************************************************)
(* Recorded lives of secret keys against Signer.                           *)
(*                                                                         *)
(* Each line of the input is one key: its parameters, the index it was     *)
(* found at, and what every call did (vf/driver.py).  A behaviour of this  *)
(* module takes one key and explains its events one by one as actions of   *)
(* Signer; an event that no action explains leaves the behaviour stuck,    *)
(* which TLC reports as a deadlock.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Keys == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES
  idx, live, out, ret,   \* the model (Signer)
  k, pos,                \* which key, which event
  prev,                  \* the layers of the previous signature
  nR, nW,                \* different randomizers and one-time signatures so far
  seen                   \* keys that jump: what each one-time key has signed

S == INSTANCE Signer WITH B <- 8, NB <- 4, H <- 0
C == INSTANCE Crypto
vars == <<idx, live, out, ret, k, pos, prev, nR, nW, seen>>

Key == Keys[k]
Ev == Key.ev[pos]
None == [idx |-> <<>>]

Init ==
  /\ k \in 1..Len(Keys) /\ pos = 1
  /\ idx = (IF "stub" \in DOMAIN Keys[k] THEN <<>> ELSE Keys[k].start) /\ live = TRUE /\ out = <<>> /\ ret = "none"
  /\ prev = None /\ nR = 0 /\ nW = 0 /\ seen = {}

\* The one-time key that index i uses on layer l (tree and leaf together).
OtsKey(i, l) == C!ShiftRight(C!BitsOf(i), Key.th * l)

(***************************************************************************)
(* What a successful call has to have done besides moving the index.       *)
(***************************************************************************)
Shape(e) ==            \* C01: length, message, memory
  /\ e.slen = Key.sigb + e.mlen
  /\ e.tail
  /\ e.mem
Verified(e) ==         \* C01: accepted, and the message comes back
  Key.verify => /\ e.vret = 0
                /\ e.vlen = e.mlen
                /\ e.vmsg
Fields(e) ==           \* C12/C03: regular fields untouched, or wiped
  IF live' THEN e.cst ELSE e.gone
Jumps == IF "jumps" \in DOMAIN Key THEN Key.jumps ELSE "no"
\* The one-time keys of this signature that have not signed yet.  (Identifiers of
\* randomizers, signatures and paths are given out in order of first appearance.)
FreshKey(i, l) ==
  IF Jumps = "no" THEN prev = None \/ OtsKey(i, l) # OtsKey(prev.idx, l)
  ELSE ~\E s \in seen : s.l = l /\ s.key = OtsKey(i, l)
FreshUpTo(i, l) == Cardinality({ j \in 0..l : FreshKey(i, j) })
Layers(e) ==           \* C09: a one-time key of an upper layer signs one value
  IF ~Key.layers THEN UNCHANGED <<nR, nW, seen>>
  ELSE
    /\ e.rid = nR + 1                                   \* a randomizer never seen before
    /\ nR' = nR + 1
    /\ LET Ls == IF Jumps = "bottom" THEN {0} ELSE 0..(Key.d - 1)
       IN /\ \A l \in Ls :
               IF FreshKey(e.si, l)
               THEN Jumps # "bottom" => e.w[l + 1] = nW + FreshUpTo(e.si, l)     \* not seen before
               ELSE IF Jumps = "no"
                    THEN e.w[l + 1] = prev.w[l + 1] /\ e.a[l + 1] = prev.a[l + 1]
                    ELSE \A s \in seen : s.l = l /\ s.key = OtsKey(e.si, l) =>
                                             s.w = e.w[l + 1] /\ s.a = e.a[l + 1]
          /\ nW' = IF Jumps = "bottom" THEN nW ELSE nW + FreshUpTo(e.si, Key.d - 1)
          /\ seen' = IF Jumps = "no" THEN seen
                     ELSE seen \cup { [l |-> l, key |-> OtsKey(e.si, l), w |-> e.w[l + 1], a |-> e.a[l + 1]] : l \in Ls }
\* C15: leaf computations and one-time signatures (units), primitive hash calls
LeafCalls == Key.len * (1 + 3 * (Key.w - 1)) + 4 * (Key.len - 1)
SignCalls == Key.len * (1 + 3 * (Key.w - 1))
Budget == (Key.th - Key.bdsk) \div 2
Within(units, calls, signs) ==
  /\ units <= Budget + 2 + signs
  /\ calls <= (Budget + 2) * (LeafCalls + 4 * Key.th) + signs * SignCalls + 4 * Key.d + 16
Work(e) ==
  Key.work =>
    LET switched == { l \in 0..(Key.d - 2) : OtsKey(out', l + 1) # OtsKey(idx', l + 1) }
    IN Within(e.units, e.calls, 1 + Cardinality(switched))

\* Key generation: every leaf of the first tree of every layer once.
GenWork(e) ==
  /\ e.op = "gen" /\ Key.work
  /\ e.units <= Key.d * 2^Key.th + (Key.d - 1)
  /\ e.calls <= Key.d * 2^Key.th * (LeafCalls + 4) + (Key.d - 1) * SignCalls + 16
  /\ UNCHANGED <<idx, live, out, ret, prev, nR, nW, seen>>

Sign(e) ==
  /\ e.op = "sign" /\ e.ret = 0
  /\ S!SignOkAt(Key.h)
  /\ out' = e.si /\ idx' = e.ia
  /\ Shape(e) /\ Verified(e) /\ Fields(e) /\ Layers(e) /\ Work(e)
  /\ prev' = IF Key.layers THEN [idx |-> e.si, w |-> e.w, a |-> e.a, rid |-> e.rid] ELSE None

\* Many successful calls in a row, among the first 2^30 and not up to the end of the key.
\* most[j]: the most work of a call that left j - 1 trees.
Many(e) ==
  /\ e.op = "many" /\ live /\ ~Key.layers
  /\ e.ok = e.n /\ e.mem /\ e.cst
  /\ Len(e.ia) = Len(idx)
  /\ LET low(x) == C!LowVal(C!BitsOf(x), 30)
         to == low(idx) + e.n
     IN /\ to < (IF Key.h <= 30 THEN 2^Key.h - 1 ELSE 2^30)
        /\ low(e.ia) = to
        /\ C!ShiftRight(C!BitsOf(idx), 30) = C!ShiftRight(C!BitsOf(e.ia), 30)
  /\ Key.work => /\ Len(e.most) = Key.d
                 /\ \A j \in 1..Key.d : Within(e.most[j][1], e.most[j][2], j)
  /\ idx' = e.ia /\ out' = <<>> /\ ret' = "ok" /\ prev' = None
  /\ UNCHANGED <<live, nR, nW, seen>>

\* A copy of the key standing at another index (one not used yet).
Jump(e) ==
  /\ e.op = "jump"
  /\ idx' = e.to /\ live' = TRUE /\ out' = <<>> /\ ret' = "none"
  /\ prev' = None /\ UNCHANGED <<nR, nW, seen>>

\* A copy of the key from before the previous call signs another message: all
\* that depends on the index alone is the same.
Fork(e) ==
  /\ e.op = "fork" /\ prev # None
  /\ e.ret = 0 /\ e.si = prev.idx
  /\ e.rid = prev.rid
  /\ \A l \in 1..Key.d : e.a[l] = prev.a[l]
  /\ \A l \in 2..Key.d : e.w[l] = prev.w[l]
  /\ e.w[1] = nW + 1 /\ nW' = nW + 1
  /\ Shape(e) /\ Verified(e)
  /\ UNCHANGED <<idx, live, out, ret, prev, nR, seen>>

Refuse(e) ==
  /\ e.op = "sign" /\ e.ret # 0
  /\ S!RefuseToAt(Key.h, e.ia)
  /\ e.gone                     \* C03: wiped
  /\ ~e.valid                   \* C03: makes no signature
  /\ e.mem
  /\ UNCHANGED <<prev, nR, nW, seen>>

Explain ==
  /\ pos <= Len(Key.ev)
  /\ Sign(Ev) \/ Refuse(Ev) \/ Fork(Ev) \/ Jump(Ev) \/ Many(Ev) \/ GenWork(Ev)
  /\ pos' = pos + 1 /\ UNCHANGED k

Done == pos > Len(Key.ev) /\ UNCHANGED vars

Next == Explain \/ Done
Spec == Init /\ [][Next]_vars

\* The model's own invariants hold along the way (with the key's own H).
Spent == out # <<>> => S!Less(out, idx) \/ ret = "refused"

Info == [k |-> k, pos |-> pos, idx |-> idx, live |-> live, out |-> out, ret |-> ret]
=============================================================================
