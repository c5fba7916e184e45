-------------------------------- MODULE TraceRng --------------------------------
(***************************************************************************)
(* Recorded key generations (and plain requests for random bytes) on a     *)
(* scripted device, as behaviours of Rng; what the keys are made of in the *)
(* end; and that nothing else takes or needs random bytes.                 *)
(*                                                                         *)
(* Events: open, read [asked, r], pause - what the library did to the      *)
(* device - and then what came of it:                                      *)
(*   key   [ret, n, at, idx, copies]  at: where in the device's stream the *)
(*         secret seed, PRF seed and public seed are found (-1: nowhere)   *)
(*   bytes [at]                       a plain request: the stream itself   *)
(*   quiet [op]                       signing or verifying                 *)
(*   same  [a, b] / different [ids]   keys made under the same / different *)
(*         random bytes, numbered                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Keys == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, pos, opened, got, done, hist
vars == <<k, pos, opened, got, done, hist>>
Key == Keys[k]
Ev == Key.ev[pos]
Want == IF "need" \in DOMAIN Key THEN Key.need ELSE 0
R == INSTANCE Rng WITH need <- Want, Needs <- {}, Chunk <- 1048576,
     Outcomes <- {}, MaxEvents <- 2000000, MaxFails <- 2000000, Emit <- FALSE

Begin == opened = Key.isopen /\ got = 0 /\ done = FALSE /\ hist = <<>>
Init == k \in 1..Len(Keys) /\ pos = 1 /\ hist = <<>> /\ got = 0 /\ done = FALSE
        /\ opened = ("isopen" \in DOMAIN Keys[k] /\ Keys[k].isopen)

\* (opening the device again does no harm)
Open(e) == /\ e.op = "open" /\ ~done
           /\ opened' = (e.r = 0) /\ UNCHANGED <<got, done, hist>>
\* (any request that stays within what is missing is as good as Rng's)
ReadDev(e) ==
  /\ e.op = "read" /\ opened /\ ~done /\ got < Want
  /\ e.asked >= 1 /\ got + e.asked <= Want
  /\ e.r <= e.asked
  /\ got' = (IF e.r > 0 THEN got + e.r ELSE got)
  /\ UNCHANGED <<opened, done, hist>>
Pause(e) == e.op = "pause" /\ ~done /\ UNCHANGED <<opened, got, done, hist>>

KeyMade(e) ==
  /\ e.op = "key" /\ ~done
  /\ got = Want /\ Want = 3 * e.n            \* exactly three seeds, in full
  /\ e.ret = 0
  /\ \A i \in 1..3 : e.at[i] >= 0 /\ e.at[i] + e.n <= Want
  /\ \A i, j \in 1..3 : i < j => e.at[i] + e.n <= e.at[j] \/ e.at[j] + e.n <= e.at[i]
  /\ e.idx0                                           \* index 0
  /\ e.copies                                         \* root and public seed in both keys
  /\ done' = TRUE /\ UNCHANGED <<opened, got, hist>>
BytesMade(e) ==
  /\ e.op = "bytes" /\ ~done /\ got = Want /\ e.at = 0 /\ e.mem
  /\ done' = TRUE /\ UNCHANGED <<opened, got, hist>>

Quiet(e) == e.op = "quiet" /\ done /\ e.ret = 0 /\ UNCHANGED <<opened, got, done, hist>>
Same(e) == e.op = "same" /\ e.a = e.b /\ UNCHANGED <<opened, got, done, hist>>
Different(e) == /\ e.op = "different"
                /\ Cardinality({ e.ids[i] : i \in 1..Len(e.ids) }) = Len(e.ids)
                /\ UNCHANGED <<opened, got, done, hist>>

Next == \/ /\ pos <= Len(Key.ev)
           /\ Open(Ev) \/ ReadDev(Ev) \/ Pause(Ev) \/ KeyMade(Ev) \/ BytesMade(Ev) \/ Quiet(Ev) \/ Same(Ev) \/ Different(Ev)
           /\ pos' = pos + 1 /\ UNCHANGED k
        \/ pos > Len(Key.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* What Rng promises holds along every recorded behaviour.
Promised == R!Complete /\ got <= Want
=============================================================================
