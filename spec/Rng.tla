---------------------------------- MODULE Rng ----------------------------------
(***************************************************************************)
(* Taking random bytes from the system's device, which may fail to open,   *)
(* fail or be interrupted while reading, report an end of file, or deliver *)
(* fewer bytes than asked for; any number of times.  `got' is how many     *)
(* bytes of the device's stream have been put into the caller's buffer:    *)
(* byte i of the buffer is byte i of what the device delivered.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Needs,     \* how many bytes may be wanted
  Chunk,     \* most that is asked for at once
  Outcomes,  \* what a read may return, besides -1 and all that was asked for: 0, 1, ...
  MaxEvents, \* (bound on the history)
  MaxFails,  \* (bound on failures)
  Emit       \* print the complete histories, for replay

VARIABLES
  need,      \* bytes wanted
  opened,    \* the device is open
  got,       \* bytes obtained
  done,      \* returned to the caller
  hist       \* what the device did
vars == <<need, opened, got, done, hist>>

Init == need \in Needs /\ opened = FALSE /\ got = 0 /\ done = FALSE /\ hist = <<>>

Fails == Cardinality({ i \in 1..Len(hist) : hist[i].r < 1 /\ hist[i].op # "openok" })
Log(e) == Len(hist) < MaxEvents /\ hist' = Append(hist, e)

OpenOk == /\ ~opened /\ ~done /\ opened' = TRUE /\ Log([op |-> "openok", r |-> 0])
          /\ UNCHANGED <<need, got, done>>
OpenFail == /\ ~opened /\ ~done /\ Fails < MaxFails /\ Log([op |-> "openfail", r |-> -1])
            /\ UNCHANGED <<need, opened, got, done>>

\* A read asks for no more than is still missing, and what comes goes behind what is there.
Asked == IF need - got < Chunk THEN need - got ELSE Chunk
ReadGives(r) ==
  /\ opened /\ ~done /\ got < need
  /\ r <= Asked
  /\ r < 1 => Fails < MaxFails
  /\ got' = IF r > 0 THEN got + r ELSE got
  /\ Log([op |-> "read", r |-> r])
  /\ UNCHANGED <<need, opened, done>>
Read == \E r \in Outcomes \cup {-1, Asked} : ReadGives(r)

Return ==
  /\ got = need /\ opened /\ ~done /\ done' = TRUE
  /\ (Emit => PrintT(ToJson(hist)))
  /\ UNCHANGED <<need, opened, got, hist>>

Next == OpenOk \/ OpenFail \/ Read \/ Return
Spec == Init /\ [][Next]_vars /\ SF_vars(OpenOk) /\ SF_vars(ReadGives(Asked)) /\ WF_vars(Return)

\* C13
Complete == done => got = need
NeverTooMuch == got <= need /\ (opened /\ ~done /\ got < need => Asked >= 1 /\ got + Asked <= need)
\* The bytes obtained are the sum of what the reads gave.
RECURSIVE Given(_)
Given(h) == IF h = <<>> THEN 0 ELSE (IF Head(h).op = "read" /\ Head(h).r > 0 THEN Head(h).r ELSE 0) + Given(Tail(h))
NothingLost == got = Given(hist)
\* As long as the device works again some time (and the history bound is not reached).
Returns == <>(done \/ Len(hist) = MaxEvents)
=============================================================================
