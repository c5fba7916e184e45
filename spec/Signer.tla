-------------------------------- MODULE Signer --------------------------------
(***************************************************************************)
(* The life of one secret key, as its owner can observe it: the stored     *)
(* index, whether the key material is still there, and the outcome of each *)
(* signing call.                                                           *)
(***************************************************************************)
EXTENDS IndexField, TLC

CONSTANTS B, NB, H
VARIABLES
  idx,      \* stored index field
  live,     \* seeds present
  out,      \* index carried by the signature the last call made, or <<>>
  ret       \* "none" | "ok" | "refused"
vars == <<idx, live, out, ret>>

\* A new key starts at 0; but a stored key may be found at any index.
NewKey == idx = [j \in 1..NB |-> 0] /\ live = TRUE /\ out = <<>> /\ ret = "none"
FoundKey == idx \in Fields(B, NB) /\ live = TRUE /\ out = <<>> /\ ret = "none"

\* A successful call: the signature carries the stored index, the stored index
\* moves on, and the call that uses the last one-time key deletes the seeds.
SignOkAt(h) ==
  /\ live /\ Signable(idx, h, B)
  /\ out' = idx
  /\ idx' = Inc(idx, B)
  /\ live' = ~IsFinal(idx, h, B)
  /\ ret' = "ok"
SignOk == SignOkAt(H)

\* A used-up key, or one whose index is out of range, refuses; whatever the
\* stored index becomes, it is not one that signs.
RefuseToAt(h, i) ==
  /\ ~Signable(idx, h, B)
  /\ ~Signable(i, h, B)
  /\ idx' = i /\ live' = FALSE /\ out' = <<>> /\ ret' = "refused"
Refuse == \E i \in Fields(B, NB) : RefuseToAt(H, i)

Next == SignOk \/ Refuse
Spec == NewKey /\ [][Next]_vars /\ WF_vars(SignOk)
SpecFound == FoundKey /\ [][Next]_vars /\ WF_vars(SignOk)

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
TypeOK == idx \in Fields(B, NB) /\ live \in BOOLEAN

\* C02: the index in the key is past the one the signature carries.
Spent == out # <<>> => Less(out, idx)
\* C02: one by one.
OneByOne == [][/\ ret' = "ok" => idx' = Inc(idx, B) /\ out' = idx
               /\ ret' = "ok" /\ out # <<>> => out' = Inc(out, B)]_vars
\* C02: a failed call makes nothing available again.
FailedCallsSpendNothing == [][ret' = "refused" /\ vars' # vars => ~Signable(idx', H, B)]_vars
\* C03: refuses for ever.
RefusesForEver == [][ret = "refused" => ret' = "refused"]_vars
\* C03: seeds are gone as soon as there is nothing left to sign.
Wiped == (ret # "none" /\ ~Signable(idx, H, B)) => ~live
\* A key that can sign has its seeds.
Usable == Signable(idx, H, B) => live

\* C03: the whole is a dispenser of exactly 2^H (or 2^H - 1) one-time keys.
Capacity == IF NoSpare(H, B, NB) THEN 2^H - 1 ELSE 2^H
CountOf(i) == IF Signable(i, H, B) THEN Val(i, B) ELSE Capacity
Abs == INSTANCE AbstractSigner WITH
         Total <- Capacity, spent <- CountOf(idx),
         res <- IF ret = "ok" THEN Val(out, B) ELSE IF ret = "refused" THEN -1 ELSE -2
Refines == Abs!ASpec
RunsOut == <>(~Signable(idx, H, B))
=============================================================================
