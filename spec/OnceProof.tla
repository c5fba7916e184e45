------------------------------- MODULE OnceProof -------------------------------
(***************************************************************************)
(* No one-time key is handed out twice by AbstractSigner, which Signer     *)
(* refines, whatever the size of the key and from wherever it starts (C02, *)
(* C03).  given: what has been handed out.                                 *)
(***************************************************************************)
EXTENDS AbstractSigner, TLAPS
VARIABLE given
ASSUME Size == Total \in Nat
HInit == AInit /\ given = {}
HNext == \/ Dispense /\ given' = given \cup {res'}
         \/ Refused /\ given' = given
hvars == <<spent, res, given>>
HSpec == HInit /\ [][HNext]_hvars
Inv == /\ spent \in 0..Total
       /\ \A i \in given : i \in 0..(Total - 1) /\ i < spent
Full == [][Refused => spent = Total]_hvars
Once == [][HNext /\ given' # given => res' \notin given /\ res' \in 0..(Total - 1)]_hvars
THEOREM HSpec => []Inv /\ Once /\ Full
<1>1. HInit => Inv
  BY Size DEF HInit, AInit, Inv
<1>2. Inv /\ [HNext]_hvars => Inv'
  BY Size DEF Inv, HNext, hvars, Dispense, Refused
<1>3. Inv /\ [HNext]_hvars => [HNext /\ given' # given => res' \notin given /\ res' \in 0..(Total - 1)]_hvars
  BY Size DEF Inv, HNext, hvars, Dispense, Refused
<1>4. [HNext]_hvars => [Refused => spent = Total]_hvars
  BY DEF Refused, hvars
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, PTL DEF HSpec, Once, Full
================================================================================
