---------------------------- MODULE AbstractSigner ----------------------------
(***************************************************************************)
(* What a stateful signature scheme promises its user: a dispenser of      *)
(* `Total' one-time keys, each handed out once, in order, and nothing      *)
(* afterwards.                                                             *)
(***************************************************************************)
EXTENDS Integers
CONSTANT Total
VARIABLES
  spent,    \* one-time keys 0..spent-1 are gone
  res       \* result of the last request: an index, or -1 (refused), or -2 (none yet)

AInit == spent \in 0..Total /\ res = -2
Dispense == spent < Total /\ res' = spent /\ spent' = spent + 1
Refused  == spent = Total /\ res' = -1 /\ UNCHANGED spent
ANext == Dispense \/ Refused
ASpec == AInit /\ [][ANext]_<<spent, res>> /\ WF_<<spent, res>>(Dispense)

OnceOnly == [][res' >= 0 /\ <<spent, res>>' # <<spent, res>> => res' = spent /\ spent' > spent]_<<spent, res>>
RunsOut == <>(spent = Total)
=============================================================================
