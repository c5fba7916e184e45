-------------------------------- MODULE SeedKey --------------------------------
(***************************************************************************)
(* Key pairs from seeds.  A key pair is a function of parameter set and    *)
(* seed alone: deriving one from a seed that the caller has, and           *)
(* generating one from what the random source delivers, are the same       *)
(* function, and the former leaves the random source alone.                *)
(*                                                                         *)
(* What that function is, the owner finds out one value after the other:   *)
(* `known' holds what has been seen.  `Hidden' (negative control): the key *)
(* depends on something else, too (on how often the device was used).      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Pars, Seeds, Draws, Hidden

VARIABLES
  known,   \* {[p, s, k, o]}: seed s gave key k under p (o: by which operation)
  dev,     \* seeds taken from the random source so far
  draws    \* what it will deliver
vars == <<known, dev, draws>>

Function == \A a, b \in known : a.p = b.p => (a.s = b.s <=> a.k = b.k)
OnlyGenerating == (\A x \in known : x.o = "derive") => dev = 0

\* What both operations do (also used for recorded calls).
Learn(p, s, key, o) == known' = known \cup { [p |-> p, s |-> s, k |-> key, o |-> o] }
Taking(c) == dev' = dev + c

KeyOf(p, s) == IF Hidden THEN <<p, s, dev>> ELSE <<p, s>>
Derive(p, s) == Learn(p, s, KeyOf(p, s), "derive") /\ Taking(0) /\ UNCHANGED draws
Generate(p) == /\ dev < Len(draws)
               /\ Learn(p, draws[dev + 1], KeyOf(p, draws[dev + 1]), "generate") /\ Taking(1) /\ UNCHANGED draws

Init == known = {} /\ dev = 0 /\ draws \in [1..Draws -> Seeds]
Next == (\E p \in Pars, s \in Seeds : Derive(p, s)) \/ (\E p \in Pars : Generate(p))
Spec == Init /\ [][Next]_vars
\* Deriving again after anything gives the same.
Untouched == [][\A p \in Pars, s \in Seeds : Derive(p, s) => dev' = dev]_vars
=============================================================================
