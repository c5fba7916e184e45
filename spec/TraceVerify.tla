------------------------------ MODULE TraceVerify ------------------------------
(***************************************************************************)
(* Recorded calls of the verifier, judged as Verifier has it: an input is  *)
(* accepted exactly if it is a signed message made under that public key.  *)
(* "made" events name an honest (public key, signature, message) triple,   *)
(* "open" events the triple that the verifier was given: byte strings are  *)
(* numbered, equal numbers for equal bytes.  An input shorter than a       *)
(* signature has signature number 0.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Keys == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, pos, made
vars == <<k, pos, made>>
Key == Keys[k]

\* Acceptance releases exactly the message, rejection nothing; inputs stay as they were.
Accepted(e) == e.ret = 0 /\ e.mlen = e.slen - e.siglen /\ e.msg
Rejected(e) == e.ret # 0 /\ e.mlen = 0 /\ (e.slen > e.siglen + 8 => ~e.msg)

Explained(e) ==
  \/ /\ e.op = "made" /\ e.t \notin made
     /\ made' = made \cup {e.t}
  \/ /\ e.op = "open" /\ e.mem
     /\ (e.slen < e.siglen) = (e.t[2] = 0)
     /\ IF e.t \in made THEN Accepted(e) ELSE Rejected(e)
     /\ UNCHANGED made

Init == k \in 1..Len(Keys) /\ pos = 1 /\ made = {}
Next == \/ pos <= Len(Key.ev) /\ Explained(Key.ev[pos]) /\ pos' = pos + 1 /\ UNCHANGED k
        \/ pos > Len(Key.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
