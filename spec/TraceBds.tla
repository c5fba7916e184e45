------------------------------- MODULE TraceBds -------------------------------
(***************************************************************************)
(* Does the model of the traversal (BdsOps) spend exactly the work that    *)
(* the recorded signatures spent?  This binds the model to the code        *)
(* signature by signature; an implementation may legitimately spend less,  *)
(* so a disagreement says that the model no longer describes the code, not *)
(* that the code is wrong.                                                 *)
(***************************************************************************)
EXTENDS BdsOps, Json, IOUtils
Keys == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, pos, S
vars == <<k, pos, S>>
Key == Keys[k]
Conf == [th |-> Key.th, d |-> Key.d, k |-> Key.bdsk, h |-> Key.h]
Init == k \in 1..Len(Keys) /\ pos = 1 /\ S = InitSigner([th |-> Keys[k].th, d |-> Keys[k].d, k |-> Keys[k].bdsk, h |-> Keys[k].h])
Explain ==
  /\ pos <= Len(Key.ev)
  /\ LET e == Key.ev[pos]
     IN \/ /\ e.op = "gen" /\ UNCHANGED S
           /\ e.units = Key.d * 2^Key.th + (Key.d - 1)
        \/ /\ e.op = "sign" /\ e.ret # 0 /\ UNCHANGED S
        \/ /\ e.op = "sign" /\ e.ret = 0
           /\ S' = Step(Conf, S)
           /\ e.units = S'.work.leaves + S'.work.signs
  /\ pos' = pos + 1 /\ UNCHANGED k
Next == Explain \/ (pos > Len(Key.ev) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
SignatureRight == (Key.h >= 31 \/ S.idx < 2^Key.h) => Emitted(Conf, S) = Due(Conf, S.idx)
=============================================================================
