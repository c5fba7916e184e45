------------------------------- MODULE TraceWots -------------------------------
(***************************************************************************)
(* Recorded one-time signatures of one-time key pairs: events (value,      *)
(* numbers of the chain values in the signature; equal numbers within a    *)
(* chain for equal bytes).  The chain positions the definition prescribes  *)
(* (XmssRfc!Digits) have to explain them: on every chain, equal positions  *)
(* show equal values and different positions different ones.  `anchors'    *)
(* are signatures that Oracle recomputed byte for byte, which fixes which  *)
(* position is which.                                                      *)
(***************************************************************************)
EXTENDS XmssRfc, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, pos, dg        \* dg: the digits of every value signed
vars == <<k, pos, dg>>
Rec == Recs[k]
Par(r) == Derive(TRUE, "SHA2", r.n, r.w, 4, 2)
N == Len(Rec.ev)

Sound(e, len) ==
  /\ e.op = "wots"
  /\ Len(e.ids) = len
  /\ e.back            \* leads back to the public key
  /\ e.other           \* under another value it does not
  /\ e.mem
Begin ==
  /\ pos = 0 /\ "n" \in DOMAIN Rec
  /\ LET p == TLCEval(Par(Rec))
     IN /\ \A i \in 1..N : Sound(Rec.ev[i], p.len)
        /\ dg' = [i \in 1..N |-> Digits(p, Rec.ev[i].v)]

\* One chain after the other.
ChainRight ==
  /\ pos > 0 /\ pos \in 1..Par(Rec).len
  /\ LET S == { <<dg[i][pos], Rec.ev[i].ids[pos]>> : i \in 1..N }
     IN /\ Cardinality({ s[1] : s \in S }) = Cardinality(S)
        /\ Cardinality({ s[2] : s \in S }) = Cardinality(S)
        \* the last position is the public key's value
        /\ \A s \in S : (s[1] = Rec.w - 1) = (s[2] = 1)
  /\ UNCHANGED dg

Init == k \in 1..Len(Recs) /\ pos = 0 /\ dg = <<>>
Next == \/ (Begin \/ ChainRight) /\ pos' = pos + 1 /\ UNCHANGED k
        \/ pos > 0 /\ pos > Par(Rec).len /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* (dg is a function of k: states are told apart without it)
View == <<k, pos>>
=============================================================================
