------------------------------- MODULE SpentFirst -------------------------------
(***************************************************************************)
(* What the owner of a key file is promised by a program that signs with   *)
(* it: an index is gone from the file before anything of a signature that  *)
(* carries it can be seen, and no two runs show the same one; whatever     *)
(* happens to the runs.                                                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANT Runs, Total      \* runs of the program; one-time keys of the key
VARIABLES
  stored,    \* first index that the file still offers (Total: none)
  shown,     \* run -> index of which something has been seen, or -1
  complete,  \* run -> all of it has
  ended,     \* run -> "no" | "ok" | "failed" | "killed"
  deaf       \* run -> its output was refused by the system
svars == <<stored, shown, complete, ended, deaf>>

SInit == /\ stored \in 0..Total
         /\ shown = [r \in Runs |-> -1] /\ complete = [r \in Runs |-> FALSE]
         /\ ended = [r \in Runs |-> "no"] /\ deaf = [r \in Runs |-> FALSE]

\* The file moves on, by one index; or is deleted at the end.
Store(i) == /\ \/ i = stored + 1 \/ (i = Total /\ stored >= Total - 1)
            /\ stored' = i /\ UNCHANGED <<shown, complete, ended, deaf>>
Fresh(r, i) == /\ ended[r] = "no" /\ shown[r] \in {-1, i}
               /\ i >= 0 /\ i < stored
               /\ \A q \in DOMAIN shown : q # r => shown[q] # i
Show(r, i, all) == /\ Fresh(r, i)
                   /\ shown' = [shown EXCEPT ![r] = i] /\ complete' = [complete EXCEPT ![r] = all]
                   /\ UNCHANGED <<stored, ended, deaf>>
Deafen(r) == ended[r] = "no" /\ deaf' = [deaf EXCEPT ![r] = TRUE] /\ UNCHANGED <<stored, shown, complete, ended>>
\* Success means a whole signature; failure, silence (unless it was the output that failed).
End(r, how) == /\ ended[r] = "no" /\ how \in {"ok", "failed", "killed"}
               /\ how = "ok" => complete[r]
               /\ how = "failed" => shown[r] = -1 \/ deaf[r]
               /\ ended' = [ended EXCEPT ![r] = how] /\ UNCHANGED <<stored, shown, complete, deaf>>

SNext == \/ \E i \in 0..Total : Store(i)
         \/ \E r \in Runs : \/ \E i \in 0..Total, a \in BOOLEAN : Show(r, i, a)
                            \/ Deafen(r)
                            \/ \E how \in {"ok", "failed", "killed"} : End(r, how)
SSpec == SInit /\ [][SNext]_svars

\* C10
Spent == \A r \in DOMAIN shown : shown[r] < stored
Unique == \A r, q \in DOMAIN shown : r # q /\ shown[r] # -1 => shown[r] # shown[q]
OkIsWhole == \A r \in DOMAIN shown : ended[r] = "ok" => complete[r] /\ shown[r] # -1
=============================================================================
