-------------------------------- MODULE SignTool --------------------------------
(***************************************************************************)
(* The signing tool: open the key file, lock it, read it, sign, store the  *)
(* key in (at least two) parts, output the signature in parts, exit.  Any  *)
(* step may be the last one (kill), any may fail (the tool exits with an   *)
(* error), and several runs go on at the same time.                        *)
(*                                                                         *)
(* The three constants switch protections off, for the negative controls.  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS
  Runs, Total,
  Lock,          \* lock the file before reading it
  StoreFirst,    \* store the key before any output
  CheckStore     \* notice that storing failed
VARIABLES
  file,     \* [i: index in the file, whole: the rest belongs to that index]
  held,     \* run that holds the lock, or 0
  pc, at,   \* per run: where it is; the index it has read
  seen,     \* per run: "none" | "part" | "all"
  stored2,  \* per run: has the file been updated
  bad       \* per run: its output was refused
vars == <<file, held, pc, at, seen, stored2, bad>>

Init == /\ file \in [i : 0..Total, whole : {TRUE}] /\ held = 0
        /\ pc = [r \in Runs |-> "start"] /\ at = [r \in Runs |-> -1]
        /\ seen = [r \in Runs |-> "none"] /\ stored2 = [r \in Runs |-> FALSE]
        /\ bad = [r \in Runs |-> FALSE]

Going(r) == pc[r] \notin {"ok", "failed", "killed"}
To(r, p) == pc' = [pc EXCEPT ![r] = p]
Leave(r) == held' = IF held = r THEN 0 ELSE held

Begin(r) == /\ pc[r] = "start" /\ To(r, "locked")
            /\ IF Lock THEN held = 0 /\ held' = r ELSE held' = held
            /\ UNCHANGED <<file, at, seen, stored2, bad>>
Read(r) == /\ pc[r] = "locked" /\ To(r, "read")
           /\ at' = [at EXCEPT ![r] = file.i]
           /\ UNCHANGED <<file, held, seen, stored2, bad>>
\* Signing itself: the key in memory moves on.  A used-up key is stored as such, and that is all.
Sign(r) == /\ pc[r] = "read" /\ To(r, "signed")
           /\ UNCHANGED <<file, held, at, seen, stored2, bad>>
UsedUp(r) == at[r] >= Total
Next1(r) == IF UsedUp(r) THEN Total ELSE at[r] + 1

MayStore(r) == \/ (pc[r] = "signed" /\ (StoreFirst \/ UsedUp(r)))
               \/ (pc[r] = "shown" /\ ~StoreFirst)
StoreBegin(r) == /\ MayStore(r) /\ To(r, IF pc[r] = "signed" THEN "storing" ELSE "storing2")
                 /\ file' = [i |-> Next1(r), whole |-> FALSE]
                 /\ UNCHANGED <<held, at, seen, stored2, bad>>
StoreEnd(r) == /\ pc[r] \in {"storing", "storing2"}
               /\ To(r, IF pc[r] = "storing" THEN "stored" ELSE "finished")
               /\ file' = [file EXCEPT !.whole = TRUE]
               /\ stored2' = [stored2 EXCEPT ![r] = TRUE]
               /\ UNCHANGED <<held, at, seen, bad>>
\* The store fails and nobody notices.
StoreLost(r) == /\ ~CheckStore /\ MayStore(r) /\ To(r, IF pc[r] = "signed" THEN "stored" ELSE "finished")
                /\ UNCHANGED <<file, held, at, seen, stored2, bad>>

MayShow(r) == ~UsedUp(r) /\ (pc[r] \in {"stored", "showing"} \/ (pc[r] = "signed" /\ ~StoreFirst))
ShowPart(r) == /\ MayShow(r) /\ seen[r] # "all" /\ To(r, "showing") /\ seen' = [seen EXCEPT ![r] = "part"]
               /\ UNCHANGED <<file, held, at, stored2, bad>>
ShowAll(r) == /\ MayShow(r) /\ To(r, IF StoreFirst THEN "finished" ELSE "shown") /\ seen' = [seen EXCEPT ![r] = "all"]
              /\ UNCHANGED <<file, held, at, stored2, bad>>
ShowFails(r) == /\ MayShow(r) /\ bad' = [bad EXCEPT ![r] = TRUE] /\ To(r, "failing")
                /\ UNCHANGED <<file, held, at, seen, stored2>>

ExitOk(r) == pc[r] = "finished" /\ To(r, "ok") /\ Leave(r) /\ UNCHANGED <<file, at, seen, stored2, bad>>
\* Something failed before any output; or the key was used up; or the output failed.
ExitFailed(r) == /\ ( pc[r] \in {"start", "locked", "read", "signed", "storing", "failing"} \/ (pc[r] = "stored" /\ UsedUp(r)) )
                 /\ ~(pc[r] = "signed" /\ ~CheckStore)
                 /\ To(r, "failed") /\ Leave(r) /\ UNCHANGED <<file, at, seen, stored2, bad>>
Kill(r) == Going(r) /\ To(r, "killed") /\ Leave(r) /\ UNCHANGED <<file, at, seen, stored2, bad>>

Step(r) == \/ Begin(r) \/ Read(r) \/ Sign(r) \/ StoreBegin(r) \/ StoreEnd(r) \/ StoreLost(r)
           \/ ShowPart(r) \/ ShowAll(r) \/ ShowFails(r) \/ ExitOk(r) \/ ExitFailed(r)
Next == \E r \in Runs : Step(r) \/ Kill(r)
Spec == Init /\ [][Next]_vars /\ \A r \in Runs : WF_vars(Step(r))

\* What can be seen from outside is a behaviour of SpentFirst.
Outside == INSTANCE SpentFirst WITH
   stored <- file.i,
   shown <- [r \in Runs |-> IF seen[r] = "none" THEN -1 ELSE at[r]],
   complete <- [r \in Runs |-> seen[r] = "all"],
   ended <- [r \in Runs |-> CASE pc[r] = "ok" -> "ok" [] pc[r] = "failed" -> "failed" [] pc[r] = "killed" -> "killed" [] OTHER -> "no"],
   deaf <- bad
Refines == Outside!SSpec
Spent == Outside!Spent
Unique == Outside!Unique
OkIsWhole == Outside!OkIsWhole
\* Nobody waits for ever, whoever is killed.
AllEnd == <>(\A r \in Runs : ~Going(r))
\* A run that was not disturbed leaves a key that can be used further.
Usable == (\A r \in Runs : pc[r] \in {"start", "ok"}) => file.whole
=============================================================================
