------------------------------- MODULE TraceSpent -------------------------------
(***************************************************************************)
(* Recorded runs of the signing tool, watched from system call to system   *)
(* call, as behaviours of SpentFirst.  Events:                             *)
(*   file  [i, part]   the key file has changed: its index; part: what is  *)
(*                     outside the secret key's state is as it was         *)
(*   show  [r, i, all] more of the output of run r can be seen             *)
(*   deaf  [r]         a call of run r that writes output was made to fail *)
(*   end   [r, how]                                                        *)
(*   start [i]         (the file as found, first of all)                   *)
(* `all' means: accepted by verification under this key, with the message. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Keys == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, pos, stored, shown, complete, ended, deaf
vars == <<k, pos, stored, shown, complete, ended, deaf>>
Key == Keys[k]
Ev == Key.ev[pos]
Runs == 1..8
\* (indices are given relative to the beginning; Key.total is what is left then)
S == INSTANCE SpentFirst WITH Total <- 1000000000

Init == /\ k \in 1..Len(Keys) /\ pos = 1
        /\ stored = 0
        /\ shown = [r \in Runs |-> -1] /\ complete = [r \in Runs |-> FALSE]
        /\ ended = [r \in Runs |-> "no"] /\ deaf = [r \in Runs |-> FALSE]

Left == Key.total
File(e) == /\ e.op = "file" /\ e.part
           /\ \/ e.i = stored + 1 /\ e.i <= Left
              \/ e.i = Left /\ stored >= Left - 1
              \/ e.i = stored                          \* (the rest of the state)
           /\ stored' = e.i /\ UNCHANGED <<shown, complete, ended, deaf>>
Show(e) == e.op = "show" /\ S!Show(e.r, e.i, e.all)
Deaf(e) == e.op = "deaf" /\ S!Deafen(e.r)
End(e) == e.op = "end" /\ S!End(e.r, e.how)
          /\ (e.how = "failed" => e.silent \/ deaf[e.r])

Next == \/ /\ pos <= Len(Key.ev)
           /\ File(Ev) \/ Show(Ev) \/ Deaf(Ev) \/ End(Ev)
           /\ pos' = pos + 1 /\ UNCHANGED k
        \/ pos > Len(Key.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Promises == S!Spent /\ S!Unique /\ S!OkIsWhole
=============================================================================
