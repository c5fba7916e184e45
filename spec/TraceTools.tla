------------------------------- MODULE TraceTools -------------------------------
(***************************************************************************)
(* Recorded runs of the command-line tools as behaviours of Tools.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Keys == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, pos, kf, sf, made, setOf, caps, res, hist
vars == <<k, pos, kf, sf, made, setOf, caps, res, hist>>
view == <<k, pos>>
Key == Keys[k]
Ev == Key.ev[pos]
T == INSTANCE Tools WITH KeyFiles <- {}, SigFiles <- {}, Sets <- {}, Msgs <- {}, Caps <- {}, MaxKeys <- 0, MaxOps <- 0, Emit <- FALSE

Init == /\ k \in 1..Len(Keys) /\ pos = 1
        /\ kf = [f \in 1..9 |-> T!NoKey] /\ sf = [s \in 1..9 |-> T!NoSig]
        /\ caps = (IF "caps" \in DOMAIN Keys[k] THEN Keys[k].caps ELSE <<>>)
        /\ made = 0 /\ setOf = <<>> /\ res = "-" /\ hist = <<>>

\* It ends by itself, with a code that says how.
Ended(e) == ~e.crash /\ (e.code = 0) = (res' = "ok")

Keypair(e) == /\ e.op = "keypair" /\ T!Keypair(e.f, e.set) /\ Ended(e)
              /\ e.size                                \* exactly the two keys, with their identifiers in front
Bad(e) == e.op = "bad" /\ T!BadRun /\ Ended(e) /\ e.quiet     \* nothing came out, no file has changed
Sign(e) == /\ e.op = "sign" /\ T!Sign(e.f, e.m, e.s) /\ Ended(e)
           /\ e.part                                   \* outside of the key's state the file is as before
           /\ IF res' = "ok"
              THEN e.size /\ e.tail /\ e.at = kf[e.f].at   \* signature, then the message
              ELSE /\ e.empty
                   \* (a used-up key may be wiped; anything else stays)
                   /\ e.same \/ (T!Secret(kf[e.f].cut) /\ ~T!Left(kf[e.f]))
Open(e) == e.op = "open" /\ T!Open(e.f, e.s) /\ Ended(e) /\ e.same
Copy(e) == e.op = "copy" /\ T!Copy(e.f, e.g)
Damage(e) == e.op = "damage" /\ T!Damage(e.f, e.c)
Alter(e) == e.op = "alter" /\ T!Alter(e.s)
\* The owner has moved the index by himself.
Move(e) == /\ e.op = "move" /\ kf' = [kf EXCEPT ![e.f].at = e.at]
           /\ res' = "-" /\ UNCHANGED <<sf, made, setOf, caps>>

Next == \/ /\ pos <= Len(Key.ev)
           /\ Keypair(Ev) \/ Bad(Ev) \/ Sign(Ev) \/ Open(Ev) \/ Copy(Ev) \/ Damage(Ev) \/ Alter(Ev) \/ Move(Ev)
           /\ pos' = pos + 1 /\ UNCHANGED <<k, hist>>
        \/ pos > Len(Key.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
