------------------------------ MODULE TraceSessions ------------------------------
(***************************************************************************)
(* Recorded sessions with the real library as behaviours of Sessions.      *)
(* Key.solo[k] is the life of key k by itself, recorded in a process of    *)
(* its own: the numbers of its signatures, by index (equal numbers for     *)
(* equal bytes).  What is signed depends on key and index only.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Keys == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, pos, buf, slot, out, sigs, stray, hist
vars == <<k, pos, buf, slot, out, sigs, stray, hist>>
view == <<k, pos>>
Key == Keys[k]
Ev == Key.ev[pos]
S == INSTANCE Sessions WITH caps <- (IF "caps" \in DOMAIN Key THEN Key.caps ELSE <<>>), KeyIds <- {}, Buffers <- {}, Slots <- {},
       Caps <- {}, MaxOps <- 0, Hidden <- FALSE, Emit <- FALSE

Init == /\ k \in 1..Len(Keys) /\ pos = 1
        /\ IF "nb" \in DOMAIN Keys[k]
           THEN /\ buf = [b \in 1..Keys[k].nb |-> S!Empty] /\ slot = [s \in 1..Keys[k].ns |-> S!Empty]
           ELSE buf = <<>> /\ slot = <<>>
        /\ out = S!Res("none") /\ sigs = {} /\ stray = 0 /\ hist = <<>>

Gen(e) == /\ e.op = "gen" /\ S!GenIn(e.b, e.k)
          /\ e.ret = 0 /\ e.at = 0 /\ e.pk = Key.pks[e.k]   \* the key that these random bytes give
Sign(e) == /\ e.op = "sign"
           /\ buf[e.b].at = e.before
           /\ S!SignIn(e.b)
           /\ IF out'.t = "refused" THEN e.ret # 0
              ELSE /\ e.ret = 0 /\ e.after = buf'[e.b].at
                   /\ out'.i < Len(Key.solo[out'.k])
                   /\ e.sig = Key.solo[out'.k][out'.i + 1]       \* as if it were alone
Save(e) == e.op = "save" /\ S!SaveIn(e.b, e.s)
Load(e) == e.op = "load" /\ S!LoadIn(e.s, e.b)
Open(e) == /\ e.op = "open" /\ S!OpenOf([k |-> e.g.k, i |-> e.g.i], e.k)
           /\ (e.ret = 0) = (out'.t = "ok") /\ e.right

Next == \/ /\ pos <= Len(Key.ev)
           /\ Gen(Ev) \/ Sign(Ev) \/ Save(Ev) \/ Load(Ev) \/ Open(Ev)
           /\ pos' = pos + 1 /\ UNCHANGED <<k, hist>>
        \/ pos > Len(Key.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
