---------------------------------- MODULE Tools ----------------------------------
(***************************************************************************)
(* The three command-line tools and the files they work on.                *)
(* A key file is [key, at, cut]: which key, the index it stands at, and    *)
(* how much of it is there.  A signed file is [key, at, m, alt].           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS
  KeyFiles, SigFiles, Sets, Msgs,
  Caps,        \* one-time keys of a key of each set
  MaxKeys, MaxOps, Emit
VARIABLES
  kf, sf,
  made,        \* keys made so far; a key is its number
  setOf,       \* key -> parameter set
  caps,        \* set -> one-time keys
  res,         \* how the last tool run ended: "ok" | "fail" | "-"
  hist
vars == <<kf, sf, made, setOf, caps, res, hist>>
view == <<kf, sf, made, setOf, caps, res>>

NoKey == [key |-> 0, at |-> 0, cut |-> "none"]
NoSig == [key |-> 0, at |-> 0, m |-> 0, alt |-> TRUE]
Init == /\ kf = [f \in KeyFiles |-> NoKey] /\ sf = [s \in SigFiles |-> NoSig]
        /\ made = 0 /\ setOf = <<>> /\ caps \in [Sets -> Caps] /\ res = "-" /\ hist = <<>>

\* What is left of a key file.
Public(c) == c \in {"whole", "tail", "public", "secretless", "badsk"}   \* the public key is there
Secret(c) == c \in {"whole", "tail"}                                    \* all of it (and perhaps more)

CapOf(key) == caps[setOf[key]]
Left(x) == x.key # 0 /\ x.at < CapOf(x.key)

Keypair(f, set) ==
  /\ made' = made + 1 /\ setOf' = Append(setOf, set)
  /\ kf' = [kf EXCEPT ![f] = [key |-> made + 1, at |-> 0, cut |-> "whole"]]
  /\ res' = "ok" /\ UNCHANGED <<sf, caps>>
BadRun == res' = "fail" /\ UNCHANGED <<kf, sf, made, setOf, caps>>

Sign(f, m, s) ==
  /\ IF Secret(kf[f].cut) /\ Left(kf[f])
     THEN /\ sf' = [sf EXCEPT ![s] = [key |-> kf[f].key, at |-> kf[f].at, m |-> m, alt |-> FALSE]]
          /\ kf' = [kf EXCEPT ![f].at = @ + 1]
          /\ res' = "ok"
     ELSE /\ res' = "fail" /\ UNCHANGED <<kf, sf>>
  /\ UNCHANGED <<made, setOf, caps>>

Accepts(f, s) == Public(kf[f].cut) /\ ~sf[s].alt /\ sf[s].key = kf[f].key
Open(f, s) == res' = (IF Accepts(f, s) THEN "ok" ELSE "fail") /\ UNCHANGED <<kf, sf, made, setOf, caps>>

\* What happens to files otherwise.
Copy(f, g) == f # g /\ kf[f].key # 0 /\ kf' = [kf EXCEPT ![g] = kf[f]] /\ res' = "-" /\ UNCHANGED <<sf, made, setOf, caps>>
Damage(f, c) == kf[f].cut = "whole" /\ kf' = [kf EXCEPT ![f].cut = c] /\ res' = "-" /\ UNCHANGED <<sf, made, setOf, caps>>
Alter(s) == sf[s].key # 0 /\ sf' = [sf EXCEPT ![s].alt = TRUE] /\ res' = "-" /\ UNCHANGED <<kf, made, setOf, caps>>

Cuts == {"tail", "public", "secretless", "badsk", "badpk", "short", "empty"}
Log(e) == hist' = Append(hist, e)
Next ==
  /\ Len(hist) < MaxOps
  /\ \/ \E f \in KeyFiles, t \in Sets : made < MaxKeys /\ Keypair(f, t) /\ Log([op |-> "keypair", f |-> f, set |-> t])
     \/ \E w \in {"name", "args", "out"} : BadRun /\ Log([op |-> "bad", what |-> w])
     \/ \E f \in KeyFiles, m \in Msgs, s \in SigFiles : Sign(f, m, s) /\ Log([op |-> "sign", f |-> f, m |-> m, s |-> s])
     \/ \E f \in KeyFiles, s \in SigFiles : Open(f, s) /\ Log([op |-> "open", f |-> f, s |-> s])
     \/ \E f, g \in KeyFiles : Copy(f, g) /\ Log([op |-> "copy", f |-> f, g |-> g])
     \/ \E f \in KeyFiles, c \in Cuts : Damage(f, c) /\ Log([op |-> "damage", f |-> f, c |-> c])
     \/ \E s \in SigFiles : ~sf[s].alt /\ Alter(s) /\ Log([op |-> "alter", s |-> s])
Finish == Emit /\ Len(hist) = MaxOps /\ PrintT(ToJson(hist)) /\ hist' = <<>> /\ UNCHANGED <<kf, sf, made, setOf, caps, res>>
Spec == Init /\ [][Next \/ Finish]_vars

\* C11: what the signing tool puts out is accepted with the same key file, and with
\* what has become of it as long as the public key is there.
RoundTrip == [][ \A f \in KeyFiles, s \in SigFiles :
                   (sf'[s] # sf[s] /\ ~sf'[s].alt /\ sf'[s].key = kf[f].key /\ Public(kf[f].cut)) => Accepts(f, s)' ]_vars
\* A tool run that fails changes nothing.
FailsQuietly == [][ res' = "fail" => kf' = kf /\ sf' = sf ]_vars
\* Key files of different keys never accept each other's signatures.
NoStrangers == \A f \in KeyFiles, s \in SigFiles : Accepts(f, s) => sf[s].key = kf[f].key /\ sf[s].at < CapOf(sf[s].key)
=============================================================================
