-------------------------------- MODULE Sessions --------------------------------
(***************************************************************************)
(* A user with several keys, in several buffers and in several saved       *)
(* copies, who generates, signs, verifies, saves, restores, moves keys     *)
(* between buffers and processes, and does several things at once.         *)
(*                                                                         *)
(* A key's whole state is [key, at]: which key material, and at which      *)
(* index.  That is all there is: what an operation on a buffer does is a   *)
(* function of what that buffer holds.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  KeyIds, Buffers, Slots,
  Caps,         \* one-time keys of a key (how many there may be)
  MaxOps,       \* length of a history
  Hidden,       \* FALSE; TRUE: state outside of the keys (negative control)
  Emit          \* print complete histories, for replay

VARIABLES
  caps,         \* one-time keys of each key
  buf,          \* what each buffer holds
  slot,         \* what has been saved
  out,          \* last result: a signature [t, k, i], or "refused", "ok", "none"
  sigs,         \* signatures made: {[k, i]}
  stray,        \* (Hidden only) index remembered by the library itself
  hist
vars == <<caps, buf, slot, out, sigs, stray, hist>>
view == <<caps, buf, slot, out, sigs, stray>>

Res(t) == [t |-> t, k |-> 0, i |-> 0]
Empty == [k |-> 0, at |-> 0]
Init == /\ caps \in [KeyIds -> Caps]
        /\ buf = [b \in Buffers |-> Empty] /\ slot = [s \in Slots |-> Empty]
        /\ out = Res("none") /\ sigs = {} /\ stray = 0 /\ hist = <<>>

Log(e) == hist' = Append(hist, e)
Quietly == hist' = hist

\* What signing does to a key's state, and what comes out: nothing else counts.
Signs(s) == s.k # 0 /\ s.at < caps[s.k]
After(s) == [s EXCEPT !.at = @ + 1]
SigOf(s) == [k |-> s.k, i |-> IF Hidden THEN (IF stray > s.at THEN stray ELSE s.at) ELSE s.at]

GenIn(b, k) ==
  /\ buf' = [buf EXCEPT ![b] = [k |-> k, at |-> 0]]
  /\ out' = Res("ok") /\ UNCHANGED <<slot, sigs>> /\ stray' = 0
SignIn(b) ==
  /\ buf[b].k # 0
  /\ IF Signs(buf[b])
     THEN /\ buf' = [buf EXCEPT ![b] = After(@)]
          /\ out' = [t |-> "sig", k |-> SigOf(buf[b]).k, i |-> SigOf(buf[b]).i]
          /\ sigs' = sigs \cup {SigOf(buf[b])}
          /\ stray' = IF Hidden THEN SigOf(buf[b]).i + 1 ELSE 0
     ELSE out' = Res("refused") /\ UNCHANGED <<buf, sigs, stray>>
  /\ UNCHANGED slot
SaveIn(b, s) == buf[b].k # 0 /\ slot' = [slot EXCEPT ![s] = buf[b]] /\ out' = Res("none") /\ UNCHANGED <<buf, sigs, stray>>
LoadIn(s, b) == slot[s].k # 0 /\ buf' = [buf EXCEPT ![b] = slot[s]] /\ out' = Res("none") /\ UNCHANGED <<slot, sigs, stray>>
\* Verifying signature g under the public key of k.
OpenOf(g, k) == g \in sigs /\ out' = Res(IF g.k = k THEN "ok" ELSE "refused") /\ UNCHANGED <<buf, slot, sigs, stray>>

\* At once: each of the buffers signs n times, in threads; or a call is under way
\* while another one happens (at its j-th part).  Distinct keys in distinct buffers.
Apart(S) == \A b, c \in S : b # c => b # c /\ (buf[b].k # 0 /\ buf[c].k # 0)
RECURSIVE Many(_, _)
Many(s, n) == IF n = 0 \/ ~Signs(s) THEN s ELSE Many(After(s), n - 1)
Together(S, n) ==
  /\ Apart(S) /\ Cardinality(S) > 1
  /\ buf' = [b \in DOMAIN buf |-> IF b \in S THEN Many(buf[b], n) ELSE buf[b]]
  /\ sigs' = sigs \cup UNION { { [k |-> buf[b].k, i |-> i] : i \in buf[b].at..(Many(buf[b], n).at - 1) } : b \in S }
  /\ out' = Res("none") /\ UNCHANGED <<slot, stray>>

Next ==
  /\ Len(hist) < MaxOps /\ UNCHANGED caps
  /\ \/ \E b \in Buffers, k \in KeyIds : GenIn(b, k) /\ Log([op |-> "gen", b |-> b, k |-> k])
     \/ \E b \in Buffers, w \in {"here", "away", "moved"} : SignIn(b) /\ Log([op |-> "sign", b |-> b, where |-> w])
     \/ \E b \in Buffers, s \in Slots : SaveIn(b, s) /\ Log([op |-> "save", b |-> b, s |-> s])
     \/ \E s \in Slots, b \in Buffers : LoadIn(s, b) /\ Log([op |-> "load", b |-> b, s |-> s])
     \/ \E g \in sigs, k \in KeyIds : OpenOf(g, k) /\ Log([op |-> "open", g |-> g, k |-> k])
     \/ \E S \in SUBSET Buffers, n \in {1, 3} : Together(S, n) /\ Log([op |-> "threads", S |-> S, n |-> n])
     \/ \E a, b \in Buffers : a # b /\ Signs(buf[a]) /\ Together({a, b}, 1) /\ Log([op |-> "within", a |-> a, b |-> b])
\* (a step of its own, so that it is taken once in a behaviour)
Finish == Emit /\ Len(hist) = MaxOps /\ PrintT(ToJson(hist)) /\ hist' = <<>> /\ UNCHANGED <<caps, buf, slot, out, sigs, stray>>
Spec == Init /\ [][Next \/ Finish]_vars

\* C14: an operation on one buffer leaves what the others hold, and a buffer's
\* next signature depends on what it holds only.
Independent ==
  [][ \A b \in Buffers : buf'[b] # buf[b] =>
        \/ buf'[b].at = 0                                            \* generated
        \/ \E s \in Slots : buf'[b] = slot[s]                        \* restored
        \/ buf'[b].k = buf[b].k /\ buf'[b].at > buf[b].at ]_vars     \* signed with
SelfContained == [][ \A b \in Buffers : /\ buf'[b] = [buf[b] EXCEPT !.at = @ + 1] /\ out' # out /\ out'.t = "sig"
                                        /\ out'.k = buf[b].k
                                        => \E c \in Buffers : out'.k = buf[c].k /\ out'.i = buf[c].at ]_vars
\* Seen from one buffer between two restores, the key behaves as if it were alone: the
\* dispenser of AbstractSigner (as long as the buffer holds the same key).
Alone(b) == [][ buf'[b].k = buf[b].k /\ buf'[b] # buf[b] /\ buf'[b].at > 0
                   /\ (\A s \in Slots : buf'[b] # slot[s]) => buf'[b].at <= caps[buf[b].k] ]_vars
AllAlone == \A b \in Buffers : Alone(b)
=============================================================================
