------------------------------ MODULE TraceSeedKey ------------------------------
(***************************************************************************)
(* Recorded derivations and generations of key pairs as behaviours of      *)
(* SeedKey.  Byte strings are numbered: equal numbers for equal bytes.     *)
(*                                                                         *)
(*   key  [p, how, ret, s, k, took, kept, parts, idx0, copies]                *)
(*        p: parameter set (several take seeds of the same length);        *)
(*        how: "derive" from a given seed or "generate" from the device    *)
(*        took: bytes taken from the device; kept: seed buffer unchanged;  *)
(*        parts: where the seed's three parts are found in the keys' three *)
(*        seed fields (1,2,3); bounds: nothing written around the buffers  *)
(*   sign [p, s, i, m, ret, sig, ok]  a signature by the key of seed s        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, Json, IOUtils, TLC
Keys == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, pos, known, dev, draws, memo
vars == <<k, pos, known, dev, draws, memo>>
K == INSTANCE SeedKey WITH Pars <- {}, Seeds <- {}, Draws <- 0, Hidden <- FALSE
Key == Keys[k]
Ev == Key.ev[pos]
Init == k \in 1..Len(Keys) /\ pos = 1 /\ known = {} /\ dev = 0 /\ draws = <<>> /\ memo = {}

KeyEv(e) ==
  /\ e.op = "key" /\ e.ret = 0
  /\ e.parts = <<1, 2, 3>> /\ e.idx0 /\ e.copies /\ e.bounds /\ e.kept
  /\ e.took = (IF e.how = "generate" THEN 3 * Key.n ELSE 0)
  /\ K!Learn(e.p, e.s, e.k, e.how) /\ K!Taking(e.took)
  /\ UNCHANGED <<draws, memo>>

\* A signature, too, is a function of seed, index and message.
Sign(e) ==
  /\ e.op = "sign" /\ e.ret = 0 /\ e.ok
  /\ \E x \in known : x.p = e.p /\ x.s = e.s
  /\ \A x \in memo : x.p = e.p /\ x.s = e.s /\ x.i = e.i /\ x.m = e.m => x.sig = e.sig
  /\ memo' = memo \cup { [p |-> e.p, s |-> e.s, i |-> e.i, m |-> e.m, sig |-> e.sig] }
  /\ UNCHANGED <<known, dev, draws>>

Next == \/ /\ pos <= Len(Key.ev)
           /\ KeyEv(Ev) \/ Sign(Ev)
           /\ K!Function'
           /\ pos' = pos + 1 /\ UNCHANGED k
        \/ pos > Len(Key.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
