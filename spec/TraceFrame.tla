------------------------------- MODULE TraceFrame -------------------------------
(***************************************************************************)
(* Recorded calls of the library on exactly as much memory as it is        *)
(* entitled to, as behaviours of Frame.  Every event gives the contents of *)
(* all the memory before and after the call (equal numbers for equal       *)
(* bytes); a call that leaves its memory dies and leaves no such event.    *)
(*                                                                         *)
(* Also: how much is written.  `unw' are the parts of an output that came  *)
(* out as whatever they were before, for two different contents before, as *)
(* intervals <<from, to>> (to exclusive).                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, XmssParams
Keys == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, pos, mem, wiped, last
vars == <<k, pos, mem, wiped, last>>
Key == Keys[k]
Ev == Key.ev[pos]
F == INSTANCE Frame WITH Contents <- {}, Loose <- FALSE, SkConst <- {"oid", "skseed", "prf", "root", "pubseed"}

P == Derive(Key.mt, Key.func, Key.n, Key.w, Key.h, Key.d)
Off == IF Key.oid THEN 4 ELSE 0

Init == /\ k \in 1..Len(Keys) /\ pos = 1 /\ last = "none" /\ wiped = FALSE
        /\ mem = IF "mem" \in DOMAIN Keys[k] THEN Keys[k].mem ELSE <<>>

\* The sizes of the buffers handed over are those of the standards.
Sizes == /\ Key.pkb = P.pk_bytes /\ Key.sigb = P.sig_bytes /\ Key.skb >= P.sk_min

Kept(e, S) == \A r \in F!Regions \ S : e.mem[r] = mem[r]
Within(u, lo, hi) == \A i \in 1..Len(u) : u[i][1] >= lo /\ u[i][2] <= hi

Keygen(e) ==
  /\ e.op = "keygen" /\ e.ret = 0 /\ Sizes
  /\ Kept(e, F!Frame("keygen", FALSE))
  /\ e.unw.pk = <<>>                                 \* every byte of the public key
  /\ Within(e.unw.sk, Off + P.sk_min, Off + Key.skb) \* and every regular field are made
  /\ mem' = e.mem /\ wiped' = FALSE /\ last' = "keygen"

Sign(e) ==
  /\ e.op = "sign" /\ Sizes
  \* the final wipe: at the last signature, or when the key is used up already
  /\ \E w \in BOOLEAN :
       /\ e.ret # 0 => w
       /\ wiped => w
       /\ w /\ ~wiped => e.wipe
       /\ Kept(e, F!Frame("sign", w)) /\ wiped' = w
  /\ e.ret = 0 => e.unw.sm = <<>> /\ e.slen = e.mlen + P.sig_bytes
  /\ mem' = e.mem /\ last' = "sign"

Open(e) ==
  /\ e.op = "open" /\ Sizes
  /\ Kept(e, F!Frame("open", wiped))
  /\ (e.ret = 0) = e.good                            \* (made here by Sign, or damaged)
  /\ e.ret = 0 => e.slen >= P.sig_bytes /\ e.mlen = e.slen - P.sig_bytes /\ Within(e.unw.mout, e.mlen, e.slen)
  /\ e.ret # 0 => e.mlen = 0
  /\ mem' = e.mem /\ last' = "open" /\ UNCHANGED wiped

\* The caller puts something else into his buffers.
Load(e) == e.op = "load" /\ mem' = e.mem /\ UNCHANGED <<wiped, last>>
           /\ \A r \in F!Sk : e.reload \/ e.mem[r] = mem[r]
\* Calls with an identifier that is not known.
Refused(e) == e.op = "unknown" /\ e.ret # 0 /\ e.mem = mem /\ UNCHANGED <<mem, wiped, last>>

Next == \/ /\ pos <= Len(Key.ev)
           /\ Keygen(Ev) \/ Sign(Ev) \/ Open(Ev) \/ Load(Ev) \/ Refused(Ev)
           /\ pos' = pos + 1 /\ UNCHANGED k
        \/ pos > Len(Key.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
