----------------------------- MODULE TraceParams -----------------------------
(***************************************************************************)
(* What the library makes of names and identifiers, against the registries *)
(* (XmssParams).  One record per line; each has to be as the standards     *)
(* have it.  Identifiers are pairs of 16-bit halves.                       *)
(***************************************************************************)
EXTENDS XmssParams, Json, IOUtils
ASSUME TablesSane
Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, pos
vars == <<k, pos>>

Oid(e) == IF e.hi = 0 THEN e.lo ELSE -1        \* registered identifiers are small
Zero == <<0, 0>>

\* The library's parameter structure for p; name of the hash function as asked for.
Fields(e, p) ==
  /\ e.f.func = p.func /\ e.f.n = p.n /\ e.f.padding_len = p.pad
  /\ e.f.wots_w = p.w /\ e.f.wots_log_w = p.logw
  /\ e.f.wots_len1 = p.len1 /\ e.f.wots_len2 = p.len2 /\ e.f.wots_len = p.len
  /\ e.f.wots_sig_bytes = p.wots_bytes
  /\ e.f.full_height = p.h /\ e.f.tree_height = p.th /\ e.f.d = p.d
  /\ e.f.index_bytes = p.index_bytes /\ e.f.sig_bytes = p.sig_bytes /\ e.f.pk_bytes = p.pk_bytes
  /\ IF e.recomputing THEN e.f.sk_bytes = p.sk_min ELSE e.f.sk_bytes >= p.sk_min

Bytes4(oid) == <<0, 0, oid \div 256, oid % 256>>

Right(e) ==
  CASE e.kind = "name" ->
         LET o == OidOfName(e.mt, e.s)
         IN IF o.known THEN e.ret = 0 /\ Oid(e) = o.oid ELSE e.ret # 0
    [] e.kind = "oid" ->
         LET o == ParamsOfOid(e.mt, Oid(e))
         IN IF o.known THEN e.ret = 0 /\ Fields(e, o.p) ELSE e.ret # 0
    [] e.kind = "scan" ->      \* all identifiers with these upper halves
         { <<a[1], a[2]>> : a \in { e.accepted[i] : i \in 1..Len(e.accepted) } }
           = (IF e.from = 0 THEN { <<0, x[2]>> : x \in Entries(e.mt) } ELSE {})
    [] e.kind = "custom" ->
         IF e.w \in {4, 16, 256}
         THEN e.ret = 0 /\ Fields(e, Derive(e.d > 1, e.func, e.n, e.w, e.h, e.d))
         ELSE e.ret # 0
    [] e.kind = "keypair" ->
         LET o == ParamsOfOid(e.mt, Oid(e))
         IN IF o.known
            THEN e.ret = 0 /\ e.pkoid = Bytes4(Oid(e)) /\ e.skoid = Bytes4(Oid(e)) /\ e.same
            ELSE e.ret # 0 /\ ~e.changed
    [] e.kind \in {"sign", "open"} ->
         LET o == ParamsOfOid(e.mt, Oid(e))
         IN IF o.known
            THEN e.same                 \* as the core function with that identifier's parameters
            ELSE e.ret # 0 /\ ~e.changed
    [] OTHER -> FALSE

Init == k \in 1..Len(Recs) /\ pos = 1
Next == \/ pos = 1 /\ Right(Recs[k]) /\ pos' = 2 /\ UNCHANGED k
        \/ pos = 2 /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
