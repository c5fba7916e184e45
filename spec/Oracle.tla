-------------------------------- MODULE Oracle --------------------------------
(***************************************************************************)
(* Recorded facts about the implementation against the byte-level          *)
(* definition (XmssRfc), and facts made from the definition for the        *)
(* implementation to be confronted with.                                   *)
(*                                                                         *)
(* Each line of the input is one record; each is judged in a step of its   *)
(* own, so that TLC's workers share the load.  A record that the           *)
(* definition contradicts leaves its behaviour stuck (deadlock).           *)
(***************************************************************************)
EXTENDS XmssRfc, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, pos
vars == <<k, pos>>
Rec == Recs[k]
Par(r) == Derive(r.mt, r.func, r.n, r.w, r.h, r.d)
Hx(s) == HexBytes(s)

Key(p, r) == LET s == TLCEval(ParseSk(p, Hx(r.sk)))
             IN [skseed |-> s.skseed, skprf |-> s.skprf, seed |-> s.seed, root |-> s.root, idx |-> s.idx]

\* Key generation: what the public key has to be for the seeds; both keys agree.
Keygen(r) ==
  LET p == TLCEval(Par(r))
      key == TLCEval(Key(p, r))
      pk == TLCEval(ParsePk(p, Hx(r.pk)))
  IN /\ Len(Hx(r.pk)) = p.pk_bytes
     /\ key.root = pk.root /\ key.seed = pk.seed
     /\ \A j \in 1..p.index_bytes : key.idx[j] = 0
     /\ pk.root = KeyRoot(p, key)

\* A key pair derived from a given seed: both keys in full.
SeedKeygen(r) ==
  LET p == TLCEval(Par(r))
      s == TLCEval(Hx(r.seed))
      key == TLCEval([skseed |-> Slice(s, 0, p.n), skprf |-> Slice(s, p.n, p.n), seed |-> Slice(s, 2 * p.n, p.n)])
      root == TLCEval(KeyRoot(p, key))
  IN /\ Len(s) = 3 * p.n
     /\ Hx(r.pk) = root \o key.seed
     /\ Hx(r.sk) = [j \in 1..p.index_bytes |-> 0] \o key.skseed \o key.skprf \o root \o key.seed

\* One signature in full, byte for byte (small trees).
Sign(r) ==
  LET p == TLCEval(Par(r))
      key == TLCEval(Key(p, r))
  IN Hx(r.sm) = SignedMessage(p, key, key.root, key.idx, Hx(r.m))

(***************************************************************************)
(* One signature without building trees: index, randomizer and every       *)
(* one-time signature are the prescribed ones, where the value that layer  *)
(* i+1 signs is the root that layer i's path leads to, and the last root   *)
(* is the public one.  (Paths other than the true ones would have to       *)
(* collide.)                                                               *)
(***************************************************************************)
RECURSIVE LayersRight(_, _, _, _, _)
LayersRight(p, key, sg, v, i) ==
  IF i = p.d THEN v = key.root
  ELSE LET tree == TLCEval(TreeAt(p, sg.idx, i))
           leaf == LeafAt(p, sg.idx, i)
           ots == OtsAdrs(i, tree, leaf)
       IN /\ sg.layers[i+1].wots = WotsSign(p, key.skseed, key.seed, ots, v)
          /\ LET wpk == WotsPkFromSig(p, key.seed, ots, v, sg.layers[i+1].wots)
                 lf == Ltree(p, key.seed, LtreeAdrs(i, tree, leaf), wpk)
             IN LayersRight(p, key, sg,
                  TLCEval(RootFromAuth(p, key.seed, i, tree, leaf, lf, sg.layers[i+1].auth)), i + 1)

Head1(p, key, r) ==       \* index, randomizer, length, message
  LET sm == TLCEval(Hx(r.sm))
      M == TLCEval(Hx(r.m))
      idx == TLCEval(BitsOf(key.idx))
  IN /\ Len(sm) = p.sig_bytes + Len(M)
     /\ Slice(sm, 0, p.index_bytes) = key.idx
     /\ Slice(sm, p.index_bytes, p.n) = Randomizer(p, key.skprf, idx)
     /\ Slice(sm, p.sig_bytes, Len(M)) = M

Digest(p, key, r) ==
  LET idx == TLCEval(BitsOf(key.idx))
  IN TLCEval(MsgHash(p, Randomizer(p, key.skprf, idx), key.root, idx, Hx(r.m)))

Parts(r) ==
  LET p == TLCEval(Par(r))
      key == TLCEval(Key(p, r))
  IN /\ Head1(p, key, r)
     /\ LayersRight(p, key, TLCEval(ParseSig(p, Hx(r.sm))), Digest(p, key, r), 0)

\* A signature by a key whose trees were never built: what does not depend on them.
Prefix(r) ==
  LET p == TLCEval(Par(r))
      key == TLCEval(Key(p, r))
      sg == TLCEval(ParseSig(p, Hx(r.sm)))
  IN /\ Head1(p, key, r)
     /\ sg.layers[1].wots =
          WotsSign(p, key.skseed, key.seed,
                   OtsAdrs(0, TLCEval(TreeAt(p, sg.idx, 0)), LeafAt(p, sg.idx, 0)), Digest(p, key, r))

\* A verdict of the implementation.
Verdict(r) == LET p == TLCEval(Par(r)) IN Accepts(p, Hx(r.pk), TLCEval(Hx(r.sm))) = r.ok

(***************************************************************************)
(* Sparse keys: valid signatures for trees of any height.  Every layer has *)
(* one leaf that is really there (the one the index selects); the          *)
(* authentication paths are arbitrary and define the roots.                *)
(***************************************************************************)
RECURSIVE SparseRoots(_, _, _, _, _)
SparseRoots(p, key, idx, auths, i) ==
  IF i = p.d THEN <<>>
  ELSE LET tree == TLCEval(TreeAt(p, idx, i))
           leaf == LeafAt(p, idx, i)
       IN << TLCEval(RootFromAuth(p, key.seed, i, tree, leaf,
                                  Leaf(p, key.skseed, key.seed, i, tree, leaf), auths[i+1])) >>
          \o SparseRoots(p, key, idx, auths, i + 1)

RECURSIVE SparseLayers(_, _, _, _, _, _)
SparseLayers(p, key, idx, auths, vals, i) ==
  IF i = p.d THEN <<>>
  ELSE << [wots |-> WotsSign(p, key.skseed, key.seed,
                             OtsAdrs(i, TLCEval(TreeAt(p, idx, i)), LeafAt(p, idx, i)), vals[i+1]),
           auth |-> auths[i+1]] >>
       \o SparseLayers(p, key, idx, auths, vals, i + 1)

Sparse(r) ==
  LET p == TLCEval(Par(r))
      idxb == TLCEval(Hx(r.idx))
      idx == TLCEval(BitsOf(idxb))
      key == TLCEval([skseed |-> Hx(r.skseed), skprf |-> Hx(r.skprf), seed |-> Hx(r.seed)])
      ab == TLCEval(Hx(r.auth))
      auths == TLCEval([i \in 1..p.d |-> Chunks(ab, (i-1) * p.th * p.n, p.th, p.n)])
      roots == TLCEval(SparseRoots(p, key, idx, auths, 0))
      root == roots[p.d]
      R == TLCEval(Hx(r.R))
      v0 == TLCEval(MsgHash(p, R, root, idx, Hx(r.m)))
      sg == [idx |-> idx, R |-> R, layers |-> SparseLayers(p, key, idx, auths, <<v0>> \o roots, 0)]
  IN JsonSerialize(IOEnv.OUT \o ToString(k) \o ".json",
       [id |-> r.id, pk |-> root \o key.seed, sm |-> SigBytes(p, sg) \o Hx(r.m)])

\* A one-time signature and public key on their own.
Wots1(r) ==
  LET p == TLCEval(Par(r))
      a == [layer |-> r.layer, tree |-> Hx(r.tree), type |-> 0, w4 |-> r.leaf, w5 |-> 0, w6 |-> 0]
      sk == TLCEval(Hx(r.skseed))
      seed == TLCEval(Hx(r.seed))
  IN /\ Hx(r.sig) = Concat(WotsSign(p, sk, seed, a, Hx(r.v)))
     /\ Hx(r.pk) = Concat(WotsPk(p, sk, seed, a))

Judge(r) ==
  "kind" \in DOMAIN r /\
  CASE r.kind = "keygen" -> Keygen(r)
    [] r.kind = "seedkeygen" -> SeedKeygen(r)
    [] r.kind = "sign" -> Sign(r)
    [] r.kind = "parts" -> Parts(r)
    [] r.kind = "prefix" -> Prefix(r)
    [] r.kind = "verdict" -> Verdict(r)
    [] r.kind = "wots1" -> Wots1(r)
    [] r.kind = "sparse" -> Sparse(r)
    [] OTHER -> FALSE          \* refused, crash, ...

\* (pos 0: not judged yet)
Init == k \in 1..Len(Recs) /\ pos = 0
Next == \/ pos = 0 /\ Judge(Rec) /\ pos' = 1 /\ UNCHANGED k
        \/ pos = 1 /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
ASSUME TablesSane
=============================================================================
