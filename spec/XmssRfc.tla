------------------------------- MODULE XmssRfc -------------------------------
(***************************************************************************)
(* The byte-level definition of XMSS / XMSS^MT: RFC 8391 with the hash     *)
(* constructions and key generation of NIST SP 800-208.  Evaluated by TLC, *)
(* this is the oracle that recorded keys, signatures and verdicts of the   *)
(* implementation are compared with.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Crypto, XmssParams, TLC

Word(i) == <<i \div 16777216, (i \div 65536) % 256, (i \div 256) % 256, i % 256>>
TreeBytes(bits) == TLCEval(BytesOf(bits, 8))
Separator(p, sep) == [i \in 1..p.pad |-> IF i = p.pad THEN sep ELSE 0]

\* ADRS (section 2.5): 32 bytes
AdrsBytes(a, keyAndMask) ==
     Word(a.layer) \o a.tree \o Word(a.type)
  \o Word(a.w4) \o Word(a.w5) \o Word(a.w6) \o Word(keyAndMask)

Core(p, sep, data) == CoreHash(p.alg, Separator(p, sep) \o data, p.n)

Prf(p, key, m) == Core(p, 3, key \o m)
PrfKeygen(p, key, m) == Core(p, 4, key \o m)

\* RFC 8391, 3.1.2 and 5.1: F keyed and masked
F(p, seed, a, x) ==
  Core(p, 0, Prf(p, seed, AdrsBytes(a, 0)) \o XorBytes(x, Prf(p, seed, AdrsBytes(a, 1))))

\* RAND_HASH, 4.1.4
RandHash(p, seed, a, l, r) ==
  Core(p, 1, Prf(p, seed, AdrsBytes(a, 0))
             \o XorBytes(l, Prf(p, seed, AdrsBytes(a, 1)))
             \o XorBytes(r, Prf(p, seed, AdrsBytes(a, 2))))

\* SP 800-208, 6.2 / algorithm 10'
SkElem(p, skseed, seed, a) == PrfKeygen(p, skseed, seed \o AdrsBytes(a, 0))

Randomizer(p, skprf, idx) == Prf(p, skprf, BytesOf(idx, 32))
MsgHash(p, R, root, idx, M) == Core(p, 2, R \o root \o BytesOf(idx, p.n) \o M)

(***************************************************************************)
(* Base-w digits (algorithm 1) and checksum (3.1.5) of an n-byte value.    *)
(***************************************************************************)
BaseW(p, bytes, outlen) ==
  LET per == 8 \div p.logw
  IN [i \in 1..outlen |->
        LET b == bytes[((i-1) \div per) + 1]
            s == (per - 1 - ((i-1) % per)) * p.logw
        IN (b \div 2^s) % p.w]

Csum(p, dg) == FoldLeft(LAMBDA acc, x : acc + (p.w - 1 - x), 0, dg)

Digits(p, v) ==
  LET dg == TLCEval(BaseW(p, v, p.len1))
      bits == p.len2 * p.logw
      shift == (8 - (bits % 8)) % 8
      cs == ToByte(Csum(p, dg) * 2^shift, (bits + 7) \div 8)
  IN dg \o BaseW(p, cs, p.len2)

INSTANCE XmssAlg WITH FOp <- F, HOp <- RandHash, SkOp <- SkElem, ROp <- Randomizer,
                      MOp <- MsgHash, DigitsOp <- Digits, TreeOp <- TreeBytes

(***************************************************************************)
(* Encodings (4.1.8, 4.2.3; Format of keys as documented by the code).     *)
(***************************************************************************)
Slice(b, off, n) == SubSeq(b, off + 1, off + n)
Chunks(b, off, count, n) == [i \in 1..count |-> Slice(b, off + (i-1)*n, n)]

ParseSig(p, b) ==
  [idx |-> BitsOf(Slice(b, 0, p.index_bytes)),
   R |-> Slice(b, p.index_bytes, p.n),
   layers |-> [i \in 1..p.d |->
      LET off == p.index_bytes + p.n + (i-1) * (p.wots_bytes + p.th * p.n)
      IN [wots |-> Chunks(b, off, p.len, p.n),
          auth |-> Chunks(b, off + p.wots_bytes, p.th, p.n)]]]

Concat(seq) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, seq)

SigBytes(p, sg) ==
  BytesOf(sg.idx, p.index_bytes) \o sg.R
    \o Concat([i \in 1..p.d |-> Concat(sg.layers[i].wots) \o Concat(sg.layers[i].auth)])

ParsePk(p, b) == [root |-> Slice(b, 0, p.n), seed |-> Slice(b, p.n, p.n)]

\* idx || SK_SEED || SK_PRF || root || PUB_SEED || (signer state)
ParseSk(p, b) ==
  [idx |-> Slice(b, 0, p.index_bytes),
   skseed |-> Slice(b, p.index_bytes, p.n),
   skprf |-> Slice(b, p.index_bytes + p.n, p.n),
   root |-> Slice(b, p.index_bytes + 2*p.n, p.n),
   seed |-> Slice(b, p.index_bytes + 3*p.n, p.n)]

\* The definition's verdict on a whole signed message.
Accepts(p, pkb, sm) ==
  /\ Len(sm) >= p.sig_bytes
  /\ VerifyAlg(p, ParsePk(p, pkb), Slice(sm, p.sig_bytes, Len(sm) - p.sig_bytes), ParseSig(p, sm))

\* The whole signed message the definition prescribes.
SignedMessage(p, key, root, idxBytes, M) ==
  SigBytes(p, SignAlg(p, key, root, BitsOf(idxBytes), M)) \o M
=============================================================================
