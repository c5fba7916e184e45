----------------------------- MODULE XmssParams -----------------------------
(***************************************************************************)
(* The parameter sets of RFC 8391 (section 5.3/5.4, tables) and NIST SP    *)
(* 800-208 (sections 5.1-5.4): name, identifier, hash function, output     *)
(* length n, total height h, layers d; w = 16 throughout.  Everything else *)
(* is derived.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Length of the padded domain separator in front of every hash input.
PadLen(n) == IF n = 24 THEN 4 ELSE n

\* Which primitive a (family, n) pair stands for.
HashAlg(func, n) ==
  CASE func = "SHA2" /\ n = 64 -> "SHA512"
    [] func = "SHA2" /\ n # 64 -> "SHA256"
    [] func = "SHAKE128"       -> "SHAKE128"
    [] func = "SHAKE256"       -> "SHAKE256"

Log2(w) == CASE w = 4 -> 2 [] w = 16 -> 4 [] w = 256 -> 8

RECURSIVE DigitsNeeded(_, _)
DigitsNeeded(v, w) == IF v = 0 THEN 0 ELSE 1 + DigitsNeeded(v \div w, w)

Len1(n, w) == (8*n + Log2(w) - 1) \div Log2(w)
\* floor(log_w(len1*(w-1))) + 1
Len2(n, w) == DigitsNeeded(Len1(n, w) * (w - 1), w)

IndexBytes(mt, h) == IF mt THEN (h + 7) \div 8 ELSE 4

Derive(mt, func, n, w, h, d) ==
  LET l1 == Len1(n, w)
      l2 == Len2(n, w)
      ib == IndexBytes(mt, h)
  IN [mt |-> mt, func |-> func, alg |-> HashAlg(func, n), n |-> n, w |-> w, logw |-> Log2(w),
      pad |-> PadLen(n), h |-> h, d |-> d, th |-> h \div d,
      len1 |-> l1, len2 |-> l2, len |-> l1 + l2,
      wots_bytes |-> (l1 + l2) * n,
      index_bytes |-> ib,
      sig_bytes |-> ib + n + d * (l1 + l2) * n + h * n,
      pk_bytes |-> 2 * n,
      \* the regular fields of a secret key: idx, SK_SEED, SK_PRF, root, PUB_SEED
      sk_min |-> ib + 4 * n]

(***************************************************************************)
(* The registries.  An entry: <<name, oid, func, n, h, d>>.                *)
(***************************************************************************)
XmssHeights == <<10, 16, 20>>
XmssBlock(base, infix, bits, func, n) ==
  [i \in 1..3 |-> <<"XMSS-" \o infix \o "_" \o ToString(XmssHeights[i]) \o "_" \o bits,
                    base + i - 1, func, n, XmssHeights[i], 1>>]

XmssTable ==
     XmssBlock( 1, "SHA2",     "256", "SHA2",     32)
  \o XmssBlock( 4, "SHA2",     "512", "SHA2",     64)
  \o XmssBlock( 7, "SHAKE",    "256", "SHAKE128", 32)
  \o XmssBlock(10, "SHAKE",    "512", "SHAKE256", 64)
  \o XmssBlock(13, "SHA2",     "192", "SHA2",     24)
  \o XmssBlock(16, "SHAKE256", "256", "SHAKE256", 32)
  \o XmssBlock(19, "SHAKE256", "192", "SHAKE256", 24)

MtShapes == << <<20, 2>>, <<20, 4>>, <<40, 2>>, <<40, 4>>, <<40, 8>>,
               <<60, 3>>, <<60, 6>>, <<60, 12>> >>
MtBlock(base, infix, bits, func, n) ==
  [i \in 1..8 |-> <<"XMSSMT-" \o infix \o "_" \o ToString(MtShapes[i][1]) \o "/"
                       \o ToString(MtShapes[i][2]) \o "_" \o bits,
                    base + i - 1, func, n, MtShapes[i][1], MtShapes[i][2]>>]

MtTable ==
     MtBlock( 1, "SHA2",     "256", "SHA2",     32)
  \o MtBlock( 9, "SHA2",     "512", "SHA2",     64)
  \o MtBlock(17, "SHAKE",    "256", "SHAKE128", 32)
  \o MtBlock(25, "SHAKE",    "512", "SHAKE256", 64)
  \o MtBlock(33, "SHA2",     "192", "SHA2",     24)
  \o MtBlock(41, "SHAKE256", "256", "SHAKE256", 32)
  \o MtBlock(49, "SHAKE256", "192", "SHAKE256", 24)

Entries(mt) == LET t == IF mt THEN MtTable ELSE XmssTable IN { t[i] : i \in 1..Len(t) }

\* Refused names and identifiers are mapped to Unknown.
Unknown == [known |-> FALSE]

OidOfName(mt, name) ==
  LET S == { e \in Entries(mt) : e[1] = name }
  IN IF S = {} THEN Unknown ELSE [known |-> TRUE, oid |-> (CHOOSE e \in S : TRUE)[2]]

ParamsOfOid(mt, oid) ==
  LET S == { e \in Entries(mt) : e[2] = oid }
  IN IF S = {} THEN Unknown
     ELSE LET e == CHOOSE x \in S : TRUE
          IN [known |-> TRUE, name |-> e[1], p |-> Derive(mt, e[3], e[4], 16, e[5], e[6])]

(***************************************************************************)
(* Consistency of the tables themselves (checked by TLC as an assumption). *)
(***************************************************************************)
TablesSane ==
  \A mt \in {TRUE, FALSE} :
     LET E == Entries(mt)
     IN /\ Cardinality(E) = IF mt THEN 56 ELSE 21
        /\ Cardinality({ e[1] : e \in E }) = Cardinality(E)
        /\ Cardinality({ e[2] : e \in E }) = Cardinality(E)
        /\ { e[2] : e \in E } = 1..Cardinality(E)
        /\ \A e \in E : /\ e[5] % e[6] = 0
                        /\ LET p == Derive(mt, e[3], e[4], 16, e[5], e[6])
                           IN /\ p.h <= 8 * p.index_bytes
                              /\ p.len1 * p.logw = 8 * p.n
                              \* RFC 8391 table values
                              /\ p.len = CASE p.n = 24 -> 51 [] p.n = 32 -> 67 [] p.n = 64 -> 131
                              \* the hash prefix fits in the signature in front of the message
                              /\ p.pad + 3 * p.n <= p.sig_bytes
=============================================================================
