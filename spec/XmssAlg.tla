------------------------------- MODULE XmssAlg -------------------------------
(***************************************************************************)
(* The algorithms of RFC 8391 (WOTS+, L-trees, Merkle trees, hypertree,    *)
(* XMSS and XMSS^MT signing and verification), over abstract hash          *)
(* operators.  Two instances exist: XmssRfc (the byte-level functions of   *)
(* the standards) and Verifier (free terms, for model checking).           *)
(*                                                                         *)
(* p is a parameter record (XmssParams!Derive).  Addresses are records     *)
(* [layer, tree, type, ots/ltree, ...]; indices and tree numbers are       *)
(* little-endian bit sequences (Crypto).                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Crypto, TLC

CONSTANTS
  FOp(_, _, _, _),        \* p, SEED, adrs, x        chaining function
  HOp(_, _, _, _, _),     \* p, SEED, adrs, l, r     tree hash
  SkOp(_, _, _, _),       \* p, SK_SEED, SEED, adrs  start of a WOTS+ chain
  ROp(_, _, _),           \* p, SK_PRF, idx          randomizer
  MOp(_, _, _, _, _),     \* p, R, root, idx, M      message hash
  DigitsOp(_, _),         \* p, value                base-w digits and checksum
  TreeOp(_)               \* bits                    a tree number as it appears in addresses

OtsAdrs(layer, tree, leaf) ==
  [layer |-> layer, tree |-> TreeOp(tree), type |-> 0, w4 |-> leaf, w5 |-> 0, w6 |-> 0]
LtreeAdrs(layer, tree, leaf) ==
  [layer |-> layer, tree |-> TreeOp(tree), type |-> 1, w4 |-> leaf, w5 |-> 0, w6 |-> 0]
NodeAdrs(layer, tree) ==
  [layer |-> layer, tree |-> TreeOp(tree), type |-> 2, w4 |-> 0, w5 |-> 0, w6 |-> 0]

Range1(n) == [i \in 1..n |-> i]

\* s steps of chain c from position i
Chain(p, seed, adrs, c, x, i, s) ==
  FoldLeft(LAMBDA acc, j : FOp(p, seed, [adrs EXCEPT !.w5 = c, !.w6 = i + j - 1], acc),
           x, Range1(s))

ChainStart(p, skseed, seed, adrs, c) == SkOp(p, skseed, seed, [adrs EXCEPT !.w5 = c])

WotsPk(p, skseed, seed, adrs) ==
  TLCEval([c \in 1..p.len |->
     Chain(p, seed, adrs, c-1, ChainStart(p, skseed, seed, adrs, c-1), 0, p.w - 1)])

WotsSign(p, skseed, seed, adrs, v) ==
  LET dg == TLCEval(DigitsOp(p, v))
  IN TLCEval([c \in 1..p.len |->
        Chain(p, seed, adrs, c-1, ChainStart(p, skseed, seed, adrs, c-1), 0, dg[c])])

WotsPkFromSig(p, seed, adrs, v, sig) ==
  LET dg == TLCEval(DigitsOp(p, v))
  IN TLCEval([c \in 1..p.len |->
        Chain(p, seed, adrs, c-1, sig[c], dg[c], p.w - 1 - dg[c])])

RECURSIVE LtreeUp(_, _, _, _, _)
LtreeUp(p, seed, adrs, nodes, height) ==
  IF Len(nodes) = 1 THEN nodes[1]
  ELSE LET l == Len(nodes)
           up == TLCEval([i \in 1..((l + 1) \div 2) |->
                    IF 2*i <= l
                    THEN HOp(p, seed, [adrs EXCEPT !.w5 = height, !.w6 = i-1],
                             nodes[2*i - 1], nodes[2*i])
                    ELSE nodes[l]])
       IN LtreeUp(p, seed, adrs, up, height + 1)

Ltree(p, seed, adrs, nodes) == LtreeUp(p, seed, adrs, nodes, 0)

Leaf(p, skseed, seed, layer, tree, leaf) ==
  Ltree(p, seed, LtreeAdrs(layer, tree, leaf),
        WotsPk(p, skseed, seed, OtsAdrs(layer, tree, leaf)))

\* All levels of a tree: element k+1 is the sequence of nodes of height k.
RECURSIVE LevelsUp(_, _, _, _)
LevelsUp(p, seed, adrs, levels) ==
  LET k == Len(levels) - 1
      nodes == levels[k + 1]
  IN IF Len(nodes) = 1 THEN levels
     ELSE LevelsUp(p, seed, adrs,
            Append(levels, TLCEval([i \in 1..(Len(nodes) \div 2) |->
               HOp(p, seed, [adrs EXCEPT !.w5 = k, !.w6 = i-1], nodes[2*i - 1], nodes[2*i])])))

Levels(p, skseed, seed, layer, tree) ==
  LevelsUp(p, seed, NodeAdrs(layer, tree),
           << TLCEval([i \in 1..(2^p.th) |-> Leaf(p, skseed, seed, layer, tree, i-1)]) >>)

TreeRoot(p, levels) == levels[p.th + 1][1]

AuthPath(p, levels, leaf) ==
  [k \in 1..p.th |->
     LET i == leaf \div 2^(k-1)
         sib == IF i % 2 = 0 THEN i + 1 ELSE i - 1
     IN levels[k][sib + 1]]

RootFromAuth(p, seed, layer, tree, leaf, node, auth) ==
  LET adrs == NodeAdrs(layer, tree)
  IN FoldLeft(LAMBDA acc, k :
         LET i == leaf \div 2^(k-1)
             a == [adrs EXCEPT !.w5 = k-1, !.w6 = i \div 2]
         IN IF i % 2 = 0 THEN HOp(p, seed, a, acc, auth[k]) ELSE HOp(p, seed, a, auth[k], acc),
       node, Range1(p.th))

(***************************************************************************)
(* Index -> which tree and leaf are used on layer i (0 is the bottom).     *)
(***************************************************************************)
LeafAt(p, idx, i) == LowVal(ShiftRight(idx, p.th * i), p.th)
TreeAt(p, idx, i) == ShiftRight(idx, p.th * (i + 1))

(***************************************************************************)
(* A signature: [idx, R, layers: Seq([wots, auth])].                       *)
(***************************************************************************)

\* The root that the layers i.. of signature sg lead to, starting from value v.
RECURSIVE RootFromLayers(_, _, _, _, _)
RootFromLayers(p, seed, sg, v, i) ==
  IF i = p.d THEN v
  ELSE LET tree == TLCEval(TreeAt(p, sg.idx, i))
           leaf == LeafAt(p, sg.idx, i)
           wpk  == WotsPkFromSig(p, seed, OtsAdrs(i, tree, leaf), v, sg.layers[i+1].wots)
           lf   == Ltree(p, seed, LtreeAdrs(i, tree, leaf), wpk)
       IN RootFromLayers(p, seed, sg,
            TLCEval(RootFromAuth(p, seed, i, tree, leaf, lf, sg.layers[i+1].auth)), i + 1)

VerifyAlg(p, pk, M, sg) ==
  RootFromLayers(p, pk.seed, sg, TLCEval(MOp(p, sg.R, pk.root, sg.idx, M)), 0) = pk.root

\* Key: [skseed, skprf, seed].  The public root.
KeyRoot(p, key) == LET lv == TLCEval(Levels(p, key.skseed, key.seed, p.d - 1, <<>>)) IN TreeRoot(p, lv)

RECURSIVE SignLayers(_, _, _, _, _)
SignLayers(p, key, idx, v, i) ==
  IF i = p.d THEN <<>>
  ELSE LET tree == TLCEval(TreeAt(p, idx, i))
           leaf == LeafAt(p, idx, i)
           lv   == TLCEval(Levels(p, key.skseed, key.seed, i, tree))
       IN << [wots |-> WotsSign(p, key.skseed, key.seed, OtsAdrs(i, tree, leaf), v),
              auth |-> AuthPath(p, lv, leaf)] >>
          \o SignLayers(p, key, idx, TreeRoot(p, lv), i + 1)

\* The one signature of M at index idx under `key' (with public root `root').
SignAlg(p, key, root, idx, M) ==
  LET R == ROp(p, key.skprf, idx)
  IN [idx |-> idx, R |-> R,
      layers |-> SignLayers(p, key, idx, TLCEval(MOp(p, R, root, idx, M)), 0)]
=============================================================================
