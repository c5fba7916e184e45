-------------------------------- MODULE BdsOps --------------------------------
(***************************************************************************)
(* The state-keeping signer: Buchmann-Dahmen-Szydlo traversal of every     *)
(* layer's current tree, incremental construction of every layer's next    *)
(* tree, and the tree switches that connect them (the algorithm of         *)
(* xmss_core_fast.c).                                                      *)
(*                                                                         *)
(* Hash values are symbolic: <<layer, tree, height, index>> is the node of *)
(* that position, and whatever results from combining nodes that are not   *)
(* the two children of that node is Bad.  A configuration c is a record    *)
(* [th, d, k, h]: tree height, layers, BDS parameter, total height.        *)
(* h may be larger than 31 as long as the indices visited are not.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* TRUE brings back a defect the code had (see DESIGN.md): updates spent on
\* next trees that are complete already.
CONSTANT OldStarvation

Bad == <<-1, -1, -1, -1>>
Node(l, t, hh, i) == <<l, t, hh, i>>
Combine(l, t, hh, i, a, b) ==
  IF a = Node(l, t, hh, 2*i) /\ b = Node(l, t, hh, 2*i + 1) THEN Node(l, t, hh + 1, i) ELSE Bad

Pow2(i) == 2^i
Bit(x, i) == (x \div 2^i) % 2
Min2(a, b) == IF a < b THEN a ELSE b

\* Number of trees on layer i is 2^(h - th*(i+1)); is there one after tree t?
HasNext(c, i, t) ==
  LET e == c.h - c.th * (i + 1) IN (e >= 30) \/ (t + 1 < 2^e)

LeafIdx(c, idx, i) == IF c.th * i >= 31 THEN 0 ELSE (idx \div 2^(c.th * i)) % 2^c.th
TreeIdx(c, idx, i) == IF c.th * (i + 1) >= 31 THEN 0 ELSE idx \div 2^(c.th * (i + 1))
TreeLeaves(c) == 2^c.th
Small(c) == c.th - c.k           \* number of treehash instances
NumRetain(c) == 2^c.k - c.k - 1

NoTreehash == [hh |-> 0, next |-> 0, usage |-> 0, done |-> TRUE, node |-> Bad]

EmptyState(c) ==
  [stack |-> <<>>,                              \* <<level, node>>, last is top
   auth |-> [i \in 1..c.th |-> Bad],
   keep |-> [i \in 1..(c.th \div 2) |-> Bad],
   tre |-> [i \in 1..Small(c) |-> NoTreehash],
   retain |-> [i \in 1..NumRetain(c) |-> Bad],
   next |-> 0,
   fits |-> TRUE]                               \* no index ever left its array

Top(s) == s[Len(s)]
RetainPos(c, nodeh, leafAtH) ==
  2^(c.th - 1 - nodeh) + nodeh - c.th + ((leafAtH - 3) \div 2) + 1

(***************************************************************************)
(* One more leaf for a tree under construction.  Nodes that the first      *)
(* authentication paths need are put where the traversal expects them.     *)
(***************************************************************************)
StoreNode(c, st, idx, nodeh, node) ==
  LET q == idx \div 2^nodeh
  IN IF q = 1 THEN [st EXCEPT !.auth[nodeh + 1] = node]
     ELSE IF nodeh < Small(c)
          THEN IF q = 3 THEN [st EXCEPT !.tre[nodeh + 1].node = node] ELSE st
          ELSE LET pos == RetainPos(c, nodeh, q)
               IN IF pos \in 1..NumRetain(c)
                  THEN [st EXCEPT !.retain[pos] = node]
                  ELSE [st EXCEPT !.fits = FALSE]

RECURSIVE MergeUp(_, _, _, _, _)
MergeUp(c, st, l, t, idx) ==
  LET s == st.stack
      n == Len(s)
  IN IF n > 1 /\ s[n][1] = s[n-1][1]
     THEN LET nodeh == s[n][1]
              st1 == StoreNode(c, st, idx, nodeh, s[n][2])
              par == <<nodeh + 1, Combine(l, t, nodeh, idx \div 2^(nodeh + 1), s[n-1][2], s[n][2])>>
          IN MergeUp(c, [st1 EXCEPT !.stack = Append(SubSeq(s, 1, n-2), par)], l, t, idx)
     ELSE st

\* One leaf of the next tree; nothing to do when it is complete.
StateUpdate(c, st, l, t) ==
  IF st.next = TreeLeaves(c) THEN st
  ELSE LET idx == st.next
           st1 == [st EXCEPT !.stack = Append(@, <<0, Node(l, t, 0, idx)>>),
                             !.fits = @ /\ Len(st.stack) + 1 <= c.th + 1]
       IN [MergeUp(c, st1, l, t, idx) EXCEPT !.next = @ + 1]

RECURSIVE BuildTree(_, _, _, _)
BuildTree(c, st, l, t) ==
  IF st.next = TreeLeaves(c) THEN st ELSE BuildTree(c, StateUpdate(c, st, l, t), l, t)

\* Key generation: the whole first tree of a layer.
InitTree(c, l) == BuildTree(c, EmptyState(c), l, 0)

(***************************************************************************)
(* One leaf for treehash instance j (1-based, height j-1).                 *)
(***************************************************************************)
RECURSIVE ThMerge(_, _, _, _, _, _, _)
ThMerge(st, j, l, t, node, nodeh, usage) ==
  LET s == st.stack
      n == Len(s)
      th == st.tre[j]
  IN IF usage > 0 /\ n > 0 /\ s[n][1] = nodeh
     THEN ThMerge([st EXCEPT !.stack = SubSeq(s, 1, n-1)], j, l, t,
                  Combine(l, t, nodeh, th.next \div 2^(nodeh + 1), s[n][2], node),
                  nodeh + 1, usage - 1)
     ELSE [st |-> st, node |-> node, nodeh |-> nodeh, usage |-> usage]

TreehashUpdate(c, st, j, l, t) ==
  LET th == st.tre[j]
      r == ThMerge(st, j, l, t, Node(l, t, 0, th.next), 0, th.usage)
  IN IF r.nodeh = th.hh
     THEN [r.st EXCEPT !.tre[j].node = r.node, !.tre[j].done = TRUE, !.tre[j].usage = r.usage]
     ELSE [r.st EXCEPT !.stack = Append(@, <<r.nodeh, r.node>>),
                       !.tre[j].usage = r.usage + 1,
                       !.tre[j].next = @ + 1,
                       !.fits = @ /\ Len(r.st.stack) + 1 <= c.th + 1]

\* Lowest node of instance j on the shared stack
MinHeight(c, st, j) ==
  LET s == st.stack
      u == st.tre[j].usage
      S == { s[Len(s) - i][1] : i \in 0..(u - 1) }
  IN IF S = {} THEN c.th ELSE CHOOSE x \in S : \A y \in S : x <= y

LowOf(c, st, j) ==
  IF st.tre[j].done THEN c.th
  ELSE IF st.tre[j].usage = 0 THEN j - 1
  ELSE MinHeight(c, st, j)

\* Spend up to `updates' leaf computations on the instance that needs it most.
RECURSIVE TreehashUpdates(_, _, _, _, _)
TreehashUpdates(c, st, updates, l, t) ==
  IF updates = 0 THEN [st |-> st, updates |-> 0, used |-> 0]
  ELSE LET cand == { j \in 1..Small(c) : LowOf(c, st, j) < c.th }
       IN IF cand = {} THEN [st |-> st, updates |-> updates, used |-> 0]
          ELSE LET j == CHOOSE x \in cand :
                          \A y \in cand : \/ LowOf(c, st, x) < LowOf(c, st, y)
                                          \/ LowOf(c, st, x) = LowOf(c, st, y) /\ x <= y
                   r == TreehashUpdates(c, TreehashUpdate(c, st, j, l, t), updates - 1, l, t)
               IN [r EXCEPT !.used = @ + 1]

(***************************************************************************)
(* The authentication path of the next leaf.                               *)
(***************************************************************************)
Tau(c, leaf) ==
  LET S == { i \in 0..(c.th - 1) : Bit(leaf, i) = 0 }
  IN IF S = {} THEN c.th ELSE CHOOSE x \in S : \A y \in S : x <= y

BdsRound(c, st, leaf, l, t) ==
  LET tau == Tau(c, leaf)
      oldAuth == IF tau > 0 THEN st.auth[tau] ELSE Bad
      oldKeep == IF tau > 0 THEN st.keep[((tau - 1) \div 2) + 1] ELSE Bad
      st1 == IF Bit(leaf, tau + 1) = 0 /\ tau < c.th - 1
             THEN [st EXCEPT !.keep[(tau \div 2) + 1] = st.auth[tau + 1]]
             ELSE st
  IN IF tau = 0 THEN [st1 EXCEPT !.auth[1] = Node(l, t, 0, leaf)]
     ELSE LET newTop == Combine(l, t, tau - 1, leaf \div 2^tau, oldAuth, oldKeep)
              FromRetain(i) ==
                LET pos == 2^(c.th - 1 - i) + i - c.th + (((leaf \div 2^i) - 1) \div 2) + 1
                IN IF pos \in 1..NumRetain(c) THEN st.retain[pos] ELSE Bad
              newAuth == [i \in 1..c.th |->
                  IF i = tau + 1 THEN newTop
                  ELSE IF i <= tau
                       THEN IF i - 1 < Small(c) THEN st.tre[i].node ELSE FromRetain(i - 1)
                       ELSE st.auth[i]]
              newTre == [i \in 1..Small(c) |->
                  LET start == leaf + 1 + 3 * 2^(i-1)
                  IN IF i <= Min2(tau, Small(c)) /\ start < TreeLeaves(c)
                     THEN [st.tre[i] EXCEPT !.hh = i-1, !.next = start, !.done = FALSE, !.usage = 0]
                     ELSE st.tre[i]]
          IN [st1 EXCEPT !.auth = newAuth, !.tre = newTre]

(***************************************************************************)
(* The whole signer.  S is [idx, cur, nxt, sigs, work]:                    *)
(*   cur[i+1]  the traversal state of layer i's current tree               *)
(*   nxt[i+1]  layer i's next tree under construction (i < d-1)            *)
(*   sigs[i]   <<i, tree, leaf, root of the tree below>>, i = 1..d-1: the  *)
(*             stored one-time signature on layer i                        *)
(*   work      [leaves, signs] spent by the last step                      *)
(***************************************************************************)
InitSigner(c) ==
  [idx |-> 0,
   cur |-> [i \in 1..c.d |-> InitTree(c, i-1)],
   nxt |-> [i \in 1..(c.d - 1) |-> EmptyState(c)],
   sigs |-> [i \in 1..(c.d - 1) |-> <<i, 0, 0, Node(i-1, 0, c.th, 0)>>],
   work |-> [leaves |-> 0, signs |-> 0]]

\* What the signature at S.idx contains.
Emitted(c, S) == [idx |-> S.idx,
                  auth |-> [i \in 1..c.d |-> S.cur[i].auth],
                  sigs |-> S.sigs]

\* What it has to contain.
TrueAuth(c, idx, i) ==
  LET leaf == LeafIdx(c, idx, i)
  IN [hh \in 1..c.th |->
        LET q == leaf \div 2^(hh - 1)
        IN Node(i, TreeIdx(c, idx, i), hh - 1, IF q % 2 = 0 THEN q + 1 ELSE q - 1)]

Due(c, idx) == [idx |-> idx,
                auth |-> [i \in 1..c.d |-> TrueAuth(c, idx, i-1)],
                sigs |-> [i \in 1..(c.d - 1) |->
                   <<i, TreeIdx(c, idx, i), LeafIdx(c, idx, i),
                     Node(i-1, TreeIdx(c, idx, i-1), c.th, 0)>>]]

Budget(c) == (c.th - c.k) \div 2

\* Single-tree keys: one round and the budget, except after the last leaf.
StepSingle(c, S) ==
  IF S.idx + 1 >= TreeLeaves(c) THEN [S EXCEPT !.idx = @ + 1, !.work = [leaves |-> 0, signs |-> 1]]
  ELSE LET st1 == BdsRound(c, S.cur[1], S.idx, 0, 0)
           r == TreehashUpdates(c, st1, Budget(c), 0, 0)
       IN [S EXCEPT !.idx = @ + 1, !.cur[1] = r.st,
                    !.work = [leaves |-> r.used + (IF Tau(c, S.idx) = 0 THEN 1 ELSE 0), signs |-> 1]]

\* The layers, bottom up.  swapped: the highest layer that switched trees, or -1.
RECURSIVE StepLayers(_, _, _, _, _)
StepLayers(c, S, i, updates, swapped) ==
  IF i = c.d THEN S
  ELSE
  LET n == S.idx
      full == IF c.th * (i + 1) >= 31 THEN FALSE ELSE (n + 1) % 2^(c.th * (i + 1)) = 0
      leaf == LeafIdx(c, n, i)
      t == TreeIdx(c, n, i)
  IN IF ~full
     THEN LET round == (i = swapped + 1)
              st1 == IF round THEN BdsRound(c, S.cur[i+1], leaf, i, t) ELSE S.cur[i+1]
              r == TreehashUpdates(c, st1, updates, i, t)
              grow == /\ i > 0 /\ i < c.d - 1 /\ HasNext(c, i, t)
                      /\ r.updates > 0 /\ (OldStarvation \/ S.nxt[i+1].next < TreeLeaves(c))
              S1 == [S EXCEPT !.cur[i+1] = r.st,
                       !.work.leaves = @ + r.used + (IF grow THEN 1 ELSE 0)
                                         + (IF round /\ Tau(c, leaf) = 0 THEN 1 ELSE 0)]
              S2 == IF grow THEN [S1 EXCEPT !.nxt[i+1] = StateUpdate(c, @, i, t + 1)] ELSE S1
          IN StepLayers(c, S2, i + 1, IF grow THEN r.updates - 1 ELSE r.updates, swapped)
     ELSE IF i < c.d - 1      \* (not after the very last signature)
     THEN LET new == S.nxt[i+1]
              root == IF Len(new.stack) > 0 THEN new.stack[1][2] ELSE Bad
              up == (n \div 2^(c.th * (i + 1))) + 1      \* the leaf of layer i+1 that signs it
              cur1 == [new EXCEPT !.tre = [j \in 1..Small(c) |-> [new.tre[j] EXCEPT !.done = TRUE]]]
              \* on the last signature of the key there is no tree to switch to
              S1 == [S EXCEPT !.cur[i+1] = cur1,
                              !.nxt[i+1] = [S.cur[i+1] EXCEPT !.stack = <<>>, !.next = 0],
                              !.sigs[i+1] = <<i+1, up \div 2^c.th, up % 2^c.th, root>>,
                              !.work.signs = @ + 1]
          IN StepLayers(c, S1, i + 1, IF updates > 0 THEN updates - 1 ELSE 0, i)
     ELSE S

StepMulti(c, S) ==
  LET n == S.idx
      t0 == TreeIdx(c, n, 0)
      last == c.h < 31 /\ n = 2^c.h - 1
      S0 == [S EXCEPT !.work = [leaves |-> 0, signs |-> 1]]
      grow0 == HasNext(c, 0, t0) /\ S.nxt[1].next < TreeLeaves(c)
      S1 == IF grow0
            THEN [S0 EXCEPT !.nxt[1] = StateUpdate(c, @, 0, t0 + 1), !.work.leaves = 1]
            ELSE S0
      S2 == IF last THEN S1 ELSE StepLayers(c, S1, 0, Budget(c), -1)
  IN [S2 EXCEPT !.idx = n + 1]

Step(c, S) == IF c.d = 1 THEN StepSingle(c, S) ELSE StepMulti(c, S)
=============================================================================
