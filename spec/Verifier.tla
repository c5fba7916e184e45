------------------------------- MODULE Verifier -------------------------------
(***************************************************************************)
(* What verification accepts, symbolically: the algorithms of XmssAlg over *)
(* free terms (hash functions without collisions), and an adversary who    *)
(* holds honest signatures of two keys and recombines their parts, goes on *)
(* along one-time chains, exchanges whole layers, changes index, message   *)
(* and public key.  Invariant: whatever the verifier accepts under a key   *)
(* is a signed message that this key made.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

CONSTANTS
  Checksum,      \* TRUE: as in WOTS+; FALSE: a negative control
  BindIndex,     \* TRUE: tree and leaf come from the index; FALSE: negative control (addresses ignored)
  MaxSteps,      \* manipulations in a row
  Wide           \* FALSE: a smaller pool of replacements

p == [d |-> 2, th |-> 1, w |-> 2, len1 |-> 3, len2 |-> 2, len |-> 5]

\* Three base-2 digits of a value and their checksum.
Bits3(x) == <<(x \div 4) % 2, (x \div 2) % 2, x % 2>>
Num(v) == TLCFP(v) % 8
Dig(pp, v) ==
  LET b == Bits3(Num(v))
      cs == (1 - b[1]) + (1 - b[2]) + (1 - b[3])
  IN b \o (IF Checksum THEN <<cs \div 2, cs % 2>> ELSE <<0, 0>>)

RECURSIVE Value(_)
Value(bits) == IF bits = <<>> THEN 0 ELSE Head(bits) + 2 * Value(Tail(bits))
Adr(a) == IF BindIndex THEN <<a.layer, a.tree, a.type, a.w4, a.w5, a.w6>> ELSE <<a.w5, a.w6>>
MIdx(idx) == IF BindIndex THEN Value(idx) ELSE 0
A == INSTANCE XmssAlg WITH
  FOp <- LAMBDA pp, seed, a, x : <<"F", seed, Adr(a), x>>,
  HOp <- LAMBDA pp, seed, a, l, r : <<"H", seed, Adr(a), l, r>>,
  SkOp <- LAMBDA pp, sk, seed, a : <<"S", sk, seed, Adr(a)>>,
  ROp <- LAMBDA pp, prf, idx : <<"R", prf, idx>>,
  MOp <- LAMBDA pp, R, root, idx, M : <<"M", R, root, MIdx(idx), M>>,
  DigitsOp <- Dig,
  TreeOp <- LAMBDA bits : Value(bits)

KeyOf(i) == [skseed |-> <<"sk", i>>, skprf |-> <<"prf", i>>, seed |-> <<"seed", i>>]
Roots == [i \in 1..2 |-> TLCEval(A!KeyRoot(p, KeyOf(i)))]
Pk(i) == [root |-> Roots[i], seed |-> KeyOf(i).seed]

\* The index as bits; from 4 on there is no such one-time key.
Idx(i) == <<i % 2, (i \div 2) % 2>> \o (IF i > 3 THEN <<1>> ELSE <<>>)
Messages == { <<"msg", i>> : i \in 1..3 }

\* The honest signatures: key 1 at every index, key 2 at index 0.
Made == << <<1, 0, 1>>, <<1, 1, 2>>, <<1, 2, 1>>, <<1, 3, 3>>, <<2, 0, 1>> >>
Honest == TLCEval([i \in 1..Len(Made) |->
   [key |-> Made[i][1], M |-> <<"msg", Made[i][3]>>,
    sg |-> A!SignAlg(p, KeyOf(Made[i][1]), Roots[Made[i][1]], Idx(Made[i][2]), <<"msg", Made[i][3]>>)]])

VARIABLES pk, sg, M, from, steps
vars == <<pk, sg, M, from, steps>>

Init == /\ from \in 1..Len(Made) /\ steps = 0
        /\ sg = Honest[from].sg /\ M = Honest[from].M /\ pk = Pk(Honest[from].key)

Others == IF Wide THEN 1..Len(Made) ELSE {1, 2, 5}
Junk == <<"junk">>
Nodes ==   \* replacements for a single node
  {Junk} \cup UNION { { Honest[i].sg.layers[l].wots[c] : c \in 1..p.len, l \in 1..p.d }
                      \cup { Honest[i].sg.layers[l].auth[h] : h \in 1..p.th, l \in 1..p.d } : i \in Others }
         \cup { Roots[1], Roots[2] }

Keep == UNCHANGED <<from>> /\ steps' = steps + 1
ChangeIdx == /\ \E i \in 0..7 : sg' = [sg EXCEPT !.idx = Idx(i)]
             /\ UNCHANGED <<pk, M>> /\ Keep
ChangeR == /\ \E i \in Others \cup {0} : sg' = [sg EXCEPT !.R = IF i = 0 THEN Junk ELSE Honest[i].sg.R]
           /\ UNCHANGED <<pk, M>> /\ Keep
ChangeM == /\ M' \in Messages \cup {<<"msg", 0>>} /\ UNCHANGED <<pk, sg>> /\ Keep
ChangePk == /\ \/ \E i \in 1..2 : pk' = Pk(i)
               \/ pk' = [pk EXCEPT !.root = Junk] \/ pk' = [pk EXCEPT !.seed = Junk]
            /\ UNCHANGED <<sg, M>> /\ Keep
ChangeChain == /\ \E l \in 1..p.d, c \in 1..p.len, x \in Nodes : sg' = [sg EXCEPT !.layers[l].wots[c] = x]
               /\ UNCHANGED <<pk, M>> /\ Keep
ChangeAuth == /\ \E l \in 1..p.d, h \in 1..p.th, x \in Nodes : sg' = [sg EXCEPT !.layers[l].auth[h] = x]
              /\ UNCHANGED <<pk, M>> /\ Keep
ChangeLayer == /\ \E l \in 1..p.d, i \in Others, j \in 1..p.d :
                     \/ sg' = [sg EXCEPT !.layers[l] = Honest[i].sg.layers[j]]
                     \/ sg' = [sg EXCEPT !.layers[l].wots = Honest[i].sg.layers[j].wots]
                     \/ sg' = [sg EXCEPT !.layers[l].auth = Honest[i].sg.layers[j].auth]
               /\ UNCHANGED <<pk, M>> /\ Keep
\* A forgery for another message with the same one-time key: go on along the
\* chains wherever that message's digits are not smaller.
Forge ==
  /\ \E m \in Messages \cup { <<"try", i>> : i \in 1..(IF Wide THEN 24 ELSE 8) } :
       LET v0 == <<"M", sg.R, pk.root, MIdx(sg.idx), M>>
           v1 == <<"M", sg.R, pk.root, MIdx(sg.idx), m>>
           d0 == Dig(p, v0)
           d1 == Dig(p, v1)
           adrs == A!OtsAdrs(0, A!TreeAt(p, sg.idx, 0), A!LeafAt(p, sg.idx, 0))
       IN /\ Num(v0) # Num(v1)
          /\ M' = m
          /\ sg' = [sg EXCEPT !.layers[1].wots =
                [c \in 1..p.len |-> IF d1[c] >= d0[c]
                                    THEN A!Chain(p, pk.seed, adrs, c-1, sg.layers[1].wots[c], d0[c], d1[c] - d0[c])
                                    ELSE sg.layers[1].wots[c]]]
  /\ UNCHANGED pk /\ Keep

\* A key of the adversary's own, under somebody else's public seed, signing as if it
\* had that public key's root.
OwnKey ==
  /\ \E i \in 0..3, m \in Messages :
       /\ sg' = A!SignAlg(p, [skseed |-> <<"sk", 3>>, skprf |-> <<"prf", 3>>, seed |-> pk.seed], pk.root, Idx(i), m)
       /\ M' = m
  /\ UNCHANGED pk /\ Keep

Next == /\ steps < MaxSteps
        /\ \/ ChangeIdx \/ ChangeR \/ ChangeM \/ ChangePk
           \/ ChangeChain \/ ChangeAuth \/ ChangeLayer \/ Forge \/ OwnKey
Spec == Init /\ [][Next]_vars

Accept == A!VerifyAlg(p, pk, M, sg)

\* What the layers of an accepted signature sign: the message digest, then the
\* roots of the trees below.  Digests are three bits here; a signature that
\* reuses a one-time signature because two different values have the same
\* digest is a collision of the (real) hash function, not a weakness of the
\* scheme, and is not counted.
Signs(key, M0, s) ==
  LET v0 == TLCEval(<<"M", s.R, key.root, MIdx(s.idx), M0>>)
      v1 == TLCEval(A!RootFromLayers([p EXCEPT !.d = 1], key.seed, s, v0, 0))
  IN <<v0, v1>>
Collision == \E i \in 1..Len(Made) :
   LET hk == Pk(Honest[i].key)
       a == Signs(pk, M, sg)
       b == Signs(hk, Honest[i].M, Honest[i].sg)
   IN /\ hk.seed = pk.seed
      /\ \/ sg.idx = Honest[i].sg.idx /\ a[1] # b[1] /\ Num(a[1]) = Num(b[1])
         \/ sg.idx[2] = Honest[i].sg.idx[2] /\ a[2] # b[2] /\ Num(a[2]) = Num(b[2])

\* C04
OnlyHonest == Accept => \/ \E i \in 1..Len(Made) :
                             Pk(Honest[i].key) = pk /\ Honest[i].sg = sg /\ Honest[i].M = M
                        \/ Collision
HonestAccepted == steps = 0 => Accept
=============================================================================
