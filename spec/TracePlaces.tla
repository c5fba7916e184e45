------------------------------ MODULE TracePlaces ------------------------------
(***************************************************************************)
(* The hash calls of a key's recorded life, gathered by address, against   *)
(* Places.  Events, in strictly increasing order of <<dom, a>>:            *)
(*   at   [dom, a, at]  what was hashed under addresses that start with    *)
(*        a = <<layer, 4 x 16 bits of tree number, type, word 4>>:         *)
(*        at = <<word 5, word 6, what>>, strictly increasing;  what is     *)
(*        numbered (equal numbers: equal inputs).  dom 4 (chain secrets):  *)
(*        <<word 5, word 6, word 7, own>>, own: the chain does start there *)
(*   sign [i, ok]       a signature was made and accepted (after the rest):*)
(*        its index has selected one-time keys that are among those seen   *)
(*   odd  [n]           hash calls that are none of these                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Keys == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, pos, last, otks, used, signed
\* last: group seen last; otks: one-time keys whose secrets were derived
vars == <<k, pos, last, otks, used, signed>>
Key == Keys[k]
Ev == Key.ev[pos]
C == INSTANCE Crypto
P == INSTANCE Places WITH D <- 1, TH <- 1, LEN <- 1, WW <- 2, Base <- 65536, Digits <- 4, Mode <- "good"
Par == [d |-> Key.d, th |-> Key.th, len |-> Key.len, w |-> Key.w]

Init == /\ k \in 1..Len(Keys) /\ pos = 1 /\ last = <<>> /\ otks = {}
        /\ used = {} /\ signed = {}

RECURSIVE Less(_, _, _)
Less(a, b, j) == IF j > Len(a) THEN j <= Len(b)
                 ELSE a[j] < b[j] \/ (a[j] = b[j] /\ Less(a, b, j + 1))

Group(e) == <<e.dom>> \o e.a
Rising(e) == last = <<>> \/ Less(last, Group(e), 1)
LayerTree(e) == /\ e.a[1] \in 0..(Key.d - 1)
                /\ P!TreeFits(Par, e.a[1], << e.a[2], e.a[3], e.a[4], e.a[5] >>, 65536, 16)
\* One thing per place: the same place twice would not be rising.
OneEach(e) == \A j \in 2..Len(e.at) : LET x == e.at[j-1]
                                          y == e.at[j]
                                      IN x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
At(e) == /\ e.op = "at" /\ e.dom \in {0, 1}
         /\ Rising(e) /\ LayerTree(e)
         \* (as values: TLC expands quantifiers in actions recursively)
         /\ OneEach(e) = TRUE
         /\ (\A j \in 1..Len(e.at) : P!LegalTail(Par, e.dom, e.a[6], e.a[7], e.at[j][1], e.at[j][2])) = TRUE
         /\ last' = Group(e) /\ UNCHANGED otks
Secrets(e) == /\ e.op = "at" /\ e.dom = 4
              /\ Rising(e) /\ LayerTree(e)
              /\ Len(e.at) = Key.len               \* every chain has a secret of its own
              /\ \A j \in 1..Len(e.at) : /\ e.at[j][1] = j - 1 /\ e.at[j][3] = 0 /\ e.at[j][4] = 1
                                         /\ P!LegalTail(Par, 4, e.a[6], e.a[7], e.at[j][1], e.at[j][2])
              /\ last' = Group(e) /\ otks' = otks \cup { << e.a[1], e.a[2], e.a[3], e.a[4], e.a[5], e.a[7] >> }
\* The one-time key that index i selects on layer l.
Selected(b, l) ==
  LET t == C!ShiftRight(b, Key.th * (l + 1))
  IN << l >> \o [j \in 1..4 |-> C!LowVal(C!ShiftRight(t, 16 * (4 - j)), 16)]
     \o << C!LowVal(C!ShiftRight(b, Key.th * l), Key.th) >>
Sign(e) == /\ e.op = "sign" /\ e.ok
           /\ LET b == C!BitsOf(e.i)
              IN \A l \in 0..(IF Key.all THEN Key.d - 1 ELSE 0) : Selected(b, l) \in otks
           /\ UNCHANGED <<last, otks>>
Odd(e) == /\ e.op = "odd" /\ e.n = 0
          /\ Key.whole => Cardinality(otks) = P!Count(Par)
          /\ UNCHANGED <<last, otks>>

Next == \/ /\ pos <= Len(Key.ev)
           /\ At(Ev) \/ Secrets(Ev) \/ Sign(Ev) \/ Odd(Ev)
           /\ pos' = pos + 1 /\ UNCHANGED <<k, used, signed>>
        \/ pos > Len(Key.ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
