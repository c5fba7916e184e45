----------------------------- MODULE SignToolProof -----------------------------
(***************************************************************************)
(* Spent and Unique of SignTool, for any number of runs, any length of     *)
(* life and every interleaving of steps, failures and kills: proved, where *)
(* TLC looks at two or three runs.  (tlapm SignToolProof.tla)              *)
(***************************************************************************)
EXTENDS SignTool, TLAPS
ASSUME Good == /\ Lock = TRUE /\ StoreFirst = TRUE /\ CheckStore = TRUE
               /\ Total \in Nat /\ 0 \notin Runs

Before == {"locked", "read", "signed"}
After  == {"storing", "stored", "showing", "finished", "failing"}
PCs == {"start", "ok", "failed", "killed"} \cup Before \cup After
Type == /\ file \in [i : 0..Total, whole : BOOLEAN]
        /\ held \in Runs \cup {0}
        /\ pc \in [Runs -> PCs]
        /\ at \in [Runs -> Int]
        /\ seen \in [Runs -> {"none", "part", "all"}]
        /\ stored2 \in [Runs -> BOOLEAN] /\ bad \in [Runs -> BOOLEAN]
Inside == \A r \in Runs : pc[r] \in Before \cup After => held = r
ReadIs == \A r \in Runs : pc[r] \in {"read", "signed"} => at[r] = file.i
Moved  == \A r \in Runs : pc[r] \in After => /\ at[r] \in 0..Total
                                             /\ file.i = (IF at[r] >= Total THEN Total ELSE at[r] + 1)
Silent == \A r \in Runs : pc[r] \in Before \cup {"start", "storing", "stored"} => seen[r] = "none"
Gone   == \A r \in Runs : seen[r] # "none" => at[r] >= 0 /\ at[r] < file.i
Older  == \A r, q \in Runs : /\ r # q /\ pc[r] \in {"read", "signed"} \cup After /\ seen[q] # "none"
                             => at[q] < at[r]
Apart  == \A r, q \in Runs : r # q /\ seen[r] # "none" /\ seen[q] # "none" => at[r] # at[q]
Inv == Type /\ Inside /\ ReadIs /\ Moved /\ Silent /\ Gone /\ Older /\ Apart

LEMMA InitInv == Init => Inv
  BY Good DEF Init, Inv, Type, Inside, ReadIs, Moved, Silent, Gone, Older, Apart, Before, After, PCs

LEMMA Kept == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE Good DEF Inv, Type, Inside, ReadIs, Moved, Silent, Gone, Older, Apart, Before, After, PCs, To, Leave, UsedUp, Next1, MayStore, MayShow, Going
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars
<1>2. ASSUME NEW r \in Runs, Begin(r) PROVE Inv'
  BY <1>2 DEF Begin
<1>3. ASSUME NEW r \in Runs, Read(r) PROVE Inv'
  BY <1>3 DEF Read
<1>4. ASSUME NEW r \in Runs, Sign(r) PROVE Inv'
  BY <1>4 DEF Sign
<1>5. ASSUME NEW r \in Runs, StoreBegin(r) PROVE Inv'
  BY <1>5 DEF StoreBegin
<1>6. ASSUME NEW r \in Runs, StoreEnd(r) PROVE Inv'
  BY <1>6 DEF StoreEnd
<1>7. ASSUME NEW r \in Runs, StoreLost(r) PROVE Inv'
  BY <1>7 DEF StoreLost
<1>8. ASSUME NEW r \in Runs, ShowPart(r) PROVE Inv'
  <2> USE <1>8 DEF ShowPart
  <2>0. /\ pc[r] \in {"stored", "showing"} /\ at[r] \in 0..(Total - 1) /\ file.i = at[r] + 1 /\ held = r
    OBVIOUS
  <2>1. Type' /\ Inside' /\ ReadIs' /\ Moved' /\ Silent'
    OBVIOUS
  <2>2. Gone'
    BY <2>0
  <2>3. Older'
    BY <2>0
  <2>4. Apart'
    <3> SUFFICES ASSUME NEW p \in Runs, NEW q \in Runs, p # q, seen'[p] # "none", seen'[q] # "none" PROVE at[p] # at[q]
      BY DEF Apart
    <3>1. \A x \in Runs : x # r => seen'[x] = seen[x]
      OBVIOUS
    <3>2. \A x \in Runs : x # r /\ seen[x] # "none" => at[x] < at[r]
      BY <2>0
    <3>3. CASE p = r
      BY <3>1, <3>2, <3>3
    <3>4. CASE q = r
      BY <3>1, <3>2, <3>4
    <3>5. CASE p # r /\ q # r
      BY <3>1, <3>5
    <3> QED
      BY <3>3, <3>4, <3>5
  <2> QED
    BY ONLY <2>1, <2>2, <2>3, <2>4 DEF Inv
<1>9. ASSUME NEW r \in Runs, ShowAll(r) PROVE Inv'
  <2> USE <1>9 DEF ShowAll
  <2>0. /\ pc[r] \in {"stored", "showing"} /\ at[r] \in 0..(Total - 1) /\ file.i = at[r] + 1 /\ held = r
    OBVIOUS
  <2>1. Type' /\ Inside' /\ ReadIs' /\ Moved' /\ Silent'
    OBVIOUS
  <2>2. Gone'
    BY <2>0
  <2>3. Older'
    BY <2>0
  <2>4. Apart'
    <3> SUFFICES ASSUME NEW p \in Runs, NEW q \in Runs, p # q, seen'[p] # "none", seen'[q] # "none" PROVE at[p] # at[q]
      BY DEF Apart
    <3>1. \A x \in Runs : x # r => seen'[x] = seen[x]
      OBVIOUS
    <3>2. \A x \in Runs : x # r /\ seen[x] # "none" => at[x] < at[r]
      BY <2>0
    <3>3. CASE p = r
      BY <3>1, <3>2, <3>3
    <3>4. CASE q = r
      BY <3>1, <3>2, <3>4
    <3>5. CASE p # r /\ q # r
      BY <3>1, <3>5
    <3> QED
      BY <3>3, <3>4, <3>5
  <2> QED
    BY ONLY <2>1, <2>2, <2>3, <2>4 DEF Inv
<1>10. ASSUME NEW r \in Runs, ShowFails(r) PROVE Inv'
  BY <1>10 DEF ShowFails
<1>11. ASSUME NEW r \in Runs, ExitOk(r) PROVE Inv'
  BY <1>11 DEF ExitOk
<1>12. ASSUME NEW r \in Runs, ExitFailed(r) PROVE Inv'
  BY <1>12 DEF ExitFailed
<1>13. ASSUME NEW r \in Runs, Kill(r) PROVE Inv'
  BY <1>13 DEF Kill
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11, <1>12, <1>13 DEF Next, Step

SpentThere == \A r \in Runs : seen[r] # "none" => at[r] < file.i
UniqueThere == \A r, q \in Runs : r # q /\ seen[r] # "none" /\ seen[q] # "none" => at[r] # at[q]
THEOREM Safe == Spec => [](SpentThere /\ UniqueThere)
<1>1. Inv => SpentThere /\ UniqueThere
  BY DEF Inv, Gone, Apart, SpentThere, UniqueThere
<1> QED
  BY InitInv, Kept, <1>1, PTL DEF Spec
================================================================================
