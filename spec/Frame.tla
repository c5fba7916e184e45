--------------------------------- MODULE Frame ---------------------------------
(***************************************************************************)
(* The memory of a caller of the library, and which of it each call may    *)
(* change.  Memory is a function from regions to contents (numbers that    *)
(* stand for byte strings); the regions of a secret key are its fields.    *)
(* Whatever is not named in a call's frame keeps its contents.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  SkConst,       \* fields of a secret key that are fixed
  Contents,      \* contents there may be
  Loose          \* FALSE; TRUE gives a signer that may also touch its root (negative control)

SkMoving == {"idx", "state"}
Sk == SkConst \cup SkMoving
Regions == Sk \cup {"pk", "m", "sm", "smlen", "mout", "mlen", "around"}

\* Frames: what may change.
Frame(op, wiped) ==
  CASE op = "keygen" -> {"pk"} \cup Sk
    [] op = "sign" /\ ~wiped -> SkMoving \cup {"sm", "smlen"} \cup (IF Loose THEN {"root"} ELSE {})
    [] op = "sign" /\ wiped -> (Sk \ {"oid"}) \cup {"sm", "smlen"}
    [] op = "open" -> {"mout", "mlen"}

VARIABLES mem, wiped, last
vars == <<mem, wiped, last>>

Init == mem \in [Regions -> {CHOOSE c \in Contents : TRUE}] /\ wiped = FALSE /\ last = "none"

Writes(F) == \E f \in [F -> Contents] : mem' = [r \in Regions |-> IF r \in F THEN f[r] ELSE mem[r]]

Keygen == Writes(Frame("keygen", FALSE)) /\ wiped' = FALSE /\ last' = "keygen"
Sign == last # "none" /\ \E w \in BOOLEAN : /\ wiped => w
                       /\ Writes(Frame("sign", w)) /\ wiped' = w /\ last' = "sign"
Open == last # "none" /\ Writes(Frame("open", FALSE)) /\ last' = "open" /\ UNCHANGED wiped

Next == Keygen \/ Sign \/ Open
Spec == Init /\ [][Next]_vars

\* C12 as the user sees it.
Same(r) == mem'[r] = mem[r]
InputsKept == [][ /\ last' # "keygen" => Same("m") /\ Same("pk") /\ Same("oid")
                  /\ last' = "open" => \A r \in Sk \cup {"sm", "smlen"} : Same(r)
                  /\ last' = "sign" => Same("mout") /\ Same("mlen") ]_vars
ConstantsKept == [][ last' = "sign" /\ ~wiped' => \A r \in SkConst : Same(r) ]_vars
NothingAround == [][ Same("around") ]_vars
=============================================================================
