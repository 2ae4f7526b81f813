------------------------------ MODULE CompareTrace ------------------------------
(***************************************************************************)
(* Trace validation of comparisons.                                        *)
(* Event cmp: a, b (sequences of [key, shape, v]; v flat), out, intact.      *)
(* Entries that agree to 1e-9 have to count as equal, entries that differ   *)
(* by 1e-4 of their size and 1e-6 as different; in between both answers     *)
(* are accepted.                                                            *)
(***************************************************************************)
EXTENDS BigFloat, Sequences, FiniteSets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, l
vars == << sess, l >>
Ev(s, k) == Trace[s].ev[k]

KeysOf(d) == {d[i].key : i \in 1 .. Len(d)}
At(d, k) == d[CHOOSE i \in 1 .. Len(d) : d[i].key = k]

MaxF(x, y) == IF Leq(x, y) THEN y ELSE x
CloseNum(x, y) == IF IsFin(x) /\ IsFin(y)
                  THEN Leq(Abs(Sub(x, y)), Scale(MaxF(Abs(x), Abs(y)), -30))
                  ELSE x = y
FarNum(x, y) == IF IsFin(x) /\ IsFin(y)
                THEN Leq(Scale(MaxF(Scale(FromInt(1), -7), MaxF(Abs(x), Abs(y))), -13), Abs(Sub(x, y)))
                ELSE x # y

\* pairs of arrays
CloseArr(x, y) == x.shape = y.shape /\ \A i \in 1 .. Len(x.v) : CloseNum(x.v[i], y.v[i])
FarArr(x, y) == x.shape # y.shape \/ \E i \in 1 .. Len(x.v) : FarNum(x.v[i], y.v[i])

MustBeSame(a, b) == KeysOf(a) = KeysOf(b) /\ \A k \in KeysOf(a) : CloseArr(At(a, k), At(b, k))
MustDiffer(a, b) == KeysOf(a) # KeysOf(b) \/ \E k \in KeysOf(a) : FarArr(At(a, k), At(b, k))

CmpFails(e) ==
    IF e.out \notin {"yes", "no"} THEN {"answers"}
    ELSE (IF MustBeSame(e.a, e.b) /\ e.out = "no" THEN {"equal"} ELSE {})
    \cup (IF MustDiffer(e.a, e.b) /\ e.out = "yes" THEN {"different"} ELSE {})
    \cup (IF e.intact THEN {} ELSE {"intact"})

Fails(s, k) == LET e == Ev(s, k) IN
    CASE e.op = "cmp" -> CmpFails(e)
      [] e.op = "driver" -> {"driver"}

TraceInit == sess \in 1 .. Len(Trace) /\ l = 0
TraceNext == /\ l < Len(Trace[sess].ev)
             /\ l' = l + 1
             /\ UNCHANGED sess
             /\ LET f == TLCEval(Fails(sess, l + 1)) IN
                \A n \in f : PrintT(<< "FAIL", sess, l + 1, n >>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
