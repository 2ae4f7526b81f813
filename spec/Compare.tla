-------------------------------- MODULE Compare --------------------------------
(***************************************************************************)
(* Comparing two dictionaries of arrays.  An array is [shape, v] (v flat,    *)
(* row by row); a dictionary is a function on its keys plus the order in     *)
(* which it is walked.  Entries are small integers: equal or not.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Shapes, Values, Dump

RECURSIVE Volume(_)
Volume(sh) == IF sh = << >> THEN 1 ELSE sh[1] * Volume(Tail(sh))
Arrays == UNION {[shape : {sh}, v : [1 .. Volume(sh) -> Values]] : sh \in Shapes}
Dicts == UNION {[K -> Arrays] : K \in SUBSET Keys}

SameArray(x, y) == x.shape = y.shape /\ \A i \in 1 .. Len(x.v) : x.v[i] = y.v[i]
Same(d, e) == DOMAIN d = DOMAIN e /\ \A k \in DOMAIN d : SameArray(d[k], e[k])

---------------------------------------------------------------------------
(* the comparison as it proceeds: keys first, then key by key in any order *)
VARIABLES d1, d2, left, verdict
vars == << d1, d2, left, verdict >>
Init == d1 \in Dicts /\ d2 \in Dicts /\ left = Keys /\ verdict = "?"
Start == /\ verdict = "?"
         /\ IF DOMAIN d1 # DOMAIN d2 THEN verdict' = "no" /\ left' = {} ELSE verdict' = "walk" /\ left' = DOMAIN d1
         /\ UNCHANGED << d1, d2 >>
Look(k) == /\ verdict = "walk" /\ k \in left
           /\ IF SameArray(d1[k], d2[k]) THEN left' = left \ {k} /\ verdict' = "walk"
              ELSE verdict' = "no" /\ left' = {}
           /\ UNCHANGED << d1, d2 >>
Stop == verdict = "walk" /\ left = {} /\ verdict' = "yes" /\ UNCHANGED << d1, d2, left >>
Next == Start \/ Stop \/ \E k \in Keys : Look(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Final == verdict \in {"yes", "no"}
IsEquality == Final => (verdict = "yes" <=> d1 = d2)     \* as functions: no order, no shape coercion
AgreesWithSame == Final => (verdict = "yes" <=> Same(d1, d2))
Symmetric == Same(d1, d2) <=> Same(d2, d1)
Reflexive == Same(d1, d1)
MissingKey == DOMAIN d1 # DOMAIN d2 => ~ Same(d1, d2)
Decides == <>Final
DumpPairs == (Dump /\ verdict = "?" /\ (DOMAIN d1 \cap DOMAIN d2 # {} \/ DOMAIN d1 = DOMAIN d2)) =>
    PrintT("HIST " \o ToJson([a |-> [k \in DOMAIN d1 |-> d1[k]], b |-> [k \in DOMAIN d2 |-> d2[k]]]))
=============================================================================
