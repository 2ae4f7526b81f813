------------------------------ MODULE Occuprob ------------------------------
(***************************************************************************)
(* The library as a state machine.                                         *)
(*                                                                         *)
(* reg : object -> sequence of registered contributions (by identifier).   *)
(* Construction, addition and queries are the only public operations; a    *)
(* query leaves the state unchanged and its answer is a function of the    *)
(* state and its own arguments.  Def(id) is the contribution record.       *)
(***************************************************************************)
EXTENDS Thermo

CONSTANT Def(_)          \* contribution identifier -> record
VARIABLE reg

Objects == DOMAIN reg
Registered(o) == [i \in 1 .. Len(reg[o]) |-> Def(reg[o][i])]

Init == reg = << >>

New(o) == /\ o \notin Objects
          /\ reg' = (o :> << >>) @@ reg

\* how: "one" (a single contribution) or any collection
Add_(o, ids) == /\ o \in Objects
                /\ reg' = [reg EXCEPT ![o] = @ \o ids]

Query(o) == /\ o \in Objects
            /\ UNCHANGED reg

\* what kind of answer a query gets
AnswerKind(o) == IF reg[o] = << >> THEN "none"
                 ELSE IF Consistent(Registered(o)) THEN "num" ELSE "refused"
=============================================================================
