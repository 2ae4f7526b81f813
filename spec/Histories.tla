------------------------------ MODULE Histories ------------------------------
(***************************************************************************)
(* Histories of use, at the level of memory.                               *)
(*                                                                         *)
(* A superposition object owns a list cell; the caller owns temperature    *)
(* arrays, lists of contributions, and every array a query has returned.   *)
(* The caller does what it likes with its own cells, at any time.  The     *)
(* abstract machine Occuprob knows nothing of cells; TLC checks that this  *)
(* machine refines it (Refines) and that ownership is never shared, in     *)
(* every history up to MaxOps operations.  Each such history is printed    *)
(* (Dump = TRUE) and replayed on the implementation.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps,       \* length of the histories
          Bundles,      \* sequences of contributions that get added together
          Whats,        \* quantities that get queried
          Hostile,      \* does the caller modify its own data?
          Objects,
          Sizes,        \* contribution -> number of minima
          Dump

VARIABLES own,          \* object -> cell that holds its contributions
          cells,        \* cell -> content
          held,         \* cells the caller holds
          next,         \* next free cell
          hist,         \* operations so far
          reply         \* last reply: << object, quantity, kind, content >>
vars == << own, cells, held, next, hist, reply >>

TempCell == 1                               \* the caller's temperature array
ListCell == 2                               \* the caller's list of contributions
NoReply == << >>

Init == /\ own = CHOOSE f \in [Objects -> 3 .. 2 + Cardinality(Objects)] : \A x, y \in Objects : x # y => f[x] # f[y]
        /\ cells = [c \in 1 .. 2 + Cardinality(Objects) |-> IF c = TempCell THEN << 1 >> ELSE << >>]
        /\ held = {TempCell, ListCell}
        /\ next = 3 + Cardinality(Objects)
        /\ hist = << >>
        /\ reply = NoReply

Did(op) == hist' = Append(hist, op)

\* kind of answer, from the contributions alone
Kind(seq) == IF seq = << >> THEN "none"
             ELSE IF \A i \in 1 .. Len(seq) : Sizes[seq[i]] = Sizes[seq[1]] THEN "num"
             ELSE "refused"

\* the caller fills its list and hands it over: the elements are copied into the object's own list
Add(o, b) == /\ cells' = [cells EXCEPT ![ListCell] = b, ![own[o]] = @ \o b]
             /\ Did([op |-> "add", o |-> o, b |-> b])
             /\ reply' = NoReply
             /\ UNCHANGED << own, held, next >>

\* a query returns a fresh cell, whose content depends on the object and the temperatures only
Query(o, w) == /\ LET k == Kind(cells[own[o]])
                      r == << w, cells[own[o]], cells[TempCell] >>
                  IN /\ reply' = << o, w, k, r >>
                     /\ IF k = "num"
                        THEN /\ cells' = cells @@ (next :> r)
                             /\ held' = held \cup {next}
                             /\ next' = next + 1
                        ELSE UNCHANGED << cells, held, next >>
               /\ Did([op |-> "q", o |-> o, w |-> w])
               /\ UNCHANGED own

\* the caller's own doings
Overwrite(c, x) == cells' = [cells EXCEPT ![c] = x]
LastIs(S) == hist # << >> /\ hist[Len(hist)].op \in S
EditTemps == /\ LastIs({"q", "add"}) /\ cells[TempCell][1] < 3
             /\ Overwrite(TempCell, << cells[TempCell][1] + 1 >>)
             /\ Did([op |-> "edit"]) /\ reply' = NoReply /\ UNCHANGED << own, held, next >>
ClearList == /\ LastIs({"add"})
             /\ Overwrite(ListCell, << >>)
             /\ Did([op |-> "clear"]) /\ reply' = NoReply /\ UNCHANGED << own, held, next >>
Scribble  == /\ LastIs({"q"}) /\ next - 1 \in held
             /\ Overwrite(next - 1, << "scribble" >>)
             /\ Did([op |-> "scribble"]) /\ reply' = NoReply /\ UNCHANGED << own, held, next >>

Step == \/ \E o \in Objects, b \in Bundles : Add(o, b)
        \/ \E o \in Objects, w \in Whats : Query(o, w)
        \/ Hostile /\ (EditTemps \/ ClearList \/ Scribble)

Next == /\ Len(hist) < MaxOps
        /\ Step
        /\ (Dump /\ Len(hist') = MaxOps /\ hist'[MaxOps].op = "q") => PrintT("HIST " \o ToJson(hist'))

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* C09: nothing the caller holds is part of an object, objects share nothing *)
Ownership == /\ \A o \in Objects : own[o] \notin held
             /\ \A x, y \in Objects : x # y => own[x] # own[y]
             /\ next \notin DOMAIN cells

Abstract == [o \in Objects |-> cells[own[o]]]

\* what has been added to o, from the history alone
RECURSIVE Added(_, _)
Added(h, o) == IF h = << >> THEN << >>
               ELSE LET x == h[Len(h)] IN
                    Added(SubSeq(h, 1, Len(h) - 1), o) \o (IF x.op = "add" /\ x.o = o THEN x.b ELSE << >>)
RegisteredIsAdded == \A o \in Objects : Abstract[o] = Added(hist, o)

(* C10 *)
NoneIffEmpty == reply # NoReply =>
    LET s == Added(hist, reply[1]) IN
    /\ (reply[3] = "none") <=> (s = << >>)
    /\ (reply[3] = "num") <=> (s # << >> /\ Cardinality({Sizes[s[i]] : i \in 1 .. Len(s)}) = 1)

\* queries and the caller's doings leave every object as it was; additions leave the others
QueriesPure == [][\A o \in Objects :
                    LET x == hist'[Len(hist')] IN
                    (hist' # hist /\ ~ (x.op = "add" /\ x.o = o)) => Abstract'[o] = Abstract[o]]_vars
ReplyIsFunction == reply # NoReply => reply[4] = << reply[2], Added(hist, reply[1]), cells[TempCell] >>

\* refinement of the abstract machine
Lib == INSTANCE Occuprob WITH Def <- LAMBDA id : [kind |-> "R", sym |-> [i \in 1 .. Sizes[id] |-> i]], reg <- Abstract
LibStart == \A o \in Objects : Abstract[o] = << >>
LibStep == \/ \E o \in Objects, b \in Bundles : Lib!Add_(o, b)
           \/ \E o \in Objects : Lib!Query(o)
Refines == LibStart /\ [][LibStep]_Abstract
\* the answers of this machine are those of the abstract one
KindAgrees == \A o \in Objects : Kind(Abstract[o]) = Lib!AnswerKind(o)
=============================================================================
