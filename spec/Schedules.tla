------------------------------ MODULE Schedules ------------------------------
(***************************************************************************)
(* Callers that use the library at the same time.                          *)
(*                                                                         *)
(* Every caller runs a program of additions to its own object and queries  *)
(* of its own or of a shared object.  A query is not atomic: it reads the  *)
(* contributions one after the other, in a frame of its own; reading a     *)
(* composite contribution (a user-defined one that stands for a whole      *)
(* other superposition) is a query within the query.  The scheduler stops  *)
(* a caller between any two steps, at most MaxStops times altogether.      *)
(* TLC checks that every reply is the one the caller gets alone, that no   *)
(* step touches what belongs to another caller, and that all callers end.  *)
(* The schedules are printed (Dump = TRUE) and replayed on the             *)
(* implementation, stopping it between lines of its source.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Callers,      \* 1 .. n
          Programs,     \* what a caller may run: sequences of operations
          Shared,       \* contributions of the shared object
          Inner,        \* contributions of the object behind the composite contribution
          Composite,    \* its name
          MaxStops, Dump

VARIABLES prog, pc, stack, replies, reg, sched, stops
vars == << prog, pc, stack, replies, reg, sched, stops >>

Own(c) == "own" \o ToString(c)
Objects == {"shared", "inner"} \cup {Own(c) : c \in Callers}
ObjectOf(c, o) == IF o = "own" THEN Own(c) ELSE o

\* the reads a quantity takes, one after the other
Reads(seq, w) ==
    LET all(m) == [i \in 1 .. Len(seq) |-> << m, seq[i] >>] IN
    IF w = "C" THEN all("w") \o all("v") \o all("z") ELSE IF w \in {"w", "v"} THEN all(w) ELSE all("z")

RECURSIVE Alone(_, _)
ReadAlone(rd) == IF rd[2] = Composite THEN Alone(Inner, rd[1]) ELSE rd
Alone(seq, w) == << w, [i \in 1 .. Len(Reads(seq, w)) |-> ReadAlone(Reads(seq, w)[i])] >>

Frame(seq, w) == [w |-> w, todo |-> Reads(seq, w), got |-> << >>]

Init == /\ prog \in [Callers -> Programs]
        /\ pc = [c \in Callers |-> 1]
        /\ stack = [c \in Callers |-> << >>]
        /\ replies = [c \in Callers |-> << >>]
        /\ reg = [o \in Objects |-> IF o = "shared" THEN Shared ELSE IF o = "inner" THEN Inner ELSE << >>]
        /\ sched = << >> /\ stops = 0

Over(c) == pc[c] > Len(prog[c])
Op(c) == prog[c][pc[c]]
Top(c) == stack[c][Len(stack[c])]
WithTop(c, f) == [stack EXCEPT ![c] = [@ EXCEPT ![Len(@)] = f]]

Add(c) == /\ ~ Over(c) /\ stack[c] = << >> /\ Op(c).op = "add"
          /\ reg' = [reg EXCEPT ![Own(c)] = @ \o Op(c).b]
          /\ pc' = [pc EXCEPT ![c] = @ + 1]
          /\ UNCHANGED << stack, replies >>
Ask(c) == /\ ~ Over(c) /\ stack[c] = << >> /\ Op(c).op = "q"
          /\ stack' = [stack EXCEPT ![c] = << Frame(reg[ObjectOf(c, Op(c).o)], Op(c).w) >>]
          /\ UNCHANGED << pc, replies, reg >>
Read(c) == /\ stack[c] # << >> /\ Top(c).todo # << >>
           /\ LET f == Top(c)
                  rd == Head(f.todo)
              IN stack' = IF rd[2] = Composite
                          THEN [stack EXCEPT ![c] = Append(@, Frame(reg["inner"], rd[1]))]
                          ELSE WithTop(c, [f EXCEPT !.todo = Tail(@), !.got = Append(@, rd)])
           /\ UNCHANGED << pc, replies, reg >>
Return(c) == /\ stack[c] # << >> /\ Top(c).todo = << >>
             /\ LET r == << Top(c).w, Top(c).got >>
                    below == SubSeq(stack[c], 1, Len(stack[c]) - 1)
                IN IF below = << >>
                   THEN /\ replies' = [replies EXCEPT ![c] = Append(@, r)]
                        /\ pc' = [pc EXCEPT ![c] = @ + 1]
                        /\ stack' = [stack EXCEPT ![c] = << >>]
                   ELSE /\ stack' = [stack EXCEPT ![c] =
                                       [below EXCEPT ![Len(below)] = [@ EXCEPT !.todo = Tail(@), !.got = Append(@, r)]]]
                        /\ UNCHANGED << pc, replies >>
             /\ UNCHANGED reg

Last == IF sched = << >> THEN 0 ELSE sched[Len(sched)][1]
Step(c) == /\ Add(c) \/ Ask(c) \/ Read(c) \/ Return(c)
           /\ LET stop == Last # 0 /\ Last # c /\ ~ Over(Last) IN
              /\ stops' = IF stop THEN stops + 1 ELSE stops
              /\ stop => stops < MaxStops
           /\ sched' = IF Last = c THEN [sched EXCEPT ![Len(sched)][2] = @ + 1] ELSE Append(sched, << c, 1 >>)
           /\ UNCHANGED prog

AllOver == \A c \in Callers : Over(c)
Next == \E c \in Callers : Step(c) /\ ((Dump /\ \A d \in Callers : pc'[d] > Len(prog'[d])) =>
                                          PrintT("HIST " \o ToJson([prog |-> prog, sched |-> sched'])))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
(* C29 *)
\* what has been registered when operation i of c's program is reached, from the program alone
RECURSIVE Had(_, _)
Had(p, i) == IF i = 1 THEN << >> ELSE Had(p, i - 1) \o (IF p[i - 1].op = "add" THEN p[i - 1].b ELSE << >>)
Expected(p, i) == Alone(IF p[i].o = "shared" THEN Shared ELSE Had(p, i), p[i].w)
Queries(p, n) == SelectSeq([i \in 1 .. n |-> i], LAMBDA i : p[i].op = "q")
AsIfAlone == \A c \in Callers :
    LET q == Queries(prog[c], pc[c] - 1) IN
    /\ Len(replies[c]) = Len(q)
    /\ \A j \in 1 .. Len(q) : replies[c][j] = Expected(prog[c], q[j])
Isolated == [][\E c \in Callers :
                 /\ \A d \in Callers \ {c} : /\ pc'[d] = pc[d] /\ stack'[d] = stack[d] /\ replies'[d] = replies[d]
                                             /\ reg'[Own(d)] = reg[Own(d)]
                 /\ reg'["shared"] = reg["shared"] /\ reg'["inner"] = reg["inner"]]_vars
Bounded == \A c \in Callers : Len(stack[c]) <= 2
AllEnd == <>AllOver

\* the abstract machine sees additions and, between them, queries that change nothing
Lib == INSTANCE Occuprob WITH Def <- LAMBDA id : [kind |-> "R", sym |-> << 1, 1 >>]
LibStart == reg["shared"] = Shared /\ reg["inner"] = Inner /\ \A c \in Callers : reg[Own(c)] = << >>
LibStep == \/ \E o \in Objects : \E p \in Programs : \E i \in 1 .. Len(p) : p[i].op = "add" /\ Lib!Add_(o, p[i].b)
           \/ \E o \in Objects : Lib!Query(o)
Refines == LibStart /\ [][LibStep]_reg
=============================================================================
