------------------------------ MODULE Processes ------------------------------
(***************************************************************************)
(* The command as processes that run at the same time, and may be cut short. *)
(*                                                                         *)
(* A run reads its input, then opens and fills one table after the other    *)
(* (in any order).  Runs that are in progress together have different       *)
(* prefixes; a prefix may be used again once its run is over.  A run is     *)
(* killed between any two of its steps, or it cannot store a table (the     *)
(* disk is full, something is in the way).  The user may then repeat it.    *)
(* Every history is printed (Dump) and replayed with real processes that    *)
(* are stopped before each of their file operations.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Procs,        \* 1 .. n, started in this order
          Inputs, Outs, Opts,
          MaxLive,      \* runs in progress at the same time
          MaxCuts,      \* runs that are cut short
          Cuts,         \* how: subset of {"kill", "full", "wall"}
          Dump

VARIABLES job,          \* process -> << input, out, options >>
          pc,           \* process -> "new", "read", "open", "fill", "over"
          mem,          \* what it has read
          todo, cur,    \* tables to be written; the one that is open
          files,        \* << prefix, table >> -> [of, whole]
          code,         \* process -> exit code
          cuts, hist
vars == << job, pc, mem, todo, cur, files, code, cuts, hist >>

Tables == {"P", "C"}
Content(i) == i                              \* inputs differ, and stay as they are
Nothing == << >>
Prefix(j) == IF j[2] = "" THEN j[1] ELSE j[2]
Live(p) == pc[p] \in {"read", "open", "fill"}
NLive == Cardinality({p \in Procs : Live(p)})

Init == /\ job = [p \in Procs |-> Nothing] /\ pc = [p \in Procs |-> "new"] /\ mem = [p \in Procs |-> Nothing]
        /\ todo = [p \in Procs |-> Tables] /\ cur = [p \in Procs |-> ""]
        /\ files = << >> /\ code = [p \in Procs |-> 99] /\ cuts = 0 /\ hist = << >>

Did(x) == hist' = Append(hist, x)
At(f, p, x) == [f EXCEPT ![p] = x]

Start(p) == /\ pc[p] = "new" /\ NLive < MaxLive
            /\ \A q \in Procs : q < p => pc[q] # "new"
            /\ \E i \in Inputs, out \in Outs, o \in Opts :
                 LET j == << i, out, o >> IN
                 /\ \A q \in Procs : Live(q) => Prefix(job[q]) # Prefix(j)
                 /\ p = 1 => o = CHOOSE x \in Opts : TRUE             \* (by symmetry)
                 /\ job' = At(job, p, j)
                 /\ Did([op |-> "start", p |-> p, i |-> i, out |-> out, o |-> o])
            /\ pc' = At(pc, p, "read")
            /\ UNCHANGED << mem, todo, cur, files, code, cuts >>
Read(p) == /\ pc[p] = "read"
           /\ mem' = At(mem, p, << Content(job[p][1]), job[p][3] >>) /\ pc' = At(pc, p, "open")
           /\ Did([op |-> "read", p |-> p])
           /\ UNCHANGED << job, todo, cur, files, code, cuts >>
Path(p, k) == << Prefix(job[p]), k >>
Open(p) == /\ pc[p] = "open"
           /\ LET k == IF todo[p] = Tables THEN "C" ELSE CHOOSE x \in todo[p] : TRUE IN
              /\ files' = (Path(p, k) :> [of |-> Nothing, whole |-> FALSE]) @@ files
              /\ cur' = At(cur, p, k)
           /\ pc' = At(pc, p, "fill")
           /\ Did([op |-> "open", p |-> p])
           /\ UNCHANGED << job, mem, todo, code, cuts >>
Fill(p) == /\ pc[p] = "fill"
           /\ files' = [files EXCEPT ![Path(p, cur[p])] = [of |-> << cur[p], mem[p] >>, whole |-> TRUE]]
           /\ todo' = At(todo, p, todo[p] \ {cur[p]}) /\ cur' = At(cur, p, "")
           /\ IF todo[p] = {cur[p]} THEN pc' = At(pc, p, "over") /\ code' = At(code, p, 0)
              ELSE pc' = At(pc, p, "open") /\ UNCHANGED code
           /\ Did([op |-> "fill", p |-> p])
           /\ UNCHANGED << job, mem, cuts >>

\* cut short
Over(p, c) == /\ cuts < MaxCuts /\ cuts' = cuts + 1
              /\ pc' = At(pc, p, "over") /\ code' = At(code, p, c) /\ UNCHANGED << job, mem, todo, cur >>
Kill(p) == /\ "kill" \in Cuts /\ Live(p) /\ Over(p, 9)
           /\ Did([op |-> "kill", p |-> p]) /\ UNCHANGED files
Full(p) == /\ "full" \in Cuts /\ pc[p] = "fill" /\ Over(p, 1)
           /\ files' = [files EXCEPT ![Path(p, cur[p])] = [of |-> << cur[p], mem[p] >>, whole |-> FALSE]]
           /\ Did([op |-> "full", p |-> p])
Wall(p) == /\ "wall" \in Cuts /\ pc[p] = "open" /\ Over(p, 1)
           /\ Did([op |-> "wall", p |-> p]) /\ UNCHANGED files

Step(p) == Start(p) \/ Read(p) \/ Open(p) \/ Fill(p) \/ Kill(p) \/ Full(p) \/ Wall(p)
AllOver == \A p \in Procs : pc[p] = "over"
Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

DumpHistories == (Dump /\ AllOver) => PrintT("HIST " \o ToJson(hist))

---------------------------------------------------------------------------
\* the last run that was given this prefix
Last(p) == \A q \in Procs : (q > p /\ pc[q] # "new") => Prefix(job[q]) # Prefix(job[p])
\* what the run leaves behind when it is alone
Alone(p) == [k \in Tables |-> [of |-> << k, << Content(job[p][1]), job[p][3] >> >>, whole |-> TRUE]]

(* C33: a run that ends well leaves what it leaves when it is alone, whatever else is or has been going on *)
AsIfAlone == \A p \in Procs : (pc[p] = "over" /\ code[p] = 0 /\ Last(p)) =>
    \A k \in Tables : files[Path(p, k)] = Alone(p)[k]
\* a step of one run is invisible to the others
Undisturbed == [][\A p \in Procs : Step(p) =>
    /\ \A q \in Procs \ {p} : pc'[q] = pc[q] /\ mem'[q] = mem[q] /\ code'[q] = code[q] /\ todo'[q] = todo[q]
    /\ \A f \in DOMAIN files : f[1] # Prefix(job'[p]) => files'[f] = files[f]]_vars
OnlyOwn == \A f \in DOMAIN files : \E p \in Procs : job[p] # Nothing /\ f[1] = Prefix(job[p])
Ends == <>AllOver

(* C34: only a complete run says that it has ended well; a cut harms nobody and can be made good *)
SaysSo == \A p \in Procs : (pc[p] = "over" /\ Last(p) /\ \E k \in Tables :
    Path(p, k) \notin DOMAIN files \/ ~ files[Path(p, k)].whole) => code[p] # 0
CutsHarmNobody == [][\A p \in Procs : (Kill(p) \/ Full(p) \/ Wall(p)) =>
    \A f \in DOMAIN files : f # Path(p, cur[p]) => files'[f] = files[f]]_vars
Repeatable == \A p, q \in Procs : (p < q /\ job[p] = job[q] /\ pc[p] = "over" /\ code[p] # 0 /\ pc[q] = "over"
                                   /\ code[q] = 0 /\ Last(q)) =>
    \A k \in Tables : files[Path(q, k)] = Alone(p)[k]
=============================================================================
