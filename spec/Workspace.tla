------------------------------ MODULE Workspace ------------------------------
(***************************************************************************)
(* A directory in which the command is run again and again.                *)
(*                                                                         *)
(* Inputs have a content: a version of the data, whole or with a fault.    *)
(* Results are tables that record what they were computed from.  Between   *)
(* runs the user edits inputs (with or without changing size and time      *)
(* stamp), damages and repairs them, puts one in the place of another and  *)
(* discards results.  TLC checks that results are always those of the      *)
(* current content and options, that a run touches no other file, and that *)
(* a faulty input leaves everything as it was; the histories are printed   *)
(* and replayed on the implementation.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Inputs, Outs,      \* input names, prefixes ("" = that of the input)
          Opts,              \* option sets
          Faults,            \* {} : no input is ever damaged
          Edits,             \* kinds of edit
          MaxOps, Dump

VARIABLES data,              \* input -> [ver, fault]
          results,           \* << prefix, quantity >> -> what it was computed from
          ran,               \* runs that ended well: << content, options, tables >>
          code, hist, used
vars == << data, results, ran, code, hist, used >>

Init == /\ data = [i \in Inputs |-> [ver |-> IF i = CHOOSE x \in Inputs : TRUE THEN 1 ELSE 2, fault |-> "none"]]
        /\ results = << >> /\ ran = {} /\ code = 0 /\ hist = << >> /\ used = 2

Did(op) == hist' = Append(hist, op)
Prefix(i, out) == IF out = "" THEN i ELSE out
Run(i, out, o) ==
    /\ Did([op |-> "run", i |-> i, out |-> out, o |-> o])
    /\ UNCHANGED << data, used >>
    /\ IF data[i].fault = "none"
       THEN LET t == [k \in {"P", "C"} |-> << k, data[i].ver, o >>] IN
            /\ results' = [p \in {<< Prefix(i, out), k >> : k \in {"P", "C"}} |-> t[p[2]]] @@ results
            /\ ran' = ran \cup {<< data[i].ver, o, t >>}
            /\ code' = 0
       ELSE code' = 1 /\ UNCHANGED << results, ran >>
Edit(i, how) == /\ data[i].fault = "none"
                /\ data' = [data EXCEPT ![i].ver = used + 1] /\ used' = used + 1
                /\ Did([op |-> how, i |-> i]) /\ UNCHANGED << results, ran, code >>
Put(i, j) == /\ i # j /\ data[i] # data[j] /\ data[j].fault = "none"
             /\ data' = [data EXCEPT ![i] = data[j]]
             /\ Did([op |-> "put", i |-> i, j |-> j]) /\ UNCHANGED << results, ran, code, used >>
Damage(i, f) == /\ data[i].fault = "none"
                /\ data' = [data EXCEPT ![i].fault = f]
                /\ Did([op |-> "break", i |-> i, f |-> f]) /\ UNCHANGED << results, ran, code, used >>
Repair(i) == /\ data[i].fault # "none"
             /\ data' = [data EXCEPT ![i].fault = "none"]
             /\ Did([op |-> "repair", i |-> i]) /\ UNCHANGED << results, ran, code, used >>
Discard(p) == /\ \E k \in DOMAIN results : k[1] = p
              /\ results' = [k \in {x \in DOMAIN results : x[1] # p} |-> results[k]]
              /\ Did([op |-> "discard", p |-> p]) /\ UNCHANGED << data, ran, code, used >>

Between == \/ \E i \in Inputs, h \in Edits : Edit(i, h)
           \/ \E i, j \in Inputs : Put(i, j)
           \/ \E i \in Inputs, f \in Faults : Damage(i, f)
           \/ \E i \in Inputs : Repair(i)
           \/ \E p \in Inputs \cup Outs : Discard(p)
Runs == \E i \in Inputs, out \in Outs, o \in Opts : Run(i, out, o)
IsRun(h) == h # << >> /\ h[Len(h)].op = "run"
Next == /\ Len(hist) < MaxOps
        /\ Runs \/ Between
        /\ (Dump /\ Len(hist') = MaxOps /\ hist'[MaxOps].op = "run") => PrintT("HIST " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
LastRun == hist[Len(hist)]
\* C32: what has just been written is of the current content and options
OfTheCurrent == (IsRun(hist) /\ data[LastRun.i].fault = "none") =>
    \A k \in {"P", "C"} : results[<< Prefix(LastRun.i, LastRun.out), k >>] = << k, data[LastRun.i].ver, LastRun.o >>
Reproducible == \A r, s \in ran : r[1] = s[1] /\ r[2] = s[2] => r[3] = s[3]
Distinct == \A r, s \in ran : (r[1] # s[1] \/ r[2] # s[2]) => r[3] # s[3]
Elsewhere == [][Runs => \A k \in DOMAIN results :
                  k[1] # Prefix(hist'[Len(hist')].i, hist'[Len(hist')].out) => results'[k] = results[k]]_vars
InputsStay == [][Runs => data' = data]_vars
\* C31
Refused == (IsRun(hist) /\ data[LastRun.i].fault # "none") => code # 0
NothingWritten == [][(Runs /\ data[hist'[Len(hist')].i].fault # "none") => results' = results]_vars
RepairedWorks == (IsRun(hist) /\ data[LastRun.i].fault = "none") => code = 0
=============================================================================
