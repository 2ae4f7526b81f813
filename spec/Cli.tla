--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* One run of the command: options, contributions, tables, plots.          *)
(* Temperatures are whole quarters of a kelvin; the content of a file is    *)
(* what it was computed from.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ranges,       \* pairs << min, max >> of quarters of a kelvin
          Dump
VARIABLES opts, phase, contribs, todo, files, said, code
vars == << opts, phase, contribs, todo, files, said, code >>

Flags == {"e", "s", "c", "q", "r"}
Options == [flags : SUBSET Flags, plot : BOOLEAN, out : {"", "given"}, range : Ranges]
Conflict(o) == {"e", "s"} \subseteq o.flags \/ {"c", "q"} \subseteq o.flags

\* the grid: min, min + 1, ... never beyond max
Steps(r) == IF r[2] < r[1] THEN 0 ELSE (r[2] - r[1]) \div 4 + 1
Grid(r) == [i \in 1 .. Steps(r) |-> r[1] + 4 * (i - 1)]

\* what a flag stands for
Means(f) == CASE f = "e" -> << "electronic", "unit" >>
              [] f = "s" -> << "electronic", "stated" >>
              [] f = "c" -> << "vibrational", "classical" >>
              [] f = "q" -> << "vibrational", "quantum" >>
              [] f = "r" -> << "rotational", "rigid" >>

Prefix(o) == IF o.out = "" THEN "input" ELSE "prefix"
Table(o, key) == [path |-> << Prefix(o), key, "dat" >>, kind |-> "table",
                  of |-> << key, {Means(f) : f \in o.flags}, Grid(o.range) >>]
Image(o, key) == [path |-> << Prefix(o), key, "format" >>, kind |-> "image",
                  of |-> << key, {Means(f) : f \in o.flags}, Grid(o.range) >>]

\* what a finished run has left behind
Outcome(o) ==
    LET wrong == Conflict(o)
        none == wrong \/ o.flags = {}
        T == IF none THEN {} ELSE {Table(o, k) : k \in {"P", "C"}}
        I == IF none \/ ~ o.plot THEN {} ELSE {Image(o, k) : k \in {"P", "C"}}
    IN [ok |-> ~ wrong, said |-> o.flags = {}, contribs |-> IF wrong THEN {} ELSE {Means(f) : f \in o.flags},
        tables |-> T, images |-> I]

Init == /\ opts \in Options /\ phase = "parse" /\ contribs = {} /\ todo = {} /\ files = {} /\ said = FALSE /\ code = 0

Reject == phase = "parse" /\ Conflict(opts) /\ phase' = "end" /\ code' = 2
          /\ UNCHANGED << opts, contribs, todo, files, said >>
Select == /\ phase = "parse" /\ ~ Conflict(opts)
          /\ contribs' = {Means(f) : f \in opts.flags}
          /\ phase' = IF contribs' = {} THEN "empty" ELSE "write"
          /\ todo' = IF contribs' = {} THEN {} ELSE {"P", "C"}
          /\ UNCHANGED << opts, files, said, code >>
Complain == phase = "empty" /\ said' = TRUE /\ phase' = "end" /\ UNCHANGED << opts, contribs, todo, files, code >>
\* the quantities are written in any order, each with its plot
Save(k) == /\ phase = "write" /\ k \in todo
           /\ files' = files \cup {[path |-> << Prefix(opts), k, "dat" >>, kind |-> "table",
                                    of |-> << k, contribs, Grid(opts.range) >>]}
           /\ IF opts.plot THEN phase' = "draw" /\ todo' = todo
              ELSE todo' = todo \ {k} /\ phase' = IF todo = {k} THEN "end" ELSE "write"
           /\ UNCHANGED << opts, contribs, said, code >>
Draw(k) == /\ phase = "draw" /\ k \in todo
           /\ \E f \in files : f.kind = "table" /\ f.of[1] = k /\
                files' = files \cup {[path |-> << Prefix(opts), k, "format" >>, kind |-> "image", of |-> f.of]}
           /\ todo' = todo \ {k} /\ phase' = IF todo = {k} THEN "end" ELSE "write"
           /\ UNCHANGED << opts, contribs, said, code >>

Next == \/ Reject \/ Select \/ Complain \/ \E k \in {"P", "C"} : Save(k) \/ Draw(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == phase = "end"
\* C19
ConflictsRejected == Done => (code # 0 <=> Conflict(opts))
NothingForNothing == Done => (files = {} <=> (Conflict(opts) \/ opts.flags = {}))
SaysSo == Done => (said <=> opts.flags = {})
OneElectronic == Cardinality({c \in contribs : c[1] = "electronic"}) <= 1
OneVibrational == Cardinality({c \in contribs : c[1] = "vibrational"}) <= 1
OptionsDecide == contribs # {} => \A f \in Flags : f \in opts.flags <=> Means(f) \in contribs
\* C20
TablesExactly == (Done /\ contribs # {}) =>
    {f \in files : f.kind = "table"} = {Table(opts, "P"), Table(opts, "C")}
GridLaws == LET g == Grid(opts.range)  r == opts.range IN
    /\ \A i \in 1 .. Len(g) : g[i] <= r[2] /\ g[i] >= r[1]
    /\ \A i \in 1 .. Len(g) - 1 : g[i + 1] - g[i] = 4
    /\ r[1] <= r[2] => g[1] = r[1] /\ g[Len(g)] + 4 > r[2]
    /\ (r[1] <= r[2] /\ (r[2] - r[1]) % 4 = 0) => g[Len(g)] = r[2]
PathsDistinct == \A f, g \in files : f.path = g.path => f = g
\* C21
PlotsExactly == (Done /\ contribs # {}) =>
    {f \in files : f.kind = "image"} = IF opts.plot THEN {Image(opts, "P"), Image(opts, "C")} ELSE {}
PlotShowsItsTable == \A f \in files : f.kind = "image" => \E g \in files : g.kind = "table" /\ g.of = f.of
PlotChangesNoTable == [][\A k \in {"P", "C"} : Draw(k) =>
    {f \in files' : f.kind = "table"} = {f \in files : f.kind = "table"}]_vars
Ends == <>Done

\* the big step used by CliTrace is the outcome of the small steps
OutcomeReached == Done =>
    LET r == Outcome(opts) IN
    /\ r.ok <=> code = 0
    /\ r.said <=> said
    /\ r.contribs = contribs
    /\ files = r.tables \cup r.images

DumpRuns == (Dump /\ phase = "parse") => PrintT("HIST " \o ToJson(opts))
=============================================================================
