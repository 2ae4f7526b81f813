------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* Reading a file of isomers, frame by frame.  Values are symbolic:        *)
(* << frame, position >>, so that a value in the wrong place is visible.    *)
(* The parser delivers a list of 9 numbers as a 3 x 3 matrix filled column   *)
(* by column, a single number as a scalar and any other list as a vector;    *)
(* the loader has to undo this.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS MaxFrames, ModeCounts
VARIABLES file, at, cols, props
vars == << file, at, cols, props >>

Frame(i, d) == [E |-> << i, "E" >>, g |-> << i, "g" >>, nu |-> [k \in 1 .. d |-> << i, k >>], shape |-> << i, "xyz" >>]
Files == UNION {[1 .. n -> ModeCounts] : n \in 1 .. MaxFrames}

\* what the parser makes of a list of numbers
Parsed(nu) == CASE Len(nu) = 1 -> [dims |-> << >>, v |-> << nu[1] >>]
                [] Len(nu) = 9 -> [dims |-> << 3, 3 >>, v |-> [r \in 1 .. 3 |-> [c \in 1 .. 3 |-> nu[3 * (c - 1) + r]]]]
                [] OTHER -> [dims |-> << Len(nu) >>, v |-> nu]
\* column by column
Flatten(x) == IF x.dims = << 3, 3 >> THEN [k \in 1 .. 9 |-> x.v[((k - 1) % 3) + 1][((k - 1) \div 3) + 1]] ELSE x.v

Keys == {"energy", "multiplicity", "frequencies", "moments", "symmetry"}
Empty == [k \in Keys |-> << >>]
None == [kind |-> "none"]

Init == /\ \E f \in Files : file = [i \in DOMAIN f |-> Frame(i, f[i])]
        /\ at = 0 /\ cols = Empty /\ props = None

Read == /\ at < Len(file) /\ at' = at + 1
        /\ LET x == file[at + 1] IN
           cols' = [energy |-> Append(cols.energy, x.E), multiplicity |-> Append(cols.multiplicity, x.g),
                    frequencies |-> Append(cols.frequencies, Flatten(Parsed(x.nu))),
                    moments |-> Append(cols.moments, << "moments", x.shape >>),
                    symmetry |-> Append(cols.symmetry, << "order", x.shape >>)]
        /\ UNCHANGED << file, props >>

Ragged == \E i, j \in DOMAIN file : Len(file[i].nu) # Len(file[j].nu)
Stack == /\ at = Len(file) /\ props = None
         /\ props' = IF Ragged THEN [kind |-> "error"] ELSE [kind |-> "ok", v |-> cols]
         /\ UNCHANGED << file, at, cols >>
Next == Read \/ Stack
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Aligned == \A k \in Keys : Len(cols[k]) = at
RowIsIsomer == \A i \in 1 .. at :
    /\ cols.energy[i] = file[i].E /\ cols.multiplicity[i] = file[i].g
    /\ cols.frequencies[i] = file[i].nu
    /\ cols.moments[i][2] = file[i].shape /\ cols.symmetry[i][2] = file[i].shape
NothingLost == props.kind = "ok" => \A i \in DOMAIN file : \A k \in 1 .. Len(file[i].nu) :
    props.v.frequencies[i][k] = << i, k >>
NeverMixed == props.kind = "ok" => ~ Ragged
Ends == <>(props # None)
=============================================================================
