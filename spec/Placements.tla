----------------------------- MODULE Placements -----------------------------
(***************************************************************************)
(* Structures grow atom by atom on a small lattice and are moved about:    *)
(* what the symmetry order and the moments may depend on.                  *)
(***************************************************************************)
EXTENDS Shapes

CONSTANTS MaxAtoms, Elements, Xs, Ys, Zs
VARIABLES s, moved, count, inv
vars == << s, moved, count, inv >>

Mass == [e \in Elements |-> IF e = "A" THEN 1 ELSE 3]
Code(p) == p[1][1] * 100 + p[2][1] * 10 + p[3][1]

\* phi = << 0, 1 >>, 1/phi = << -1, 1 >>
Phi == << 0, 1 >>   Inv == << -1, 1 >>
Sgn2 == {-1, 1}
Cyc(x, y, z) == {<< x, y, z >>, << z, x, y >>, << y, z, x >>}
IcosaPts == UNION {Cyc(R0, RInt(a), RScale(b, Phi)) : a \in Sgn2, b \in Sgn2}
DodecaPts == {<< RInt(a), RInt(b), RInt(c) >> : a \in Sgn2, b \in Sgn2, c \in Sgn2}
             \cup UNION {Cyc(R0, RScale(a, Inv), RScale(b, Phi)) : a \in Sgn2, b \in Sgn2}
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN << x >> \o AsSeq(S \ {x})
Uni(S) == LET q == AsSeq(S) IN [i \in 1 .. Len(q) |-> [el |-> "A", p |-> q[i]]]
Apex == << R0, RInt(1), Phi >>
Around(v) == {p \in IcosaPts : LET d == VSub(p, v) IN Dot(d, d) = RInt(4)}
Pentagon == Uni(Around(Apex))
Hexagon == Uni({<< RInt(q[1]), RInt(q[2]), RInt(q[3]) >> :
                q \in {r \in (-1 .. 1) \X (-1 .. 1) \X (-1 .. 1) : r[1] + r[2] + r[3] = 0 /\ r # << 0, 0, 0 >>}})
Cube == Uni({<< RInt(a), RInt(b), RInt(c) >> : a \in Sgn2, b \in Sgn2, c \in Sgn2})
Octa == Uni(Cyc(RInt(1), R0, R0) \cup Cyc(RInt(-1), R0, R0))
Tetra == Uni({<< RInt(1), RInt(1), RInt(1) >>, << RInt(1), RInt(-1), RInt(-1) >>,
              << RInt(-1), RInt(1), RInt(-1) >>, << RInt(-1), RInt(-1), RInt(1) >>})
\* the textbook orders of the rotational subgroups
Textbook ==
    << << Uni(IcosaPts), 60 >>, << Uni(DodecaPts), 60 >>, << Pentagon, 10 >>,
       << Append(Pentagon, [el |-> "A", p |-> Apex]), 5 >>, << Append(Pentagon, [el |-> "A", p |-> V0]), 5 >>,
       << Hexagon, 12 >>, << Cube, 24 >>, << Octa, 24 >>, << Tetra, 12 >>,
       << [Octa EXCEPT ![1].el = "B"], 4 >>, << [Cube EXCEPT ![1].el = "B"], 3 >>,
       << Append(Uni(IcosaPts), [el |-> "B", p |-> Apex]), 0 >> >>
ASSUME \A i \in 1 .. 11 : RotationCount(Textbook[i][1]) = Textbook[i][2]

Init == s = << >> /\ moved = "" /\ count = 0 /\ inv = << >>

Measure(t) == /\ count' = IF Frame(t) = << >> THEN 0 ELSE RotationCount(t)
              /\ inv' = Invariants(t, Mass)

\* they generate the rotation group of the lattice
Turns == {<< << 0, -1, 0 >>, << 1, 0, 0 >>, << 0, 0, 1 >> >>, << << 0, 0, 1 >>, << 1, 0, 0 >>, << 0, 1, 0 >> >>}
ASSUME Turns \subseteq CubeRotations

\* atoms are placed in increasing order of their position: the order itself is varied by Shuffle and Cycle
Place == /\ moved = "" /\ Len(s) < MaxAtoms
         /\ \E x \in Xs, y \in Ys, z \in Zs, e \in Elements :
              LET p == << RInt(x), RInt(y), RInt(z) >> IN
              /\ IF s = << >> THEN TRUE ELSE Code(s[Len(s)].p) < Code(p)
              /\ s' = Append(s, [el |-> e, p |-> p])
         /\ UNCHANGED moved /\ Measure(s')

Rotate == moved = "" /\ moved' = "rotate" /\ \E M \in Turns : s' = Turn(s, Matrix(M)) /\ Measure(s')
Shift == moved = "" /\ moved' = "shift" /\ s' = Translate(s, << RInt(3), RInt(-2), RInt(5) >>) /\ Measure(s')
Reflect == moved = "" /\ moved' = "reflect" /\ s' = Turn(s, Mirror) /\ Measure(s')
Shuffle == /\ moved = "" /\ moved' = "shuffle"
           /\ s' = [i \in Atoms(s) |-> s[Len(s) + 1 - i]] /\ Measure(s')
Cycle == /\ moved = "" /\ moved' = "cycle" /\ Len(s) > 1
         /\ s' = [i \in Atoms(s) |-> s[IF i = Len(s) THEN 1 ELSE i + 1]] /\ Measure(s')

Next == Place \/ (Len(s) >= 3 /\ (Rotate \/ Shift \/ Reflect \/ Shuffle \/ Cycle))
Spec == Init /\ [][Next]_vars

Solid == Len(s) >= 3 /\ ~ Linear(s)

\* the algorithm counts what the definition says
CountIsCardinality == (moved = "" /\ Solid) => count = Cardinality(Rotations(s))
\* rotations form a group: identity, products, inverses
GroupLaws == (moved = "" /\ Solid) =>
    LET G == TLCEval(Rotations(s)) IN
    /\ [i \in Atoms(s) |-> i] \in G
    /\ \A f, g \in G : [i \in Atoms(s) |-> f[g[i]]] \in G
    /\ \A f \in G : \E g \in G : \A i \in Atoms(s) : g[f[i]] = i
\* a rotation that moves equal elements onto each other divides every orbit evenly
OrbitsDivide == (moved = "" /\ Solid) =>
    LET G == TLCEval(Rotations(s)) IN
    \A i \in Atoms(s) : Cardinality(G) % Cardinality({g[i] : g \in G}) = 0
LinearIffCollinear == Len(s) >= 3 => (Linear(s) <=> Collinear(s))
\* the determinant of the tensor vanishes exactly for linear structures
FlatMoment == Len(s) >= 2 => ((inv[3] = R0) <=> Collinear(s))

\* placement and numbering do not matter
PlacementFree == [][moved' # "" => (count' = count /\ inv' = inv)]_vars
=============================================================================
