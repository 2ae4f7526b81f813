------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Geometry of structures with exact coordinates.                          *)
(*                                                                         *)
(* A coordinate is a number a + b phi of the ring Z[phi], phi the golden   *)
(* ratio, written << a, b >>: lattice clusters (b = 0), hexagons (in the   *)
(* plane x + y + z = 0), pentagons, icosahedra and their relatives have    *)
(* exact coordinates of this form, so congruence is decided exactly.       *)
(* A structure is a sequence of atoms [el |-> element, p |-> << x, y, z >>] *)
(* at distinct positions.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Z[phi]
RAdd(x, y) == << x[1] + y[1], x[2] + y[2] >>
RSub(x, y) == << x[1] - y[1], x[2] - y[2] >>
RMul(x, y) == << x[1] * y[1] + x[2] * y[2], x[1] * y[2] + x[2] * y[1] + x[2] * y[2] >>
RScale(k, x) == << k * x[1], k * x[2] >>
R0 == << 0, 0 >>
RInt(n) == << n, 0 >>

\* vectors
VSub(u, v) == [i \in 1 .. 3 |-> RSub(u[i], v[i])]
VAdd(u, v) == [i \in 1 .. 3 |-> RAdd(u[i], v[i])]
Dot(u, v) == RAdd(RAdd(RMul(u[1], v[1]), RMul(u[2], v[2])), RMul(u[3], v[3]))
Cross(u, v) == << RSub(RMul(u[2], v[3]), RMul(u[3], v[2])),
                  RSub(RMul(u[3], v[1]), RMul(u[1], v[3])),
                  RSub(RMul(u[1], v[2]), RMul(u[2], v[1])) >>
Det(u, v, w) == Dot(Cross(u, v), w)
V0 == << R0, R0, R0 >>

Atoms(s) == 1 .. Len(s)
Dist2(s, i, j) == LET d == VSub(s[i].p, s[j].p) IN Dot(d, d)
\* matrix of squared distances
Distances(s) == TLCEval([i \in Atoms(s) |-> [j \in Atoms(s) |-> Dist2(s, i, j)]])
Vec(s, i, j) == VSub(s[j].p, s[i].p)
Volume(s, f) == Det(Vec(s, f[1], f[2]), Vec(s, f[1], f[3]), Vec(s, f[1], f[4]))

---------------------------------------------------------------------------
(* definition: a symmetry is a permutation of equal elements that keeps all distances; each one is  *)
(* the trace of exactly one proper rotation if the structure is planar but not linear, and of one   *)
(* rotation or rotoreflection, told apart by orientation, if it spans space                         *)

Collinear(s) == \A i, j, k \in Atoms(s) : Cross(Vec(s, i, j), Vec(s, i, k)) = V0
Flat(s) == \A i, j, k, l \in Atoms(s) : Volume(s, << i, j, k, l >>) = R0

Symmetries(s) ==
    LET d == Distances(s) IN
    {pi \in Permutations(Atoms(s)) :
        /\ \A i \in Atoms(s) : s[pi[i]].el = s[i].el
        /\ \A i, j \in Atoms(s) : d[pi[i]][pi[j]] = d[i][j]}

Keeps(s, pi) ==          \* orientation preserving
    \A i, j, k, l \in Atoms(s) :
        Volume(s, << pi[i], pi[j], pi[k], pi[l] >>) = Volume(s, << i, j, k, l >>)

Rotations(s) == IF Flat(s) THEN Symmetries(s) ELSE {pi \in Symmetries(s) : Keeps(s, pi)}

---------------------------------------------------------------------------
(* algorithm: a rotation is determined by the images of a frame of 3 (planar) or 4 atoms *)

LOCAL First(S) == CHOOSE x \in S : \A y \in S : x <= y
Frame(s) ==
    LET third == {k \in Atoms(s) : Cross(Vec(s, 1, 2), Vec(s, 1, k)) # V0}
        fourth == {k \in Atoms(s) : Volume(s, << 1, 2, First(third), k >>) # R0}
    IN IF Len(s) < 3 \/ third = {} THEN << >>
       ELSE IF fourth = {} THEN << 1, 2, First(third) >>
       ELSE << 1, 2, First(third), First(fourth) >>

Linear(s) == Frame(s) = << >>

\* images of the first n frame atoms with equal elements and mutual distances
RECURSIVE Images(_, _, _, _)
Images(s, d, f, n) ==
    IF n = 0 THEN {<< >>}
    ELSE {x \in {Append(t, j) : t \in Images(s, d, f, n - 1), j \in Atoms(s)} :
            /\ s[x[n]].el = s[f[n]].el
            /\ \A i \in 1 .. n - 1 : d[x[n]][x[i]] = d[f[n]][f[i]]}

RotationCount(s) ==
    LET f == TLCEval(Frame(s))
        d == Distances(s)
        n == Len(f)
        vol == IF n = 4 THEN Volume(s, f) ELSE R0
        \* element and distances to the frame identify an atom
        seen(x) == {<< s[b].el, [i \in 1 .. n |-> d[b][x[i]]] >> : b \in Atoms(s)}
        home == TLCEval(seen(f))
    IN Cardinality({x \in Images(s, d, f, n) : (n = 4 => Volume(s, x) = vol) /\ seen(x) = home})

---------------------------------------------------------------------------
(* inertia: the tensor times the total mass, with whole-number masses m[el] *)

MassSum(s, m, F(_)) ==
    LET S[i \in 0 .. Len(s)] == IF i = 0 THEN R0 ELSE RAdd(S[i - 1], RScale(m[s[i].el], F(s[i].p)))
    IN S[Len(s)]
Second(s, m, a, b) ==
    LET F(p) == RMul(p[a], p[b])  A(p) == p[a]  B(p) == p[b]  U(p) == RInt(1)
    IN RSub(RMul(MassSum(s, m, U), MassSum(s, m, F)), RMul(MassSum(s, m, A), MassSum(s, m, B)))
Tensor(s, m) ==
    LET q == TLCEval([a \in 1 .. 3 |-> [b \in 1 .. 3 |-> Second(s, m, a, b)]])
        tr == RAdd(RAdd(q[1][1], q[2][2]), q[3][3])
    IN [a \in 1 .. 3 |-> [b \in 1 .. 3 |-> RSub(IF a = b THEN tr ELSE R0, q[a][b])]]

\* elementary symmetric functions of the principal moments
Invariants(s, m) ==
    LET t == TLCEval(Tensor(s, m))
        minor(a, b) == RSub(RMul(t[a][a], t[b][b]), RMul(t[a][b], t[b][a]))
    IN << RAdd(RAdd(t[1][1], t[2][2]), t[3][3]),
          RAdd(RAdd(minor(1, 2), minor(1, 3)), minor(2, 3)),
          Det(t[1], t[2], t[3]) >>

---------------------------------------------------------------------------
(* placements *)
Translate(s, v) == [i \in Atoms(s) |-> [s[i] EXCEPT !.p = VAdd(@, v)]]
Turn(s, M) == [i \in Atoms(s) |-> [s[i] EXCEPT !.p = [a \in 1 .. 3 |-> Dot(M[a], s[i].p)]]]
Relabel(s, pi) == [i \in Atoms(s) |-> s[pi[i]]]
Matrix(rows) == [a \in 1 .. 3 |-> [b \in 1 .. 3 |-> RInt(rows[a][b])]]
CubeRotations ==
    LET E == {-1, 0, 1} IN
    {M \in [1 .. 3 -> {<< 1, 0, 0 >>, << -1, 0, 0 >>, << 0, 1, 0 >>, << 0, -1, 0 >>, << 0, 0, 1 >>, << 0, 0, -1 >>}] :
        LET m == Matrix(M) IN Det(m[1], m[2], m[3]) = RInt(1)}
Mirror == Matrix(<< << -1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >> >>)
=============================================================================
