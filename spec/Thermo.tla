------------------------------- MODULE Thermo -------------------------------
(***************************************************************************)
(* Superposition approximation: what the library computes, stated as       *)
(* mathematics over BigFloat numbers.                                      *)
(*                                                                         *)
(* A contribution c is a record                                            *)
(*   kind "E": E (energies, eV), g (spin multiplicities)                   *)
(*   kind "C": nu (N x D frequencies, THz)            classical vibrations *)
(*   kind "Q": nu (N x D frequencies, THz)              quantum vibrations *)
(*   kind "R": sym (symmetry orders), mom (N x 3 moments)         rotation *)
(*   kind "U": z, w, v (N temperature-independent values)    user-defined  *)
(*   kind "X": d (N gaps, eV), r (N ratios)   user-defined, with temperature:*)
(*             a level d above the lowest one, r times as degenerate        *)
(*                                                                         *)
(* A temperature is a BigFloat number (K): Zero, positive, or PosInf.      *)
(* Weights are defined up to a factor common to all minima at a given      *)
(* temperature (the library leaves such factors out by design).            *)
(***************************************************************************)
EXTENDS Elementary

\* (hi * 10^8 + lo) * 10^-p, p <= 36
LOCAL Ten8 == FromInt(100000000)
LOCAL TenTo(p) == FoldLeft(Mul, One, [i \in 1 .. p |-> FromInt(10)])
Dec(hi, lo, p) == Div(Add(Mul(FromInt(hi), Ten8), FromInt(lo)), TenTo(p))

KB == Dec(86173332, 62145179, 20)          \* CODATA 2018 Boltzmann constant, eV/K
HPLANCK == Dec(41356676, 96923859, 18)     \* CODATA 2018 Planck constant, eV/THz
LN2 == Ln2
Half == Scale(One, -1)
ThreeHalves == Mul(FromInt(3), Half)

Exp(x) == ExpWith(x, LN2)
ExpNeg(x) == ExpWith(Neg(x), LN2)

IsHot(T) == T = PosInf
IsCold(T) == IsFin(T) /\ IsZero(T)
IsWarm(T) == IsFin(T) /\ Sgn(T) = 1

\* energy / (kB T) for a warm T
Ratio(energy, T) == Div(energy, Mul(KB, T))

Size(c) == CASE c.kind = "E" -> Len(c.E)
             [] c.kind = "R" -> Len(c.sym)
             [] c.kind = "U" -> Len(c.z)
             [] c.kind = "X" -> Len(c.d)
             [] OTHER -> Len(c.nu)

\* all contributions describe the same minima
Consistent(cs) == cs # << >> /\ \A i \in 1 .. Len(cs) : Size(cs[i]) = Size(cs[1])

LOCAL Map(F(_), s) == [i \in 1 .. Len(s) |-> F(s[i])]

---------------------------------------------------------------------------
(* Electronic contribution *)
GroundEnergy(c) == MinOf(c.E)
RelEnergy(c, a) == Sub(c.E[a], GroundEnergy(c))

ElectronicX(c, a, T) ==          \* thermal exponent; only asked at warm or hot T
    IF IsHot(T) THEN Zero ELSE Ratio(RelEnergy(c, a), T)
ElectronicZ(c, a, T) ==
    IF IsCold(T) THEN IF Eq(c.E[a], GroundEnergy(c)) THEN c.g[a] ELSE Zero
    ELSE Mul(c.g[a], ExpNeg(ElectronicX(c, a, T)))
ElectronicW(c, a, T) == IF IsCold(T) THEN Zero    \* of a populated minimum
                        ELSE Neg(ElectronicX(c, a, T))

---------------------------------------------------------------------------
(* Vibrations: x = h nu / (2 kB T) *)
ModeX(nu, T) == Scale(Ratio(Mul(HPLANCK, nu), T), -1)

ClassicalZ(c, a) == Div(One, Prod(c.nu[a]))
Modes(c, a) == FromInt(Len(c.nu[a]))

\* zero-point exponent: sum of x
ZeroPointX(c, a, T) == LET X(nu) == ModeX(nu, T) IN Sum(Map(X, c.nu[a]))

QuantumZ(c, a, T) ==
    IF IsCold(T) THEN One      \* as implemented: vibrations are frozen out at T = 0
    ELSE LET Occ(nu) == Sub(One, ExpNeg(Scale(ModeX(nu, T), 1)))
         IN Div(ExpNeg(ZeroPointX(c, a, T)), Prod(Map(Occ, c.nu[a])))

\* x coth x and (x / sinh x)^2, with q = exp(-2x)
XCothX(x) == LET q == TLCEval(ExpNeg(Scale(x, 1)))
             IN Div(Mul(x, Add(One, q)), Sub(One, q))
XCschX2(x) == LET q == TLCEval(ExpNeg(Scale(x, 1)))
                  d == TLCEval(Sub(One, q))
              IN Div(Mul(Scale(Sqr(x), 2), q), Sqr(d))

QuantumW(c, a, T) ==
    IF IsCold(T) THEN Zero
    ELSE LET F(nu) == XCothX(TLCEval(ModeX(nu, T))) IN Neg(Sum(Map(F, c.nu[a])))
QuantumV(c, a, T) ==
    IF IsCold(T) THEN Zero
    ELSE LET F(nu) == XCschX2(TLCEval(ModeX(nu, T))) IN Sum(Map(F, c.nu[a]))

---------------------------------------------------------------------------
(* Rotation; a moment that vanishes up to rounding counts as 1 *)
Vanishing(row, i) == \/ Sgn(row[i]) <= 0
                     \/ Lt(row[i], Div(MaxOf(row), FromInt(1000000)))
MomentFactor(row) ==
    Sqrt(Prod([i \in 1 .. Len(row) |-> IF Vanishing(row, i) THEN One ELSE row[i]]))
RotationalZ(c, a) == Div(MomentFactor(c.mom[a]), c.sym[a])

---------------------------------------------------------------------------
(* A second level: x = d / kB T, z = 1 + r exp(-x) *)
LevelTerm(c, a, T) == IF IsCold(T) THEN Zero
                      ELSE IF IsHot(T) THEN c.r[a]
                      ELSE Mul(c.r[a], ExpNeg(Ratio(c.d[a], T)))
LevelShare(c, a, T) == LET q == TLCEval(LevelTerm(c, a, T)) IN Div(q, Add(One, q))
TwoLevelZ(c, a, T) == Add(One, LevelTerm(c, a, T))
TwoLevelW(c, a, T) == IF ~ IsWarm(T) THEN Zero ELSE Neg(Mul(Ratio(c.d[a], T), LevelShare(c, a, T)))
TwoLevelV(c, a, T) == IF ~ IsWarm(T) THEN Zero
                      ELSE LET s == TLCEval(LevelShare(c, a, T))
                           IN Mul(Sqr(Ratio(c.d[a], T)), Mul(s, Sub(One, s)))

---------------------------------------------------------------------------
(* One contribution of one minimum *)
Weight(c, a, T) == CASE c.kind = "E" -> ElectronicZ(c, a, T)
                     [] c.kind = "C" -> ClassicalZ(c, a)
                     [] c.kind = "Q" -> QuantumZ(c, a, T)
                     [] c.kind = "R" -> RotationalZ(c, a)
                     [] c.kind = "U" -> c.z[a]
                     [] c.kind = "X" -> TwoLevelZ(c, a, T)
\* beta d/dbeta ln Z
WOf(c, a, T) == CASE c.kind = "E" -> ElectronicW(c, a, T)
                  [] c.kind = "C" -> Neg(Modes(c, a))
                  [] c.kind = "Q" -> QuantumW(c, a, T)
                  [] c.kind = "R" -> Neg(ThreeHalves)
                  [] c.kind = "U" -> c.w[a]
                  [] c.kind = "X" -> TwoLevelW(c, a, T)
\* beta^2 d^2/dbeta^2 ln Z
VOf(c, a, T) == CASE c.kind = "E" -> Zero
                  [] c.kind = "C" -> Modes(c, a)
                  [] c.kind = "Q" -> QuantumV(c, a, T)
                  [] c.kind = "R" -> ThreeHalves
                  [] c.kind = "U" -> c.v[a]
                  [] c.kind = "X" -> TwoLevelV(c, a, T)
\* magnitude of the exponent: sets the sensitivity to the physical constants
XOf(c, a, T) == IF ~ IsWarm(T) THEN Zero
                ELSE CASE c.kind = "E" -> ElectronicX(c, a, T)
                       [] c.kind = "Q" -> ZeroPointX(c, a, T)
                  [] c.kind = "X" -> Ratio(c.d[a], T)
                       [] OTHER -> Zero

---------------------------------------------------------------------------
(* The superposition of contributions cs (a sequence) over N minima *)
Minima(cs) == 1 .. Size(cs[1])

OverContribs(F(_, _, _), cs, a, T) == [i \in 1 .. Len(cs) |-> F(cs[i], a, T)]

Weights(cs, T) == [a \in Minima(cs) |-> Prod(OverContribs(Weight, cs, a, T))]
\* what the occupations tend to when kB T exceeds all energies and quanta: energies drop out, and
\* x / sinh x -> 1 leaves the inverse frequencies of a quantum oscillator too
LOCAL HotWeight(c, a, T) == CASE c.kind = "E" -> c.g[a]
                              [] c.kind = "Q" -> ClassicalZ(c, a)
                              [] c.kind = "X" -> TwoLevelZ(c, a, PosInf)
                              [] OTHER -> Weight(c, a, T)
HotWeights(cs) == [a \in Minima(cs) |-> Prod(OverContribs(HotWeight, cs, a, PosInf))]

BetaW(cs, T)   == [a \in Minima(cs) |-> Sum(OverContribs(WOf, cs, a, T))]
Beta2V(cs, T)  == [a \in Minima(cs) |-> Sum(OverContribs(VOf, cs, a, T))]
Exponents(cs, T) == [a \in Minima(cs) |-> Sum(OverContribs(XOf, cs, a, T))]

Normalise(z) == LET tot == TLCEval(Sum(z)) IN [a \in 1 .. Len(z) |-> Div(z[a], tot)]

Probability(cs, T) == Normalise(TLCEval(Weights(cs, T)))

\* sum_a P_a f_a
Mean(p, f) == Sum([a \in 1 .. Len(p) |-> IF IsZero(p[a]) THEN Zero ELSE Mul(p[a], f[a])])

HeatCapacityFrom(p, w, v) ==
    LET m == TLCEval(Mean(p, w))
        dev == TLCEval([a \in 1 .. Len(p) |-> Sqr(Sub(w[a], m))])
    IN Add(Mean(p, v), Mean(p, dev))

HeatCapacity(cs, T) ==
    HeatCapacityFrom(TLCEval(Probability(cs, T)), TLCEval(BetaW(cs, T)), TLCEval(Beta2V(cs, T)))

\* energy above the electronic ground state in units of kB T: U / (kB T) = - <beta W>
MeanEnergy(cs, T) == Neg(Mean(TLCEval(Probability(cs, T)), TLCEval(BetaW(cs, T))))

\* the zero-temperature answer of a mix is the T -> 0 limit only if the lowest electronic energy
\* also is the lowest energy once the zero-point energies are included, with equal ties
TotalGround(cs) ==       \* energies including zero point, per minimum, eV
    LET Part(c, a) == CASE c.kind = "E" -> c.E[a]
                        [] c.kind = "Q" -> Scale(Mul(HPLANCK, Sum(c.nu[a])), -1)
                        [] OTHER -> Zero
    IN [a \in Minima(cs) |-> Sum([i \in 1 .. Len(cs) |-> Part(cs[i], a)])]
=============================================================================
