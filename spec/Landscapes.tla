----------------------------- MODULE Landscapes -----------------------------
(***************************************************************************)
(* A landscape evolves: minima are found, dropped or relisted, the zero of *)
(* energy moves, contributions are registered, the system is heated.  The  *)
(* properties of the superposition approximation are state invariants and  *)
(* action properties of this system; TLC checks them in every reachable    *)
(* state.  This is what makes Thermo trustworthy as the oracle for the     *)
(* implementation: the same operators are used by ApiTrace.                *)
(***************************************************************************)
EXTENDS Kernel, FiniteSets, Integers

CONSTANTS MaxN,         \* number of minima
          Pool,         \* indices of the kinds of minima below
          MaxMix        \* number of contributions registered

VARIABLES mins,         \* sequence of indices into Kinds
          mix,          \* sequence of contribution kinds, in order of registration
          t,            \* index into Temps
          shift,        \* TRUE once the zero of energy has been moved
          ans           \* what the library reports: occupations, heat capacity, weights, W, V
vars == << mins, mix, t, shift, ans >>

I(n) == FromInt(n)
F(n, k) == Scale(FromInt(n), -k)          \* n / 2^k

Kinds == <<
  [e |-> I(0),      g |-> I(1), nu |-> << I(1), I(2) >>,       sym |-> I(1),  mom |-> << I(1), I(2), I(3) >>,    u |-> F(1, 1)],
  [e |-> F(1, 6),   g |-> I(3), nu |-> << I(2), I(3) >>,       sym |-> I(12), mom |-> << I(2), I(2), I(2) >>,    u |-> I(3)],
  [e |-> I(0),      g |-> I(2), nu |-> << F(3, 1), F(3, 1) >>, sym |-> I(2),  mom |-> << Zero, I(5), I(5) >>,    u |-> I(1)],
  [e |-> F(1, 2),   g |-> I(1), nu |-> << F(1, 2), I(1) >>,    sym |-> I(1),  mom |-> << I(1), I(4), I(9) >>,    u |-> I(7)],
  [e |-> Neg(I(2)), g |-> I(5), nu |-> << I(4), I(8) >>,       sym |-> I(3),  mom |-> << F(-1, 40), I(7), I(7) >>, u |-> I(2)],
  [e |-> F(1, 30),  g |-> I(1), nu |-> << I(1), I(2) >>,       sym |-> I(6),  mom |-> << I(3), I(3), I(8) >>,    u |-> F(1, 9)] >>

ContribKinds == {"E", "C", "Q", "R", "U", "X"}
Temps == << Zero, I(10), I(300), I(3000), I(100000), PosInf >>
Shifted == I(40000)

EnergyIn(m, sh) == IF sh THEN Add(Kinds[m].e, Shifted) ELSE Kinds[m].e
Energy(m) == EnergyIn(m, shift)

ContributionIn(k, ms, sh) ==
    LET n == 1 .. Len(ms) IN
    CASE k = "E" -> [kind |-> "E", E |-> [a \in n |-> EnergyIn(ms[a], sh)], g |-> [a \in n |-> Kinds[ms[a]].g]]
      [] k = "C" -> [kind |-> "C", nu |-> [a \in n |-> Kinds[ms[a]].nu]]
      [] k = "Q" -> [kind |-> "Q", nu |-> [a \in n |-> Kinds[ms[a]].nu]]
      [] k = "R" -> [kind |-> "R", sym |-> [a \in n |-> Kinds[ms[a]].sym], mom |-> [a \in n |-> Kinds[ms[a]].mom]]
      [] k = "U" -> [kind |-> "U", z |-> [a \in n |-> Kinds[ms[a]].u], w |-> [a \in n |-> Kinds[ms[a]].e],
                     v |-> [a \in n |-> Kinds[ms[a]].g]]
      [] k = "X" -> [kind |-> "X", d |-> [a \in n |-> Kinds[ms[a]].u], r |-> [a \in n |-> Kinds[ms[a]].g]]

Contribution(k) == ContributionIn(k, mins, shift)

Has(k) == \E i \in 1 .. Len(mix) : mix[i] = k
T == Temps[t]
CSIn(ms, mx, sh) == [i \in 1 .. Len(mx) |-> ContributionIn(mx[i], ms, sh)]
CS == TLCEval(CSIn(mins, mix, shift))

Answer(ms, mx, ti, sh) ==
    LET cs == TLCEval(CSIn(ms, mx, sh))
        temp == Temps[ti]
        z == TLCEval(Weights(cs, temp))
        p == TLCEval(Normalise(z))
        w == TLCEval(BetaW(cs, temp))
        v == TLCEval(Beta2V(cs, temp))
    IN [z |-> z, p |-> p, w |-> w, v |-> v, c |-> TLCEval(HeatCapacityFrom(p, w, v))]

P == ans.p
CV == ans.c
N == Len(mins)

---------------------------------------------------------------------------
Becomes(ms, mx, ti, sh) ==
    mins' = ms /\ mix' = mx /\ t' = ti /\ shift' = sh /\ ans' = TLCEval(Answer(ms, mx, ti, sh))

Init == /\ mins \in {<< m >> : m \in Pool}
        /\ mix \in {<< k >> : k \in ContribKinds}
        /\ t = 1
        /\ shift = FALSE
        /\ ans = TLCEval(Answer(mins, mix, t, shift))

Find(m)     == N < MaxN  /\ Becomes(Append(mins, m), mix, t, shift)
Drop(i)     == N > 1     /\ Becomes(RemoveAt(mins, i), mix, t, shift)
Swap(i)     == i < N     /\ Becomes([mins EXCEPT ![i] = mins[i + 1], ![i + 1] = mins[i]], mix, t, shift)
Register(k) == Len(mix) < MaxMix /\ ~ Has(k) /\ ~ (k = "Q" /\ IsHot(T))
               /\ Becomes(mins, Append(mix, k), t, shift)
Reorder     == Len(mix) > 1 /\ Becomes(mins, Reverse(mix), t, shift)
\* no quantum vibrations at infinite temperature: outside the domain of the library
Heat        == t < Len(Temps) /\ (Has("Q") => t + 1 < Len(Temps)) /\ Becomes(mins, mix, t + 1, shift)
MoveZero    == ~ shift /\ Becomes(mins, mix, t, TRUE)

Next == \/ \E m \in Pool : Find(m)
        \/ \E i \in 1 .. N : Drop(i)
        \/ \E i \in 1 .. N : Swap(i)
        \/ \E k \in ContribKinds : Register(k)
        \/ Reorder \/ Heat \/ MoveZero

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Eps == Scale(One, -90)
Near(x, y) == Leq(Abs(Sub(x, y)), Mul(Eps, Add(One, Add(Abs(x), Abs(y)))))
NearSeq(p, q) == Len(p) = Len(q) /\ \A a \in 1 .. Len(p) : Near(p[a], q[a])
\* relative
NearRel(x, y) == Leq(Abs(Sub(x, y)), Mul(Eps, Abs(y)))
Coarse(x, y, tol) == Leq(Abs(Sub(x, y)), tol)

(* C01 *)
Distribution ==
    LET p == P IN
      /\ Len(p) = N
      /\ \A a \in 1 .. N : IsFin(p[a]) /\ Sgn(p[a]) >= 0 /\ Leq(p[a], Add(One, Eps))
      /\ Near(Sum(p), One)

(* C02: the Boltzmann law for pairs, stated on energy differences *)
BoltzmannPairs ==
    (mix = << "E" >> /\ IsWarm(T)) => LET p == P IN
      \A a, b \in 1 .. N :
        LET d == Ratio(Sub(Energy(mins[a]), Energy(mins[b])), T) IN
        Sgn(d) >= 0 =>      \* avoid overflow: state it for the upper minimum of the pair
          NearRel(Mul(p[a], Kinds[mins[b]].g), Mul(Mul(p[b], Kinds[mins[a]].g), ExpNeg(d)))

(* C03 *)
ZeroOfEnergy == [][MoveZero => NearSeq(P', P) /\ Near(CV', CV)]_vars

(* C04 *)
GroundOnly ==
    IsCold(T) => LET p == P  w == TLCEval(Weights(CS, T))
                     lowest == {a \in 1 .. N : \A b \in 1 .. N : Leq(Energy(mins[a]), Energy(mins[b]))}
                 IN /\ Has("E") => \A a \in 1 .. N : (a \in lowest) <=> ~ IsZero(p[a])
                    /\ IsFin(CV) /\ Sgn(CV) >= 0
LimitAtZero ==            \* without quantum vibrations, or where zero-point energy keeps the order
    (IsCold(T) /\ ~ Has("Q")) =>
      LET p == P  q == TLCEval(Probability(CS, F(1, 30))) IN
      \A a \in 1 .. N : Near(p[a], q[a])

(* C05 *)
HotLimit ==
    IsWarm(T) =>
      LET w == TLCEval(Normalise(TLCEval(HotWeights(CS))))  p == P  x == TLCEval(MaxOf(Exponents(CS, T))) IN
      Leq(x, F(1, 3)) => \A a \in 1 .. N : Coarse(p[a], w[a], Mul(Scale(x, 2), w[a]))
HotIsLimit == IsHot(T) => NearSeq(P, TLCEval(Normalise(TLCEval(HotWeights(CS)))))
\* classical and quantum descriptions differ by terms of second order
Correspondence ==
    (Has("Q") /\ ~ Has("C") /\ IsWarm(T)) =>
      LET c2 == TLCEval([i \in 1 .. Len(mix) |-> Contribution(IF mix[i] = "Q" THEN "C" ELSE mix[i])])
          x == TLCEval(Contribution("Q"))
          x2(a) == LET y == [i \in 1 .. Len(x.nu[a]) |-> Sqr(ModeX(x.nu[a][i], T))] IN Sum(y)
          m == TLCEval(MaxOf([a \in 1 .. N |-> x2(a)]))
          p == P  q == TLCEval(Probability(c2, T))
      IN /\ \A a \in 1 .. N : Coarse(p[a], q[a], m)
         /\ Leq(m, F(1, 4)) =>
            LET e == TLCEval(MaxOf(Exponents(c2, T))) IN
            Coarse(CV, HeatCapacity(c2, T), Mul(Scale(m, 2), Sqr(Add(e, I(3)))))

(* C06 *)
Equivariant ==
    [][\A i \in 1 .. N : Swap(i) =>
         /\ \A a \in 1 .. N : Near(P'[a], P[IF a = i THEN i + 1 ELSE IF a = i + 1 THEN i ELSE a])
         /\ Near(CV', CV)]_vars
TwinsEqual == LET p == P IN \A a, b \in 1 .. N : mins[a] = mins[b] => Near(p[a], p[b])

(* C08 *)
Composition ==
    [][\A k \in ContribKinds : Register(k) =>
         LET c == TLCEval(Contribution(k)) IN
         \A a \in 1 .. N :
           /\ NearRel(ans'.z[a], Mul(ans.z[a], Weight(c, a, T)))
           /\ Near(ans'.w[a], Add(ans.w[a], WOf(c, a, T)))
           /\ Near(ans'.v[a], Add(ans.v[a], VOf(c, a, T)))]_vars
OrderIrrelevant == [][Reorder => NearSeq(P', P) /\ Near(CV', CV)]_vars

(* C11: the mean of an observable *)
Observable == [a \in 1 .. N |-> Kinds[mins[a]].u]
MeanIsMean ==
    LET p == P
                   o == TLCEval(Observable)
                   live == {a \in 1 .. N : ~ IsZero(p[a])}
                   m == TLCEval(Mean(p, o))
                   poisoned == [a \in 1 .. N |-> IF a \in live THEN o[a] ELSE PosInf]
               IN /\ \E a \in live : Leq(o[a], Add(m, Eps))
                  /\ \E a \in live : Leq(m, Add(o[a], Eps))
                  /\ Near(Mean(p, [a \in 1 .. N |-> I(7)]), I(7))
                  /\ Near(Mean(p, [a \in 1 .. N |-> Add(Mul(I(3), o[a]), I(2))]), Add(Mul(I(3), m), I(2)))
                  /\ Mean(p, poisoned) = m

(* C12 *)
ClassicalWeight ==
    Has("C") => LET c == TLCEval(Contribution("C"))
                    scaled == TLCEval([c EXCEPT !.nu = [a \in 1 .. N |-> [i \in 1 .. 2 |-> Mul(I(6), c.nu[a][i])]]])
                    flipped == TLCEval([c EXCEPT !.nu = [a \in 1 .. N |-> Reverse(c.nu[a])]])
                IN \A a \in 1 .. N :
                     /\ NearRel(Mul(ClassicalZ(c, a), Prod(c.nu[a])), One)
                     /\ NearRel(Mul(ClassicalZ(scaled, a), ClassicalZ(c, 1)), Mul(ClassicalZ(c, a), ClassicalZ(scaled, 1)))
                     /\ NearRel(ClassicalZ(flipped, a), ClassicalZ(c, a))

(* C13: the closed form is the sum over the levels (n + 1/2) h nu of every mode *)
LevelSum(x) ==
    LET q == TLCEval(ExpNeg(Scale(x, 1)))
        Step(acc, n) == << Add(acc[1], acc[2]), Mul(acc[2], q) >>
    IN FoldLeft(Step, << Zero, TLCEval(ExpNeg(x)) >>, [n \in 1 .. 400 |-> n])[1]
OscillatorLevels ==
    (Has("Q") /\ IsWarm(T)) =>
      LET c == TLCEval(Contribution("Q"))
          xs(a) == [i \in 1 .. Len(c.nu[a]) |-> ModeX(c.nu[a][i], T)]
      IN \A a \in 1 .. N :
           LET x == TLCEval(xs(a))
               z == [i \in 1 .. Len(x) |-> LevelSum(x[i])]
           IN (\A i \in 1 .. Len(x) : Leq(F(1, 3), x[i])) => NearRel(QuantumZ(c, a, T), Prod(z))

(* C14 *)
RotorWeight ==
    Has("R") => LET c == TLCEval(Contribution("R")) IN
      \A a, b \in 1 .. N :
        LET lin(m) == Leq(Kinds[m].mom[1], F(1, 20))
            pr(m) == IF lin(m) THEN Mul(Kinds[m].mom[2], Kinds[m].mom[3]) ELSE Prod(Kinds[m].mom)
            za == TLCEval(RotationalZ(c, a))  zb == TLCEval(RotationalZ(c, b))
        IN \* (Z_a s_a / Z_b s_b)^2 = prod I_a / prod I_b
           NearRel(Mul(Sqr(Mul(za, Kinds[mins[a]].sym)), pr(mins[b])),
                   Mul(Sqr(Mul(zb, Kinds[mins[b]].sym)), pr(mins[a])))

(* C15, C16: derivatives of the partition function, by central differences in beta *)
H == Scale(One, -30)
\* the factors of temperature the library leaves out
Power(cs, temp) ==
    LET f(c) == CASE c.kind = "C" -> Sqr(temp)          \* two modes
                  [] c.kind = "R" -> Mul(temp, Sqrt(temp))
                  [] OTHER -> One
    IN Prod([i \in 1 .. Len(cs) |-> f(cs[i])])
FullZ(cs, temp) ==
    LET w == TLCEval(Weights(cs, temp)) IN Mul(Sum(w), Power(cs, temp))
\* derivatives of the total partition function: C = (ln Z)'' in units of beta^-2
Curvature(z0, zp, zm) ==      \* z(beta), z(beta (1 + h)), z(beta (1 - h))
    LET d1 == Div(Sub(zp, zm), Mul(Scale(H, 1), z0))
        d2 == Div(Add(Sub(zp, z0), Sub(zm, z0)), Mul(Sqr(H), z0))
    IN << d1, Sub(d2, Sqr(d1)) >>
FluctuationIsCurvature ==
    (IsWarm(T) /\ ~ Has("U")) =>
      LET cs == CS
          z0 == TLCEval(FullZ(cs, T))
          zp == TLCEval(FullZ(cs, Div(T, Add(One, H))))
          zm == TLCEval(FullZ(cs, Div(T, Sub(One, H))))
          d == TLCEval(Curvature(z0, zp, zm))
          m == TLCEval(MeanEnergy(cs, T))
      IN /\ Coarse(Neg(d[1]), m, Mul(Scale(One, -30), Add(One, Abs(m))))
         /\ Coarse(d[2], CV, Mul(Scale(One, -24), Add(One, Sqr(m))))
HeatCapacityNonNegative == ~ Has("U") => Leq(Neg(Eps), CV)
OwnDerivatives ==
    IsWarm(T) =>
      \A i \in 1 .. Len(mix) : mix[i] # "U" =>
        LET c == TLCEval(CS[i])
            z(a, temp) == Mul(Weight(c, a, temp), Power(<< c >>, temp))
        IN \A a \in 1 .. N :
             LET w == TLCEval(WOf(c, a, T))
                 x == TLCEval(Add(One, Abs(w)))
             IN (Leq(x, I(200))) =>
                LET d == TLCEval(Curvature(TLCEval(z(a, T)), TLCEval(z(a, Div(T, Add(One, H)))),
                                           TLCEval(z(a, Div(T, Sub(One, H))))))
                IN /\ Coarse(d[1], w, Mul(Scale(One, -40), Mul(x, Mul(x, x))))
                   /\ Coarse(d[2], VOf(c, a, T), Mul(Scale(One, -40), Sqr(Sqr(x))))

(* C23 *)
RatiosKept ==
    [][\A i \in 1 .. N : Drop(i) =>
         LET old(a) == IF a < i THEN a ELSE a + 1 IN
         \A a, b \in 1 .. N - 1 :
           Near(Mul(P'[a], P[old(b)]), Mul(P'[b], P[old(a)]))]_vars
SharesAddUp ==      \* a minimum listed k times has, together, the share of one with k times the weight
    LET p == P
                   w == TLCEval(Weights(CS, T))
                   kinds == {mins[a] : a \in 1 .. N}
                   tot == TLCEval(Sum(w))
               IN \A m \in kinds :
                    LET who == {a \in 1 .. N : mins[a] = m}
                        one == CHOOSE a \in who : TRUE
                        share == Sum([a \in 1 .. N |-> IF a \in who THEN p[a] ELSE Zero])
                    IN Near(Mul(share, tot), MulInt(w[one], Cardinality(who)))

---------------------------------------------------------------------------
(* C26: a second, independent system that adds its energies and multiplies its degeneracies *)
Partner == << 2, 4 >>
PartnerMix == SelectSeq(mix, LAMBDA k : k \notin {"R", "X"})     \* (what the partner has no part in is ours alone)
PairRows == [i \in 1 .. 2 * N |-> << (i + 1) \div 2, IF i % 2 = 1 THEN 1 ELSE 2 >>]
Paired(k) ==
    LET us == TLCEval(Contribution(k))
        them == TLCEval(ContributionIn(k, Partner, FALSE))
        n == 1 .. 2 * N
        A(i) == PairRows[i][1]
        B(i) == PairRows[i][2]
    IN CASE k = "E" -> [kind |-> "E", E |-> [i \in n |-> Add(us.E[A(i)], them.E[B(i)])],
                                      g |-> [i \in n |-> Mul(us.g[A(i)], them.g[B(i)])]]
         [] k \in {"C", "Q"} -> [kind |-> k, nu |-> [i \in n |-> us.nu[A(i)] \o them.nu[B(i)]]]
         [] k = "U" -> [kind |-> "U", z |-> [i \in n |-> Mul(us.z[A(i)], them.z[B(i)])],
                                      w |-> [i \in n |-> Add(us.w[A(i)], them.w[B(i)])],
                                      v |-> [i \in n |-> Add(us.v[A(i)], them.v[B(i)])]]
         [] k = "R" -> [kind |-> "R", sym |-> [i \in n |-> us.sym[A(i)]], mom |-> [i \in n |-> us.mom[A(i)]]]
         [] k = "X" -> [kind |-> "X", d |-> [i \in n |-> us.d[A(i)]], r |-> [i \in n |-> us.r[A(i)]]]
Factorises ==
    PartnerMix # << >> =>
      LET both == TLCEval([i \in 1 .. Len(mix) |-> Paired(mix[i])])
          them == TLCEval(CSIn(Partner, PartnerMix, FALSE))
          pb == TLCEval(Probability(both, T))
          pt == TLCEval(Probability(them, T))
      IN /\ \A i \in 1 .. 2 * N : Near(pb[i], Mul(P[PairRows[i][1]], pt[PairRows[i][2]]))
         /\ LET c1 == TLCEval(HeatCapacity(both, T))  c2 == TLCEval(HeatCapacity(them, T)) IN
            Leq(Abs(Sub(c1, Add(CV, c2))), Mul(Eps, Add(One, Add(Abs(c1), Abs(CV)))))

(* C27: only the ratios of energies and quanta to kB T matter *)
Lambda == I(3)
Stretched(c) ==
    CASE c.kind = "E" -> [c EXCEPT !.E = [a \in 1 .. N |-> Mul(Lambda, c.E[a])]]
      [] c.kind \in {"C", "Q"} -> [c EXCEPT !.nu = [a \in 1 .. N |-> [i \in 1 .. Len(c.nu[a]) |-> Mul(Lambda, c.nu[a][i])]]]
      [] c.kind = "X" -> [c EXCEPT !.d = [a \in 1 .. N |-> Mul(Lambda, c.d[a])]]
      [] OTHER -> c
OnlyRatios ==
    LET cs == TLCEval([i \in 1 .. Len(mix) |-> Stretched(CS[i])])
        t3 == IF IsWarm(T) THEN Mul(Lambda, T) ELSE T
    IN NearSeq(TLCEval(Probability(cs, t3)), P) /\ Near(HeatCapacity(cs, t3), CV)

(* C28: heating moves population upwards, and raises the mean energy *)
Upwards ==
    [][(Heat /\ Has("E") /\ ~ Has("Q") /\ ~ Has("X")) =>
         /\ \A a, b \in 1 .. N :
              Lt(Energy(mins[a]), Energy(mins[b])) =>
                Leq(Mul(P[b], P'[a]), Add(Mul(P'[b], P[a]), Mul(Eps, Mul(P'[b], P[a]))))
         /\ LET e == [a \in 1 .. N |-> Sub(Energy(mins[a]), Energy(mins[1]))] IN
            Leq(Mean(P, e), Add(Mean(P', e), Eps))]_vars
\* U = - kB T <beta W>: its slope is the heat capacity
EnergyRises ==
    [][(Heat /\ IsWarm(T) /\ IsWarm(Temps[t']) /\ ~ Has("U")) =>
         Leq(Mul(Neg(Mean(P, ans.w)), T), Add(Eps, Mul(Neg(Mean(P', ans'.w)), Mul(Temps[t'], Add(One, Eps)))))]_vars

---------------------------------------------------------------------------
(* The library's array computation (Kernel) *)
Row(tab, a) == tab[a]
ColumnOf(tab, j) == [a \in 1 .. Len(tab) |-> tab[a][j]]
\* temperature requests that contain T among others, twice, and alone
Cooler == IF Has("Q") THEN << Temps[1], T, I(77), T >> ELSE << Temps[1], T, PosInf, T >>

(* C07: a column does not depend on its neighbours *)
ColumnsIndependent ==
    LET cs == CS
        one == TLCEval(KProb(cs, << T >>))  many == TLCEval(KProb(cs, Cooler))
        c1 == TLCEval(KHeat(cs, << T >>))   cm == TLCEval(KHeat(cs, Cooler))
    IN /\ \A a \in 1 .. N : many[a][2] = one[a][1] /\ many[a][4] = one[a][1]
       /\ cm[2] = c1[1] /\ cm[4] = c1[1]

(* the arrays hold what Thermo defines, at T = 0 and T = infinity too *)
KernelIsThermo ==
    LET cs == CS
        p == TLCEval(KProb(cs, << T >>))
        w == TLCEval(KSumW(cs, << T >>))
        v == TLCEval(KSumV(cs, << T >>))
        c == TLCEval(KHeat(cs, << T >>))
    IN \A a \in 1 .. N :
         /\ Near(p[a][1], P[a])
         /\ ~ IsZero(P[a]) => Near(w[a][1], ans.w[a])
         /\ Near(v[a][1], ans.v[a])
         \* mean square minus squared mean: cancellation of terms of the size of <W^2>
         /\ LET w2 == TLCEval([b \in 1 .. N |-> Sqr(ans.w[b])]) IN
            Leq(Abs(Sub(c[1], CV)), Mul(Eps, Add(One, Mean(P, w2))))

(* C24 *)
Conversions ==
    /\ IsCold(T) => Beta(T) = PosInf
    /\ IsHot(T) => IsZero(Beta(T))
    /\ IsWarm(T) => Near(Mul(Beta(T), Mul(KB, T)), One)
    /\ \A a \in 1 .. N :
         LET e == Energy(mins[a])  x == KExponent(e, T) IN
         IF IsZero(e) THEN IsZero(x)
         ELSE IF IsCold(T) THEN x = << 2 * Sgn(e) >>
         ELSE IF IsHot(T) THEN IsZero(x)
         ELSE NearRel(x, Ratio(e, T))
=============================================================================
