------------------------------- MODULE Clauses -------------------------------
(***************************************************************************)
(* What a recorded column c of a reply has to satisfy: c.T is the           *)
(* temperature, c.v the recorded values (one per row), cs the sequence of    *)
(* contributions.                                                           *)
(***************************************************************************)
EXTENDS Thermo

---------------------------------------------------------------------------
(* tolerances *)
TolConst == Scale(One, -30)     \* physical constants to ~1e-9
TolRound == Scale(One, -33)     \* different but equivalent roundings, relative
TolAcc   == Scale(One, -44)     \* double-precision rounding of sums, relative to their terms
Tiny     == Scale(One, -1000)   \* underflow of double precision

Within(x, y, tol) == Leq(Abs(Sub(x, y)), tol)
RelClose(x, y, rel) == Within(x, y, Add(Mul(rel, Abs(y)), Tiny))

AllFin(s) == \A i \in 1 .. Len(s) : IsFin(s[i])

---------------------------------------------------------------------------
(* clauses on one recorded column c of a P or Z query *)

\* C01
Dist(c) == /\ AllFin(c.v)
           /\ \A a \in 1 .. Len(c.v) : Sgn(c.v[a]) >= 0 /\ Leq(c.v[a], Add(One, TolAcc))
           /\ Within(Sum(c.v), One, Mul(FromInt(4 + Len(c.v)), TolAcc))

Nonneg(c) == AllFin(c.v) /\ \A a \in 1 .. Len(c.v) : Sgn(c.v[a]) >= 0

\* how far minimum a is from the reference minimum r, contribution by contribution (they may cancel)
Spread(cs, a, r, T) ==
    LET d(c, a_, T_) == Abs(Sub(XOf(c, a_, T_), XOf(c, r, T_))) IN Sum(OverContribs(d, cs, a, T))

\* all rows in proportion to the weights of the specification
WeightsOK(cs, c) ==
    LET w == TLCEval(Weights(cs, c.T))
        x == TLCEval(Exponents(cs, c.T))
        r == CHOOSE a \in 1 .. Len(w) : \A b \in 1 .. Len(w) : Leq(w[b], w[a])
    IN /\ AllFin(c.v)
       /\ Sgn(c.v[r]) = 1
       /\ \A a \in 1 .. Len(w) :
            LET exact == TLCEval(Mul(c.v[r], Div(w[a], w[r])))
                tol == Add(Mul(TolConst, Add(One, Spread(cs, a, r, c.T))), Mul(TolAcc, Add(x[a], x[r])))
            IN Within(c.v[a], exact, Add(Mul(tol, exact), Tiny))

\* C04: at T = 0 only electronic ground states are populated; they share by their other weights
ZeroTOK(cs, c) ==
    IsCold(c.T) =>
      LET w == TLCEval(Weights(cs, c.T)) IN
      /\ AllFin(c.v)
      /\ \A a \in 1 .. Len(w) : IsZero(w[a]) => IsZero(c.v[a])
      /\ WeightsOK(cs, c)

\* C05: occupations within 4 sum(x) of the energy-free weights, when all exponents are small
HotOK(cs, c) ==
    LET w == TLCEval(HotWeights(cs))
        tot == TLCEval(Sum(w))
        x == TLCEval(MaxOf(Exponents(cs, c.T)))
    IN /\ AllFin(c.v)
       /\ \A a \in 1 .. Len(w) :
            LET p == Div(w[a], tot) IN
            Within(c.v[a], p, Add(Mul(p, Add(Scale(x, 2), TolConst)), Tiny))

---------------------------------------------------------------------------
(* clauses on one recorded column of a heat-capacity query *)

\* magnitudes entering the heat capacity, for its rounding error
PW2(cs, T) == LET p == TLCEval(Probability(cs, T))  w == TLCEval(BetaW(cs, T))
                  w2 == TLCEval([a \in 1 .. Len(w) |-> Sqr(w[a])])
              IN Mean(p, w2)

\* deviation of beta W from its mean, contribution by contribution
Deviation(cs, p, T) ==
    LET n == Len(p)
        one(i) == LET w == TLCEval([a \in 1 .. n |-> WOf(cs[i], a, T)])  m == TLCEval(Mean(p, w))
                  IN TLCEval([a \in 1 .. n |-> IF IsZero(p[a]) THEN Zero ELSE Abs(Sub(w[a], m))])
        all == TLCEval([i \in 1 .. Len(cs) |-> one(i)])
    IN [a \in 1 .. n |-> Sum([i \in 1 .. Len(cs) |-> all[i][a]])]

HeatOK(cs, c) ==
    LET p == TLCEval(Probability(cs, c.T))
        w == TLCEval(BetaW(cs, c.T))
        v == TLCEval(Beta2V(cs, c.T))
        d == TLCEval(Deviation(cs, p, c.T))
        d2 == TLCEval([a \in 1 .. Len(p) |-> Mul(Add(One, d[a]), Sqr(d[a]))])
        w2 == TLCEval([a \in 1 .. Len(p) |-> Sqr(w[a])])
        x == TLCEval(Exponents(cs, c.T))       \* (x / sinh x)^2 is as sensitive as exp(-2x)
        vx == TLCEval([a \in 1 .. Len(p) |-> Mul(Add(One, x[a]), Abs(v[a]))])
        tol == Add(Mul(TolConst, Add(Mean(p, d2), Mean(p, vx))),
                   Mul(TolAcc, Add(One, Mean(p, w2))))
    IN /\ AllFin(c.v)
       /\ Within(c.v[1], HeatCapacityFrom(p, w, v), tol)

HeatNonneg(cs, c) ==
    /\ AllFin(c.v)
    /\ Leq(Neg(Mul(TolAcc, Add(One, PW2(cs, c.T)))), c.v[1])

=============================================================================
