------------------------------- MODULE Kernel -------------------------------
(***************************************************************************)
(* How the library computes it: array operations over minima x             *)
(* temperatures with masks (numpy's where= / out=) that keep the           *)
(* indeterminate forms of T = 0 (inf - inf, 0 * inf, inf / inf) out.       *)
(* Landscapes checks that these arrays hold what Thermo defines.           *)
(* Ts is a sequence of temperatures; a table is a sequence of rows.        *)
(***************************************************************************)
EXTENDS Thermo

Masked(cond, value, default) == IF cond THEN value ELSE default

\* arithmetic with infinities and not-a-number
LOCAL IsNaN(x) == x = NaN
LOCAL Inf(s) == << 2 * s >>
LOCAL SignOf(x) == IF x = PosInf THEN 1 ELSE IF x = NegInf THEN -1 ELSE Sgn(x)
XMul(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NaN
              ELSE IF IsFin(x) /\ IsFin(y) THEN Mul(x, y)
              ELSE IF SignOf(x) * SignOf(y) = 0 THEN NaN ELSE Inf(SignOf(x) * SignOf(y))
XAdd(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NaN
              ELSE IF IsFin(x) /\ IsFin(y) THEN Add(x, y)
              ELSE IF IsFin(x) THEN y ELSE IF IsFin(y) THEN x
              ELSE IF x = y THEN x ELSE NaN
XDiv(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NaN
              ELSE IF ~ IsFin(y) THEN IF IsFin(x) THEN Zero ELSE NaN
              ELSE IF IsZero(y) THEN IF IsFin(x) /\ IsZero(x) THEN NaN ELSE Inf(SignOf(x))
              ELSE IF IsFin(x) THEN Div(x, y) ELSE Inf(SignOf(x) * SignOf(y))
XSum(s) == FoldLeft(XAdd, Zero, s)
XProd(s) == FoldLeft(XMul, One, s)

Beta(T) == Masked(~ IsCold(T), XDiv(One, XMul(KB, T)), PosInf)
KExponent(energy, T) == Masked(~ (IsFin(energy) /\ IsZero(energy)), XMul(energy, Beta(T)), Zero)
KExpNeg(x) == IF x = PosInf THEN Zero ELSE ExpNeg(x)

LOCAL Table(F(_, _), n, Ts) == TLCEval([a \in 1 .. n |-> [j \in 1 .. Len(Ts) |-> F(a, Ts[j])]])

\* sinh and tanh of x >= 0; infinite arguments as in IEEE arithmetic
KSinh(x) == IF x = PosInf THEN PosInf ELSE Scale(Sub(Exp(x), ExpNeg(x)), -1)
KTanh(x) == IF x = PosInf THEN One
            ELSE LET q == TLCEval(ExpNeg(Scale(x, 1))) IN Div(Sub(One, q), Add(One, q))
KHalfQuantum(nu) == Scale(Mul(HPLANCK, nu), -1)

KZ(c, Ts) ==
    LET elec(a, T) == XMul(c.g[a], KExpNeg(KExponent(RelEnergy(c, a), T)))
        clas(a, T) == ClassicalZ(c, a)
        quan(a, T) == LET f(nu) == XDiv(Half, Masked(~ IsCold(T), KSinh(KExponent(KHalfQuantum(nu), T)), FromInt(2)))
                      IN XProd([i \in 1 .. Len(c.nu[a]) |-> f(c.nu[a][i])])
        rota(a, T) == Div(MomentFactor(c.mom[a]), c.sym[a])
        user(a, T) == c.z[a]
        leve(a, T) == XAdd(One, XMul(c.r[a], KExpNeg(KExponent(c.d[a], T))))
    IN CASE c.kind = "E" -> Table(elec, Size(c), Ts)
         [] c.kind = "C" -> Table(clas, Size(c), Ts)
         [] c.kind = "Q" -> Table(quan, Size(c), Ts)
         [] c.kind = "R" -> Table(rota, Size(c), Ts)
         [] c.kind = "U" -> Table(user, Size(c), Ts)
         [] c.kind = "X" -> Table(leve, Size(c), Ts)

KW(c, Ts) ==
    LET elec(a, T) == Neg(Masked(~ IsZero(RelEnergy(c, a)), XMul(Beta(T), RelEnergy(c, a)), Zero))
        clas(a, T) == Neg(Modes(c, a))
        quan(a, T) == LET f(nu) == LET x == KExponent(KHalfQuantum(nu), T)
                                   IN Masked(~ IsCold(T), XMul(x, XDiv(One, KTanh(x))), Zero)
                      IN Neg(XSum([i \in 1 .. Len(c.nu[a]) |-> f(c.nu[a][i])]))
        rota(a, T) == Neg(ThreeHalves)
        user(a, T) == c.w[a]
        leve(a, T) == Neg(Masked(IsWarm(T), XMul(KExponent(c.d[a], T), LevelShare(c, a, T)), Zero))
    IN CASE c.kind = "E" -> Table(elec, Size(c), Ts)
         [] c.kind = "C" -> Table(clas, Size(c), Ts)
         [] c.kind = "Q" -> Table(quan, Size(c), Ts)
         [] c.kind = "R" -> Table(rota, Size(c), Ts)
         [] c.kind = "U" -> Table(user, Size(c), Ts)
         [] c.kind = "X" -> Table(leve, Size(c), Ts)

KV(c, Ts) ==
    LET elec(a, T) == Zero
        clas(a, T) == Modes(c, a)
        quan(a, T) == LET f(nu) == LET x == KExponent(KHalfQuantum(nu), T)
                                       y == Masked(~ IsCold(T), XMul(x, XDiv(One, KSinh(x))), Zero)
                                   IN XMul(y, y)
                      IN XSum([i \in 1 .. Len(c.nu[a]) |-> f(c.nu[a][i])])
        rota(a, T) == ThreeHalves
        user(a, T) == c.v[a]
        leve(a, T) == Masked(IsWarm(T), XMul(XMul(KExponent(c.d[a], T), KExponent(c.d[a], T)), XMul(LevelShare(c, a, T), Sub(One, LevelShare(c, a, T)))), Zero)
    IN CASE c.kind = "E" -> Table(elec, Size(c), Ts)
         [] c.kind = "C" -> Table(clas, Size(c), Ts)
         [] c.kind = "Q" -> Table(quan, Size(c), Ts)
         [] c.kind = "R" -> Table(rota, Size(c), Ts)
         [] c.kind = "U" -> Table(user, Size(c), Ts)
         [] c.kind = "X" -> Table(leve, Size(c), Ts)

\* combination over the contributions, elementwise
LOCAL Combine(Op(_, _), tables) ==
    [a \in 1 .. Len(tables[1]) |->
       [j \in 1 .. Len(tables[1][1]) |->
          LET col == [i \in 1 .. Len(tables) |-> tables[i][a][j]]
          IN FoldLeft(Op, col[1], Tail(col))]]

KPart(cs, Ts) == Combine(XMul, TLCEval([i \in 1 .. Len(cs) |-> KZ(cs[i], Ts)]))
KSumW(cs, Ts) == Combine(XAdd, TLCEval([i \in 1 .. Len(cs) |-> KW(cs[i], Ts)]))
KSumV(cs, Ts) == Combine(XAdd, TLCEval([i \in 1 .. Len(cs) |-> KV(cs[i], Ts)]))

LOCAL SumCol(tab, j) == XSum([a \in 1 .. Len(tab) |-> tab[a][j]])

KProb(cs, Ts) ==
    LET z == TLCEval(KPart(cs, Ts))
        tot == TLCEval([j \in 1 .. Len(Ts) |-> SumCol(z, j)])
    IN [a \in 1 .. Len(z) |-> [j \in 1 .. Len(Ts) |-> XDiv(z[a][j], tot[j])]]

\* observable table B against occupations p: terms of unpopulated minima are skipped, not multiplied
KMean(p, Bt) ==
    LET t == TLCEval([a \in 1 .. Len(p) |-> [j \in 1 .. Len(p[1]) |->
                 Masked(Sgn(p[a][j]) = 1, XMul(Bt[a][j], p[a][j]), Zero)]])
    IN [j \in 1 .. Len(p[1]) |-> SumCol(t, j)]

KHeat(cs, Ts) ==
    LET p == TLCEval(KProb(cs, Ts))
        w == TLCEval(KSumW(cs, Ts))
        v == TLCEval(KSumV(cs, Ts))
        w2 == TLCEval([a \in 1 .. Len(w) |-> [j \in 1 .. Len(Ts) |-> XMul(w[a][j], w[a][j])]])
        mv == TLCEval(KMean(p, v))  mw == TLCEval(KMean(p, w))  mw2 == TLCEval(KMean(p, w2))
    IN [j \in 1 .. Len(Ts) |-> XAdd(XAdd(mv[j], mw2[j]), Neg(XMul(mw[j], mw[j])))]
=============================================================================
