------------------------------ MODULE LoadTrace ------------------------------
(***************************************************************************)
(* Trace validation of the input side: files written by the driver are     *)
(* loaded by the real code; the reply has to be what spec/Loader.tla says   *)
(* (row i of every property is isomer i), the symmetry order has to be      *)
(* RotationCount and the moments those of the exact tensor (Shapes).        *)
(*                                                                         *)
(* Events                                                                  *)
(*   sym : s, got, exc, same                    calc_symmetry_order         *)
(*   load: iso, out, n, energy, mult, freq, mom, sym, same                  *)
(*   rot : k (a load event), v                  occupations from rotations  *)
(* iso[i]: E, g, nu (stated numbers, as text), s (atoms), unit              *)
(* same: for every row, << event, row >> of the same structure in another   *)
(*       placement, or << 0, 0 >>                                          *)
(***************************************************************************)
EXTENDS Shapes, Thermo, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, l
vars == << sess, l >>
Ev(s, k) == Trace[s].ev[k]

\* standard atomic weights, (hi * 10^8 + lo) * 10^-8
StdMass == [H |-> Dec(1, 800000, 8), C |-> Dec(12, 1100000, 8), N |-> Dec(14, 700000, 8), O |-> Dec(15, 99900000, 8),
            Na |-> Dec(22, 98976928, 8), Al |-> Dec(26, 98153850, 8), Si |-> Dec(28, 8500000, 8),
            Cl |-> Dec(35, 45000000, 8), Cu |-> Dec(63, 54600000, 8), Ru |-> Dec(101, 7000000, 8),
            Pd |-> Dec(106, 42000000, 8), Ag |-> Dec(107, 86820000, 8), Pt |-> Dec(195, 8400000, 8),
            Au |-> Dec(196, 96656900, 8)]

PhiF == Scale(Add(One, Sqrt(FromInt(5))), -1)
RF(x) == Add(FromInt(x[1]), Mul(FromInt(x[2]), PhiF))

\* elementary symmetric functions of the principal moments (amu A^2), by the exact tensor
TrueMoments(s, unit) ==
    LET n == Len(s)
        m == TLCEval([i \in 1 .. n |-> StdMass[s[i].el]])
        x == TLCEval([i \in 1 .. n |-> [a \in 1 .. 3 |-> Mul(unit, RF(s[i].p[a]))]])
        M == TLCEval(Sum(m))
        c == TLCEval([a \in 1 .. 3 |-> Div(Sum([i \in 1 .. n |-> Mul(m[i], x[i][a])]), M)])
        y == TLCEval([i \in 1 .. n |-> [a \in 1 .. 3 |-> Sub(x[i][a], c[a])]])
        q == TLCEval([a \in 1 .. 3 |-> [b \in 1 .. 3 |-> Sum([i \in 1 .. n |-> Mul(m[i], Mul(y[i][a], y[i][b]))])]])
        tr == TLCEval(Sum(<< q[1][1], q[2][2], q[3][3] >>))
        t == TLCEval([a \in 1 .. 3 |-> [b \in 1 .. 3 |-> IF a = b THEN Sub(tr, q[a][b]) ELSE Neg(q[a][b])]])
        mn(a, b, d, e) == Sub(Mul(t[a][d], t[b][e]), Mul(t[a][e], t[b][d]))
    IN << Scale(tr, 1),
          Sum(<< mn(1, 2, 1, 2), mn(1, 3, 1, 3), mn(2, 3, 2, 3) >>),
          Sum(<< Mul(t[1][1], mn(2, 3, 2, 3)), Neg(Mul(t[1][2], mn(2, 3, 1, 3))), Mul(t[1][3], mn(2, 3, 1, 2)) >>) >>

AllFin(s) == \A i \in 1 .. Len(s) : IsFin(s[i])
Within(x, y, tol) == Leq(Abs(Sub(x, y)), tol)

\* slack: relative error of the coordinates in the file
MomentsOK(got, e, slack) ==
    /\ Len(got) = 3 /\ AllFin(got)
    /\ LET e1 == Sum(got)
           e2 == Sum(<< Mul(got[1], got[2]), Mul(got[1], got[3]), Mul(got[2], got[3]) >>)
           e3 == Prod(got)
           tol == Add(Scale(One, -32), slack)
       IN /\ Within(e1, e[1], Mul(tol, e[1]))
          /\ Within(e2, e[2], Mul(Scale(tol, 1), Sqr(e[1])))
          /\ Within(e3, e[3], Mul(Scale(tol, 2), Mul(e[1], Sqr(e[1]))))

SymFails(s, e) ==
    (IF Linear(e.s) THEN {} ELSE IF e.exc = "" /\ e.got = RotationCount(e.s) THEN {} ELSE {"order"})
    \cup (IF e.exc # "" THEN {"order"} ELSE {})
    \cup (IF e.same > 0 /\ Ev(s, e.same).got # e.got THEN {"same"} ELSE {})

Ragged(iso) == \E i \in 1 .. Len(iso) : Len(iso[i].nu) # Len(iso[1].nu)

IsInt(x, n) == IsFin(x) /\ Eq(x, FromInt(n))
LoadFails(s, e) ==
    LET n == Len(e.iso)  I == 1 .. n IN
    IF Ragged(e.iso) THEN IF e.out = "num" THEN {"ragged"} ELSE {}
    ELSE IF e.out # "num" THEN {"answer"}
    ELSE IF Len(e.energy) # n \/ Len(e.mult) # n \/ Len(e.freq) # n \/ Len(e.mom) # n \/ Len(e.sym) # n THEN {"rows"}
    ELSE (IF \A i \in I : IsFin(e.energy[i]) /\ Eq(e.energy[i], e.iso[i].E) THEN {} ELSE {"energy"})
    \cup (IF \A i \in I : IsFin(e.mult[i]) /\ Eq(e.mult[i], e.iso[i].g) THEN {} ELSE {"multiplicity"})
    \cup (IF \A i \in I : /\ Len(e.freq[i]) = Len(e.iso[i].nu) /\ AllFin(e.freq[i])
                          /\ \A j \in 1 .. Len(e.freq[i]) : Eq(e.freq[i][j], e.iso[i].nu[j]) THEN {} ELSE {"frequencies"})
    \cup (IF \A i \in I : MomentsOK(e.mom[i], TrueMoments(e.iso[i].s, e.iso[i].unit), e.slack) THEN {} ELSE {"moments"})
    \cup (IF \A i \in I : Linear(e.iso[i].s) \/ IsInt(e.sym[i], RotationCount(e.iso[i].s)) THEN {} ELSE {"symmetry"})
    \cup (IF \A i \in I : e.same[i][1] = 0 \/ LET f == Ev(s, e.same[i][1]) IN
                 f.out = "num" /\ f.sym[e.same[i][2]] = e.sym[i] THEN {} ELSE {"same"})

\* rotational occupations of the loaded isomers; linear ones count their symmetry order as 1
RotFails(s, e) ==
    LET iso == Ev(s, e.k).iso
        n == Len(iso)
        W(i) == LET m == TrueMoments(iso[i].s, iso[i].unit)
                IN IF Linear(iso[i].s) THEN Scale(m[1], -1)      \* sqrt(I I), I = (I + I) / 2
                   ELSE Div(Sqrt(m[3]), FromInt(RotationCount(iso[i].s)))
    IN IF e.out # "num" \/ Len(e.v) # n THEN {"answer"}
       ELSE IF ~ AllFin(e.v) THEN {"rotation"}
       ELSE LET p == TLCEval(Normalise(TLCEval([i \in 1 .. n |-> W(i)]))) IN
            IF \A i \in 1 .. n : Within(e.v[i], p[i], Mul(Add(Scale(One, -28), Scale(Ev(s, e.k).slack, 5)), p[i]))
            THEN {} ELSE {"rotation"}

Fails(s, k) ==
    LET e == Ev(s, k) IN
    CASE e.op = "sym" -> SymFails(s, e)
      [] e.op = "load" -> LoadFails(s, e)
      [] e.op = "rot" -> RotFails(s, e)
      [] e.op = "driver" -> {"driver"}

TraceInit == sess \in 1 .. Len(Trace) /\ l = 0
TraceNext == /\ l < Len(Trace[sess].ev)
             /\ l' = l + 1
             /\ UNCHANGED sess
             /\ LET f == TLCEval(Fails(sess, l + 1)) IN
                \A n \in f : PrintT(<< "FAIL", sess, l + 1, n >>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
