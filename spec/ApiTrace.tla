------------------------------ MODULE ApiTrace ------------------------------
(***************************************************************************)
(* Trace validation: sessions recorded from the real library are checked   *)
(* against Occuprob / Thermo.  A session is a sequence of events; events   *)
(* are bound to the actions of Occuprob and their recorded replies to the  *)
(* clauses below.  The verdict is total: every failing clause is printed   *)
(* as << "FAIL", session, event, clause >> and validation goes on.         *)
(*                                                                         *)
(* Event fields (by op):                                                   *)
(*   new: o              pf: def, exc           add: o, ps, exc            *)
(*   q  : o, what (P, Z, C, A), M, cols, out, shape, intact, chk, rel      *)
(*   pfq: p, what (Z, W, V), ...                                           *)
(*   cols: recorded columns [T, v, b]: temperature, value per row and      *)
(*         observable per minimum (A only).                                *)
(*   out : "num" | "none" | "raise" | "odd";                               *)
(*   chk : names of the clauses to evaluate;                               *)
(*   rel : relations to earlier events of the session.                     *)
(***************************************************************************)
EXTENDS Clauses, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sess, l, reg
vars == << sess, l, reg >>

\* a contribution identifier is << session, event >>
DefOf(id) == Trace[id[1]].ev[id[2]].def
Lib == INSTANCE Occuprob WITH Def <- DefOf

Ev(s, k) == Trace[s].ev[k]

---------------------------------------------------------------------------
(* clauses on one recorded column of a query to one contribution *)

\* all rows of W or V at a warm temperature
DerivOK(def, what, c) ==
    \A a \in 1 .. Size(def) :
      LET exact == TLCEval(IF what = "W" THEN WOf(def, a, c.T) ELSE VOf(def, a, c.T))
      IN /\ IsFin(c.v[a])
         /\ Within(c.v[a], exact, Add(Mul(TolConst, Abs(exact)), Scale(One, -60)))
\* V = (x / sinh x)^2 underflows faster than x, hence the extra sensitivity
VibVOK(def, c) ==
    \A a \in 1 .. Size(def) :
      LET exact == TLCEval(VOf(def, a, c.T))
          x == TLCEval(XOf(def, a, c.T))
      IN /\ IsFin(c.v[a])
         /\ Within(c.v[a], exact, Add(Mul(Mul(TolConst, Add(One, x)), Abs(exact)), Tiny))

---------------------------------------------------------------------------
(* relations: r = [k, kind, rows, cols, ...] against event k of the same session *)

\* the reply of an earlier event has the columns and rows a relation refers to
HasRows(f, cols, n) ==
    /\ f.out = "num"
    /\ \A j \in 1 .. Len(cols) : cols[j] <= Len(f.cols) /\ Len(f.cols[cols[j]].v) >= n
AllCols(e) == [j \in 1 .. Len(e.cols) |-> j]
MaxOfInts(q) == FoldLeft(LAMBDA x, y : IF x < y THEN y ELSE x, 1, q)

\* row a of column j here corresponds to row r.rows[a] of column r.cols[j] there
ScaleOf(cs, e, c) ==      \* rounding scale of one value
    CASE e.what = "C" -> Add(One, PW2(cs, c.T))
      [] e.what = "A" -> LET p == TLCEval(Probability(cs, c.T))
                             b == TLCEval([a \in 1 .. Len(p) |-> IF IsFin(c.b[a]) THEN Abs(c.b[a]) ELSE Zero])
                         IN Mean(p, b)
      [] OTHER -> Zero

RelValue(cs, e, f, r) ==
    \A j \in 1 .. Len(e.cols) :
      LET c == e.cols[j]  d == f.cols[r.cols[j]] IN
      \A a \in 1 .. Len(c.v) :
        LET x == c.v[a]  y == d.v[r.rows[a]] IN
        IF IsFin(x) /\ IsFin(y)
        THEN \/ Eq(x, y)
             \/ Within(x, y, Add(Add(Mul(TolRound, Abs(y)), Tiny), Mul(TolAcc, ScaleOf(cs, e, c))))
        ELSE x = y /\ x # NaN

\* same answer, up to an explicit absolute tolerance
RelLimit(cs, e, f, r) ==
    \A j \in 1 .. Len(e.cols) : \A a \in 1 .. Len(e.cols[j].v) :
      LET x == e.cols[j].v[a]  y == f.cols[r.cols[j]].v[r.rows[a]] IN
      IsFin(x) /\ IsFin(y) /\ Within(x, y, Add(Add(r.tol, Mul(TolRound, Abs(y))), Mul(TolAcc, ScaleOf(cs, e, e.cols[j]))))

\* ratios between rows are the same here and there (rows that exist here)
RelRatio(cs, e, f, r) ==
    \A j \in 1 .. Len(e.cols) :
      LET c == e.cols[j]  d == f.cols[r.cols[j]]
          n == Len(c.v)
          y == TLCEval([a \in 1 .. n |-> d.v[r.rows[a]]])
      IN /\ AllFin(c.v) /\ AllFin(y)
         /\ LET m == CHOOSE a \in 1 .. n : \A b \in 1 .. n : Leq(c.v[b], c.v[a])
            IN \A a \in 1 .. n :
                 Within(Mul(c.v[a], y[m]), Mul(c.v[m], y[a]),
                        Add(Mul(TolRound, Mul(c.v[m], y[a])), Mul(Add(c.v[m], y[m]), Tiny)))

\* Z of the superposition is the product of the Z recorded for its contributions (events r.ks)
RelProduct(s, e, r) ==
    \A j \in 1 .. Len(e.cols) : \A a \in 1 .. Len(e.cols[j].v) :
      LET f == [i \in 1 .. Len(r.ks) |-> Ev(s, r.ks[i]).cols[j].v[a]] IN
      /\ AllFin(f) /\ IsFin(e.cols[j].v[a])
      /\ RelClose(e.cols[j].v[a], TLCEval(Prod(f)), TolRound)

\* P is the normalised Z recorded in event r.k
RelNormal(s, e, r) ==
    \A j \in 1 .. Len(e.cols) :
      LET z == Ev(s, r.k).cols[j].v IN
      /\ AllFin(z) /\ AllFin(e.cols[j].v)
      /\ LET p == TLCEval(Normalise(z)) IN
         \A a \in 1 .. Len(z) : RelClose(e.cols[j].v[a], p[a], TolRound)

\* C is the fluctuation formula on the recorded P (event r.k), W and V (events r.ws, r.vs)
RelFluct(s, e, r) ==
    \A j \in 1 .. Len(e.cols) :
      LET p == Ev(s, r.k).cols[j].v
          n == Len(p)
          col(ks, a) == [i \in 1 .. Len(ks) |-> Ev(s, ks[i]).cols[j].v[a]]
          fin(ks) == \A a \in 1 .. n : (IsFin(p[a]) /\ ~ IsZero(p[a])) => AllFin(col(ks, a))
          tot(ks) == [a \in 1 .. n |-> IF IsZero(p[a]) THEN Zero ELSE Sum(col(ks, a))]
      IN /\ AllFin(p) /\ fin(r.ws) /\ fin(r.vs) /\ AllFin(e.cols[j].v)
         /\ LET w == TLCEval(tot(r.ws))  v == TLCEval(tot(r.vs))
                w2 == TLCEval([a \in 1 .. n |-> Sqr(w[a])])
            IN Within(e.cols[j].v[1], HeatCapacityFrom(p, w, v),
                      Mul(TolRound, Add(Add(One, Abs(Mean(p, v))), Mean(p, w2))))

\* A is the mean of the observable under the recorded P (event r.k)
RelMean(s, e, r) ==
    \A j \in 1 .. Len(e.cols) :
      LET p == Ev(s, r.k).cols[j].v
          b == e.cols[j].b
          n == Len(p)
      IN AllFin(p) =>
         LET live == {a \in 1 .. n : ~ IsZero(p[a])}
             x == e.cols[j].v[1]
             odd == {b[a] : a \in {c \in live : ~ IsFin(b[c])}}
         IN IF odd = {}
            THEN LET t == TLCEval([a \in 1 .. n |-> IF a \in live THEN Mul(p[a], b[a]) ELSE Zero])
                     m == TLCEval([a \in 1 .. n |-> Abs(t[a])])
                 IN IsFin(x) /\ Within(x, Sum(t), Add(Mul(TolRound, Sum(m)), Tiny))
            \* an observable that is not finite at a populated minimum has no finite mean
            ELSE IF odd = {PosInf} \/ odd = {NegInf} THEN odd = {x} ELSE ~ IsFin(x)

\* A lies between the extreme values of the observable over populated minima
BoundsOK(s, e, r) ==
    \A j \in 1 .. Len(e.cols) :
      LET p == Ev(s, r.k).cols[j].v
          b == e.cols[j].b
          n == Len(p)
      IN AllFin(p) =>
         LET live == {a \in 1 .. n : ~ IsZero(p[a])}
             x == e.cols[j].v[1]
         IN (\A a \in live : IsFin(b[a])) =>
              /\ IsFin(x)
              /\ LET m == MaxOf([a \in 1 .. n |-> IF a \in live THEN Abs(b[a]) ELSE Zero])
                     t == Add(Mul(TolAcc, Mul(FromInt(n), m)), Tiny)
                 IN /\ \E a \in live : Leq(b[a], Add(x, t))
                    /\ \E a \in live : Leq(x, Add(b[a], t))

\* A here = r.alpha * A(event r.k) + r.gamma * A(event r.k2)   (linearity)
RelLinear(s, e, r) ==
    \A j \in 1 .. Len(e.cols) :
      LET x == e.cols[j].v[1]
          y1 == Ev(s, r.k).cols[j].v[1]
          y2 == Ev(s, r.k2).cols[j].v[1]
      IN /\ IsFin(x) /\ IsFin(y1) /\ IsFin(y2)
         /\ Within(x, Add(Mul(r.alpha, y1), Mul(r.gamma, y2)), Add(Mul(TolRound, r.scale), Tiny))

\* C26: the occupations of a pair are the products, and what is extensive adds up (events r.k, r.k2)
RelOuter(s, e, r) ==
    LET f == Ev(s, r.k)  g == Ev(s, r.k2) IN
    /\ HasRows(f, AllCols(e), MaxOfInts(r.ra)) /\ HasRows(g, AllCols(e), MaxOfInts(r.rb))
    /\ \A j \in 1 .. Len(e.cols) : \A i \in 1 .. Len(e.cols[j].v) :
         LET x == e.cols[j].v[i]  y == f.cols[j].v[r.ra[i]]  z == g.cols[j].v[r.rb[i]] IN
         IsFin(x) /\ IsFin(y) /\ IsFin(z) /\ RelClose(x, Mul(y, z), TolRound)
RelTotal(s, cs, e, r) ==
    LET f == Ev(s, r.k)  g == Ev(s, r.k2) IN
    /\ HasRows(f, AllCols(e), 1) /\ HasRows(g, AllCols(e), 1)
    /\ \A j \in 1 .. Len(e.cols) :
         LET x == e.cols[j].v[1]  y == f.cols[j].v[1]  z == g.cols[j].v[1] IN
         /\ IsFin(x) /\ IsFin(y) /\ IsFin(z)
         /\ Within(x, Add(y, z), Add(Mul(TolRound, Add(Abs(y), Abs(z))),
                                     Add(Mul(Scale(TolAcc, 2), ScaleOf(cs, e, e.cols[j])), Tiny)))

\* C28: from a colder to a warmer column
Colder(S, T) == IF IsFin(S) /\ IsFin(T) THEN Lt(S, T) ELSE IsFin(S)
HeightOf(cs, a) == Sum([i \in 1 .. Len(cs) |-> IF cs[i].kind = "E" THEN cs[i].E[a] ELSE Zero])
HeatingOK(cs, cols) ==
    LET n == Size(cs[1])
        h == TLCEval([a \in 1 .. n |-> HeightOf(cs, a)])
    IN \A j, k \in 1 .. Len(cols) : Colder(cols[j].T, cols[k].T) =>
         /\ AllFin(cols[j].v) /\ AllFin(cols[k].v)
         /\ \A a, b \in 1 .. n : Lt(h[a], h[b]) =>
              LET x == Mul(cols[j].v[b], cols[k].v[a])  y == Mul(cols[k].v[b], cols[j].v[a]) IN
              Leq(x, Add(y, Add(Mul(TolRound, y), Mul(Tiny, Add(cols[k].v[a], cols[j].v[a])))))
RisingOK(cs, cols) ==
    LET sc == TLCEval([j \in 1 .. Len(cols) |-> ScaleOf(cs, [what |-> "A"], cols[j])]) IN
    \A j, k \in 1 .. Len(cols) : Colder(cols[j].T, cols[k].T) =>
      /\ IsFin(cols[j].v[1]) /\ IsFin(cols[k].v[1])
      /\ Leq(cols[j].v[1], Add(cols[k].v[1], Add(Mul(Scale(TolAcc, 2), Add(sc[j], sc[k])), Tiny)))

\* ln Z of one contribution between two of its own recorded columns agrees with the specification
RelOwnZ(def, e) ==
    \A j \in 2 .. Len(e.cols) :
      LET c == e.cols[1]  d == e.cols[j] IN
      /\ AllFin(c.v) /\ AllFin(d.v)
      /\ \A a \in 1 .. Size(def) :
           LET lhs == Mul(d.v[a], Weight(def, a, c.T))
               rhs == Mul(c.v[a], Weight(def, a, d.T))
               x == Add(One, Add(XOf(def, a, c.T), XOf(def, a, d.T)))
           IN Within(lhs, rhs, Add(Mul(Mul(TolConst, x), Abs(rhs)),
                                   Mul(Tiny, Add(Weight(def, a, c.T), Weight(def, a, d.T)))))

---------------------------------------------------------------------------
(* helper functions of the library *)
UtilOK(e) ==
    CASE e.what = "beta" ->
           \A j \in 1 .. Len(e.cols) :
             LET T == e.cols[j].T  x == e.cols[j].v[1] IN
             IF IsCold(T) THEN x = PosInf
             ELSE IF IsHot(T) THEN IsFin(x) /\ IsZero(x)
             ELSE IsFin(x) /\ RelClose(x, Div(One, Mul(KB, T)), TolConst)
      [] e.what = "exponent" ->
           \A j \in 1 .. Len(e.cols) :
             LET T == e.cols[j].T IN
             \A a \in 1 .. Len(e.arg) :
               LET x == e.cols[j].v[a]  en == e.arg[a] IN
               IF IsZero(en) THEN IsFin(x) /\ IsZero(x)
               ELSE IF IsCold(T) THEN x = << 2 * Sgn(en) >>
               ELSE IF IsHot(T) THEN IsFin(x) /\ IsZero(x)
               ELSE IsFin(x) /\ RelClose(x, Ratio(en, T), TolConst)
      [] e.what = "gmean" ->
           \* v[a]^n = product of row a
           \A a \in 1 .. Len(e.arg) :
             LET x == e.cols[1].v[a]  row == e.arg[a]  n == Len(row) IN
             /\ IsFin(x) /\ Sgn(x) >= 0
             /\ LET p == Prod(row) IN
                IF IsZero(p) THEN IsZero(x)
                ELSE RelClose(Prod([i \in 1 .. n |-> x]), p, Mul(FromInt(n), TolRound))

---------------------------------------------------------------------------
(* the verdict on an event: the set of failing clauses *)

ReplyKindOK(kind, e) ==
    CASE kind = "num"  -> e.out = "num"
      [] kind = "none" -> e.out = "none"
      [] OTHER         -> e.out # "num"

Rows(cs, e) == IF e.what \in {"C", "A"} THEN 1 ELSE Size(cs[1])

ClauseOK(s, o, cs, e, name) ==
    LET each(F(_, _)) == \A j \in 1 .. Len(e.cols) : F(cs, e.cols[j])
    IN CASE name = "dist"    -> \A j \in 1 .. Len(e.cols) : Dist(e.cols[j])
         [] name = "finite"  -> \A j \in 1 .. Len(e.cols) : AllFin(e.cols[j].v)
         [] name = "nonneg"  -> \A j \in 1 .. Len(e.cols) : Nonneg(e.cols[j])
         [] name = "weights" -> each(WeightsOK)
         [] name = "zeroT"   -> each(ZeroTOK)
         [] name = "hot"     -> each(HotOK)
         [] name = "heat"    -> each(HeatOK)
         [] name = "heatpos" -> each(HeatNonneg)
         [] name = "heating" -> HeatingOK(cs, e.cols)
         [] name = "rising" -> RisingOK(cs, e.cols)
         [] name = "deriv"   -> \A j \in 1 .. Len(e.cols) : DerivOK(cs[1], e.what, e.cols[j])
         [] name = "vibv"    -> \A j \in 1 .. Len(e.cols) : VibVOK(cs[1], e.cols[j])
         [] name = "ownz"    -> RelOwnZ(cs[1], e)
         [] name = "util"    -> UtilOK(e)

Refers(s, k, e, n) == HasRows(Ev(s, k), AllCols(e), n)
NMin(cs) == IF cs = << >> THEN 1 ELSE Size(cs[1])
MaxRow(r) == MaxOfInts(r.rows)

RelOK(s, cs, e, r) ==
    CASE r.kind = "value"   -> HasRows(Ev(s, r.k), r.cols, MaxRow(r)) /\ RelValue(cs, e, Ev(s, r.k), r)
      [] r.kind = "limit"   -> HasRows(Ev(s, r.k), r.cols, MaxRow(r)) /\ RelLimit(cs, e, Ev(s, r.k), r)
      [] r.kind = "ratio"   -> HasRows(Ev(s, r.k), r.cols, MaxRow(r)) /\ RelRatio(cs, e, Ev(s, r.k), r)
      [] r.kind = "product" -> (\A i \in 1 .. Len(r.ks) : Refers(s, r.ks[i], e, NMin(cs))) /\ RelProduct(s, e, r)
      [] r.kind = "normal"  -> Refers(s, r.k, e, NMin(cs)) /\ RelNormal(s, e, r)
      [] r.kind = "fluct"   -> /\ Refers(s, r.k, e, NMin(cs))
                               /\ \A i \in 1 .. Len(r.ws) : Refers(s, r.ws[i], e, NMin(cs))
                               /\ \A i \in 1 .. Len(r.vs) : Refers(s, r.vs[i], e, NMin(cs))
                               /\ RelFluct(s, e, r)
      [] r.kind = "mean"    -> Refers(s, r.k, e, NMin(cs)) /\ RelMean(s, e, r)
      [] r.kind = "bounds"  -> Refers(s, r.k, e, NMin(cs)) /\ BoundsOK(s, e, r)
      [] r.kind = "outer"   -> RelOuter(s, e, r)
      [] r.kind = "total"   -> RelTotal(s, cs, e, r)
      [] r.kind = "linear"  -> Refers(s, r.k, e, 1) /\ Refers(s, r.k2, e, 1) /\ RelLinear(s, e, r)

QueryFails(s, o, cs, kind, rows, e) ==
    IF ~ ReplyKindOK(kind, e) THEN {"answer"}
    ELSE IF ~ e.intact THEN {"intact"}
    ELSE IF e.out # "num" THEN {}
    ELSE IF e.shape # << rows, e.M >> THEN {"shape"}
    ELSE {n \in {e.chk[i] : i \in 1 .. Len(e.chk)} : ~ ClauseOK(s, o, cs, e, n)}
         \cup {e.rel[i].kind : i \in {i \in 1 .. Len(e.rel) : ~ RelOK(s, cs, e, e.rel[i])}}

Fails(s, k) ==
    LET e == Ev(s, k) IN
    CASE e.op = "new" -> IF e.exc = "" THEN {} ELSE {"raise"}
      [] e.op = "pf"  -> IF e.exc # "" THEN {"raise"} ELSE IF ~ e.intact THEN {"intact"} ELSE {}
      [] e.op = "add" -> IF e.exc # "" THEN {"raise"} ELSE IF ~ e.intact THEN {"intact"} ELSE {}
      [] e.op = "q"   -> LET cs == TLCEval(Lib!Registered(e.o))
                             kind == Lib!AnswerKind(e.o)
                         IN QueryFails(s, e.o, cs, kind, IF kind = "num" THEN Rows(cs, e) ELSE 0, e)
      [] e.op = "pfq" -> LET cs == << DefOf(<< s, e.p >>) >>
                         IN QueryFails(s, "", cs, "num", Size(cs[1]), e)
      [] e.op = "driver" -> {"driver"}
      [] e.op = "util" -> QueryFails(s, "", << >>, "num", e.rows, e)

Act(s, k) ==
    LET e == Ev(s, k) IN
    CASE e.op = "new" -> Lib!New(e.o)
      [] e.op = "add" -> Lib!Add_(e.o, [i \in 1 .. Len(e.ps) |-> << s, e.ps[i] >>])
      [] e.op = "q"   -> Lib!Query(e.o)
      [] OTHER        -> UNCHANGED reg

TraceInit == /\ sess \in 1 .. Len(Trace)
             /\ l = 0
             /\ Lib!Init

TraceNext == /\ l < Len(Trace[sess].ev)
             /\ l' = l + 1
             /\ UNCHANGED sess
             /\ Act(sess, l + 1)
             /\ LET f == TLCEval(Fails(sess, l + 1)) IN
                \A n \in f : PrintT(<< "FAIL", sess, l + 1, n >>)

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
