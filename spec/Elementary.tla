----------------------------- MODULE Elementary -----------------------------
(* Elementary functions on BigFloat numbers: every function is an explicit  *)
(* algorithm (argument reduction + Taylor series), accurate to about 2^-110. *)
EXTENDS BigFloat, TLC, SequencesExt

Sum(s)   == FoldLeft(Add, Zero, s)
Prod(s)  == FoldLeft(Mul, One, s)
LOCAL Min2(a, b) == IF Lt(b, a) THEN b ELSE a
LOCAL Max2(a, b) == IF Lt(a, b) THEN b ELSE a
MinOf(s) == FoldLeft(Min2, s[1], s)
MaxOf(s) == FoldLeft(Max2, s[1], s)

MulInt(x, n) == Mul(x, FromInt(n))
Sqr(x) == Mul(x, x)

\* ln 2 = sum_{k>=1} 1 / (k 2^k), evaluated by the spec itself
Ln2 == LET Step(acc, k) == Add(acc, Scale(DivInt(One, k), -k))
       IN FoldLeft(Step, Zero, [k \in 1 .. PREC + 12 |-> k])

\* sum_{k<=n} r^k/k!, by Horner's rule; |r| < 2^-8: 16 terms reach 2^-170
TERMS == 16
LOCAL ExpTaylor(r) ==
    LET Step(acc, k) == Add(One, DivInt(Mul(r, acc), k))
    IN FoldLeft(Step, One, [i \in 1 .. TERMS |-> TERMS + 1 - i])

LOCAL SqrTimes(x, n) == LET Step(acc, i) == Sqr(acc) IN FoldLeft(Step, x, [i \in 1 .. n |-> i])

HALVINGS == 8

\* e^x for |x| < 2^29 (larger: overflow is not needed, e^-large is treated as 0)
ExpWith(x, ln2) ==
    IF IsZero(x) THEN One
    ELSE IF Sgn(x) < 0 /\ Top(x) > 28 THEN Zero
    ELSE LET k == TLCEval(ToInt(Div(x, ln2)))
             r == TLCEval(Scale(Sub(x, MulInt(ln2, k)), -HALVINGS))
         IN Scale(SqrTimes(ExpTaylor(r), HALVINGS), k)

\* |a - b| <= 2^-bits * max(|a|, |b|)
CloseBits(a, b, bits) ==
    LET d == Abs(Sub(a, b))
        m == IF Lt(Abs(a), Abs(b)) THEN Abs(b) ELSE Abs(a)
    IN Leq(d, Scale(m, -bits))
=============================================================================
