------------------------------ MODULE BigFloat ------------------------------
(***************************************************************************)
(* Arbitrary-exponent, PREC-bit binary floating point numbers, defined on  *)
(* TLC's 32-bit integers.  A finite number is the tuple                    *)
(*                                                                         *)
(*      << s, e, l1, ..., ln >>   =   s * (l1 + l2 B + ... + ln B^(n-1)) * 2^e *)
(*                                                                         *)
(* with s in {-1, 0, 1}, B = 4096 and ln # 0; zero is << 0, 0 >>.          *)
(* << 2 >> is +infinity, << -2 >> is -infinity, << 3 >> is not-a-number:   *)
(* they only occur in values recorded from the implementation.             *)
(*                                                                         *)
(* Results are truncated towards zero to PREC bits, so every operation has *)
(* a relative error below 2^(1-PREC).  The definitions below are complete  *)
(* and executable; java/BigFloat.java overrides Add, Mul, Div, DivInt,     *)
(* Sqrt, Cmp for speed and `check selftest' compares both bit for bit.     *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC           \* TLCEval (identity; forces evaluation)
LOCAL INSTANCE SequencesExt  \* FoldLeft

LOCAL B == 4096
LOCAL W == 12
PREC == 128

---------------------------------------------------------------------------
(* Natural numbers as little-endian sequences of limbs without leading 0s *)

LOCAL Pow2Tab == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096 >>
LOCAL P2(k) == Pow2Tab[k + 1]

RECURSIVE NTrim(_)
LOCAL NTrim(m) == IF m = << >> \/ m[Len(m)] # 0 THEN m
                  ELSE NTrim(SubSeq(m, 1, Len(m) - 1))

LOCAL Limb(m, i) == IF i <= Len(m) /\ i >= 1 THEN m[i] ELSE 0

LOCAL Idx(n) == [i \in 1 .. n |-> i]
LOCAL Rev(n) == [i \in 1 .. n |-> n + 1 - i]

\* raw: sequence of column sums (non-negative), turned into limbs; the accumulator is << carry, limbs >>
LOCAL NCarry(raw) ==
    LET r   == TLCEval(raw)
        Step(acc, i) == << (r[i] + acc[1]) \div B, Append(acc[2], (r[i] + acc[1]) % B) >>
        out == TLCEval(FoldLeft(Step, << 0, << >> >>, Idx(Len(r))))
    IN NTrim(out[2] \o << out[1] % B, (out[1] \div B) % B, out[1] \div (B * B) >>)

LOCAL Max2(a, b) == IF a >= b THEN a ELSE b
LOCAL Min2(a, b) == IF a <= b THEN a ELSE b

LOCAL NAdd(a, b) ==
    NCarry([i \in 1 .. Max2(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)])

\* a >= b; the accumulator is << borrow, limbs >>
LOCAL NSub(a, b) ==
    LET Step(acc, i) == LET v == a[i] - Limb(b, i) - acc[1]
                        IN IF v < 0 THEN << 1, Append(acc[2], v + B) >> ELSE << 0, Append(acc[2], v) >>
    IN NTrim(FoldLeft(Step, << 0, << >> >>, Idx(Len(a)))[2])

RECURSIVE NCmpR(_, _, _)
LOCAL NCmpR(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE NCmpR(a, b, i - 1)
LOCAL NCmp(a, b) ==
    IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpR(a, b, Len(a))

RECURSIVE ColSum(_, _, _, _, _)
LOCAL ColSum(a, b, k, i, hi) ==
    IF i > hi THEN 0 ELSE a[i] * b[k + 1 - i] + ColSum(a, b, k, i + 1, hi)
LOCAL NMul(a, b) ==
    IF a = << >> \/ b = << >> THEN << >>
    ELSE NCarry([k \in 1 .. (Len(a) + Len(b) - 1) |->
                   ColSum(a, b, k, Max2(1, k + 1 - Len(b)), Min2(k, Len(a)))])

LOCAL NBitLen(m) ==
    IF m = << >> THEN 0
    ELSE W * (Len(m) - 1) +
         (CHOOSE k \in 1 .. W : P2(k) > m[Len(m)] /\ P2(k - 1) <= m[Len(m)])

LOCAL Zeros(k) == [i \in 1 .. k |-> 0]
LOCAL NShl(m, k) ==
    IF m = << >> THEN m
    ELSE Zeros(k \div W) \o NCarry([i \in 1 .. Len(m) |-> m[i] * P2(k % W)])
LOCAL NShr(m, k) ==
    LET q == k \div W   r == k % W   n == Len(m) - q IN
    IF n <= 0 THEN << >>
    ELSE NTrim(TLCEval([i \in 1 .. n |-> (m[i + q] \div P2(r)) + (Limb(m, i + q + 1) % P2(r)) * P2(W - r)]))

\* division by a small integer; the accumulator is << remainder, quotient >>
LOCAL NDivSmall(m, k) ==
    LET Step(acc, i) == LET v == acc[1] * B + m[i] IN << v % k, << v \div k >> \o acc[2] >>
    IN NTrim(FoldLeft(Step, << 0, << >> >>, Rev(Len(m)))[2])

LOCAL NBit(m, j) == (Limb(m, (j \div W) + 1) \div P2(j % W)) % 2
\* binary long division; the accumulator is << remainder, quotient >>
LOCAL NDivStep(n, d, acc, j) ==
    LET r2 == NAdd(NShl(acc[1], 1), IF NBit(n, j - 1) = 1 THEN << 1 >> ELSE << >>)
        q2 == NShl(acc[2], 1)
    IN IF NCmp(r2, d) >= 0 THEN << NSub(r2, d), NAdd(q2, << 1 >>) >> ELSE << r2, q2 >>
LOCAL NDiv(n, d) ==
    LET Step(acc, j) == NDivStep(n, d, acc, j)
    IN FoldLeft(Step, << << >>, << >> >>, Rev(NBitLen(n)))[2]

LOCAL NSqrt(n) ==
    LET Step(r, j) == LET r2 == NAdd(r, NShl(<< 1 >>, j - 1))
                      IN IF NCmp(NMul(r2, r2), n) <= 0 THEN r2 ELSE r
    IN FoldLeft(Step, << >>, Rev(NBitLen(n) \div 2 + 1))

RECURSIVE NFromNat(_)
LOCAL NFromNat(k) == IF k = 0 THEN << >> ELSE << k % B >> \o NFromNat(k \div B)

---------------------------------------------------------------------------
(* Floating point numbers *)

Zero == << 0, 0 >>
One  == << 1, 0, 1 >>
PosInf == << 2 >>
NegInf == << -2 >>
NaN    == << 3 >>

IsFin(x) == x[1] \in {-1, 0, 1}
IsZero(x) == x[1] = 0

Mant(x) == SubSeq(x, 3, Len(x))

\* s * m * 2^e, truncated to PREC bits
LOCAL Norm(s, e, m) ==
    IF m = << >> THEN Zero
    ELSE LET k == NBitLen(m) - PREC IN
         IF k > 0 THEN << s, e + k >> \o NShr(m, k) ELSE << s, e >> \o m

Neg(x) == IF Len(x) = 1 THEN IF x[1] = 3 THEN x ELSE << -x[1] >>
          ELSE << -x[1] >> \o Tail(x)
Abs(x) == IF x[1] < 0 THEN Neg(x) ELSE x
Sgn(x) == x[1]

FromInt(k) == IF k = 0 THEN Zero
              ELSE IF k > 0 THEN << 1, 0 >> \o NFromNat(k) ELSE << -1, 0 >> \o NFromNat(-k)

\* x * 2^k
Scale(x, k) == IF x[1] = 0 \/ ~ IsFin(x) THEN x ELSE [x EXCEPT ![2] = @ + k]

\* exponent of the leading bit: 2^(Top-1) <= |x| < 2^Top
Top(x) == x[2] + NBitLen(Mant(x))

LOCAL Gap == 2 * PREC + 64

Add(x, y) ==
    IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
    ELSE IF Top(x) - Top(y) > Gap THEN x ELSE IF Top(y) - Top(x) > Gap THEN y
    ELSE LET e  == Min2(x[2], y[2])
             mx == TLCEval(NShl(Mant(x), x[2] - e))
             my == TLCEval(NShl(Mant(y), y[2] - e))
             c  == NCmp(mx, my)
         IN IF x[1] = y[1] THEN Norm(x[1], e, TLCEval(NAdd(mx, my)))
            ELSE IF c = 0 THEN Zero
            ELSE IF c > 0 THEN Norm(x[1], e, TLCEval(NSub(mx, my)))
            ELSE Norm(y[1], e, TLCEval(NSub(my, mx)))

Sub(x, y) == Add(x, Neg(y))

Mul(x, y) ==
    IF x[1] = 0 \/ y[1] = 0 THEN Zero
    ELSE Norm(x[1] * y[1], x[2] + y[2], TLCEval(NMul(Mant(x), Mant(y))))

\* y # 0
Div(x, y) ==
    IF x[1] = 0 THEN Zero
    ELSE LET k == Max2(0, PREC + 2 + NBitLen(Mant(y)) - NBitLen(Mant(x)))
         IN Norm(x[1] * y[1], x[2] - y[2] - k, TLCEval(NDiv(TLCEval(NShl(Mant(x), k)), Mant(y))))

\* division by an integer 1 .. 2^18
DivInt(x, n) ==
    IF x[1] = 0 THEN Zero
    ELSE LET k == Max2(0, PREC + 20 - NBitLen(Mant(x)))
             m == TLCEval(NShl(Mant(x), k))
         IN Norm(x[1], x[2] - k, TLCEval(NDivSmall(m, n)))

\* x >= 0
Sqrt(x) ==
    IF x[1] = 0 THEN Zero
    ELSE LET k0 == Max2(0, 2 * PREC + 4 - NBitLen(Mant(x)))
             k  == IF (x[2] - k0) % 2 = 0 THEN k0 ELSE k0 + 1
         IN Norm(1, (x[2] - k) \div 2, TLCEval(NSqrt(TLCEval(NShl(Mant(x), k)))))

\* -1, 0, 1 for finite x < y, x = y, x > y
Cmp(x, y) ==
    IF x[1] # y[1] THEN IF x[1] < y[1] THEN -1 ELSE 1
    ELSE IF x[1] = 0 THEN 0
    ELSE IF Top(x) # Top(y) THEN IF Top(x) < Top(y) THEN -x[1] ELSE x[1]
    ELSE LET e == Min2(x[2], y[2]) IN
         x[1] * NCmp(NShl(Mant(x), x[2] - e), NShl(Mant(y), y[2] - e))

Lt(x, y) == Cmp(x, y) < 0
Leq(x, y) == Cmp(x, y) <= 0
Eq(x, y) == Cmp(x, y) = 0

LOCAL IntOf(m) == IF m = << >> THEN 0
                  ELSE m[1] + (IF Len(m) > 1 THEN B * m[2] ELSE 0)
                            + (IF Len(m) > 2 THEN B * B * m[3] ELSE 0)
\* integer part (towards zero) of |x| < 2^30
ToInt(x) ==
    IF x[1] = 0 THEN 0
    ELSE x[1] * IntOf(IF x[2] >= 0 THEN NShl(Mant(x), x[2]) ELSE NShr(Mant(x), -x[2]))
=============================================================================
