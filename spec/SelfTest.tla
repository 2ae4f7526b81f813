------------------------------ MODULE SelfTest ------------------------------
(* Vectors computed by TLC; run once with and once without the Java         *)
(* overrides: the two outputs have to be identical.                         *)
EXTENDS Elementary, FiniteSets, IOUtils, Json

Samples == << One, FromInt(3), FromInt(-7), FromInt(123456789), << 1, -1074, 1 >>,
   << 1, -60, 4095, 4095, 4095, 1, 0, 17 >>, << -1, 200, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11 >>,
   << 1, -300, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 255 >>, Zero,
   << 1, -128, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 128 >>, << -1, 5, 77, 5 >> >>
N == Len(Samples)
Vec(d) == [i \in 1 .. N |-> [j \in 1 .. N |->
          LET x == Samples[i]  y == Samples[j] IN
          << Add(x, y), Sub(x, y), Mul(x, y), IF IsZero(y) THEN Zero ELSE Div(x, y), << Cmp(x, y) >>,
             DivInt(x, 7 * j), Sqrt(Abs(x)) >>]]
Exps(d) == [i \in 1 .. 6 |-> ExpWith(DivInt(FromInt(17 * i - 60), 7), Ln2)]
VARIABLE done
Init == done = FALSE
Next == /\ ~ done /\ done' = TRUE
        /\ JsonSerialize(IOEnv.SELFTEST_OUT, << Vec(done), << Exps(done) >>, << << Ln2 >> >> >>)
Spec == Init /\ [][Next]_done
=============================================================================
