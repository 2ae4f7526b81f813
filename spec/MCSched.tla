------------------------------ MODULE MCSched ------------------------------
(* Constants for Schedules: contributions 1 = E, 2 = C, 3 = Q, 4 = X (user-defined), 9 = composite. *)
EXTENDS Schedules
Sh == << 1, 3 >>
In == << 2, 4 >>
q(o, w) == [op |-> "q", o |-> o, w |-> w]
a(b) == [op |-> "add", o |-> "own", b |-> b]
PP == {<< q("shared", "P") >>, << q("shared", "C") >>, << q("shared", "Z"), q("shared", "A") >>,
       << a(<< 1, 3 >>), q("own", "P") >>, << a(<< 9, 1 >>), q("own", "C") >>, << a(<< 9 >>), a(<< 3 >>), q("own", "P") >>,
       << a(<< 3 >>), q("own", "C") >>}
P3 == {<< q("shared", "P") >>, << q("shared", "C") >>, << a(<< 9 >>), q("own", "P") >>}
=============================================================================
