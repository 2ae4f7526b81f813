------------------------------- MODULE MCHist -------------------------------
(* Constants for Histories: contributions 1 = E, 2 = C, 3 = Q, 4 = U over the same minima; *)
(* 5 = a contribution over more minima, 6 = one over a single minimum.                      *)
EXTENDS Histories
S == << 2, 2, 2, 2, 3, 1 >>
B == {<< 1 >>, << 2 >>, << 1, 3 >>, << 5 >>}            \* C09
B8 == {<< 1 >>, << 2 >>, << 3 >>, << 4 >>, << 1, 2 >>, << 3, 4 >>, << 2, 2 >>}    \* C08
B10 == {<< >>, << 1 >>, << 4 >>, << 5 >>, << 6 >>, << 2, 5 >>}    \* C10
=============================================================================
