------------------------------ MODULE MCCompare ------------------------------
EXTENDS Compare
S == {<< >>, << 1 >>, << 2 >>, << 2, 1 >>, << 1, 2 >>, << 0 >>}
SS == S \cup {<< 1, 1 >>, << 0, 2 >>}
=============================================================================
