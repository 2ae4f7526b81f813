------------------------------- MODULE MCCli -------------------------------
EXTENDS Cli
\* 0-500 K; whole, fractional on the grid, fractional off the grid, a single temperature
R == {<< 0, 2000 >>, << 40, 120 >>, << 1, 41 >>, << 2, 47 >>, << 40, 40 >>, << 0, 35 >>}
RR == R \cup {<< 0, 4000 >>, << 0, 0 >>, << 3, 3 >>, << 5, 7 >>, << 1200, 1251 >>, << 400, 2403 >>}
=============================================================================
