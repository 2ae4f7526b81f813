-------------------------- MODULE Representations --------------------------
(***************************************************************************)
(* Tables of numbers in memory.                                            *)
(*                                                                         *)
(* The caller keeps a table of numbers in memory in whatever way it likes: *)
(* it stores it by rows or by columns, forwards or backwards, with holes,  *)
(* inside something bigger, off the natural boundary, as integers or       *)
(* floating-point numbers, in either byte order, and may write-protect it. *)
(* The library sees an address function and reads numbers through it.      *)
(* TLC checks that every such view denotes the same table, and that what a *)
(* query reads is the table and nothing else, whatever the caller has done *)
(* to the memory before; the views are printed and replayed.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Rows, Cols,          \* shape of the table
          Kinds,               \* ways to write a number down
          MaxMoves, Dump

VARIABLES mem,                 \* address -> number, or Junk
          view,                \* [off, s0, s1, kind, order, skew, frozen, wrap]
          moves, seen          \* seen: what the last query read
vars == << mem, view, moves, seen >>

Junk == 0
Table == [i \in 1 .. Rows |-> [j \in 1 .. Cols |-> 10 * i + j]]
Cells == (1 .. Rows) \X (1 .. Cols)
Addr(v, i, j) == v.off + (i - 1) * v.s0 + (j - 1) * v.s1
Read(m, v) == [i \in 1 .. Rows |-> [j \in 1 .. Cols |-> m[Addr(v, i, j)]]]

Plain == [off |-> 0, s0 |-> Cols, s1 |-> 1, kind |-> "f8", order |-> "little", skew |-> 0, frozen |-> FALSE, wrap |-> "array"]
Max2(a, b) == IF a < b THEN b ELSE a
\* byRows: rows are contiguous runs; step: distance within a run; gap: between runs; up0, up1: forwards?
Layout(byRows, step, gap, lead, up0, up1) ==
    LET run == (IF byRows THEN Cols ELSE Rows) * step + gap
        a0 == IF byRows THEN run ELSE step
        a1 == IF byRows THEN step ELSE run
    IN [off |-> lead + (IF up0 THEN 0 ELSE (Rows - 1) * a0) + (IF up1 THEN 0 ELSE (Cols - 1) * a1),
        s0 |-> IF up0 THEN a0 ELSE - a0, s1 |-> IF up1 THEN a1 ELSE - a1]
Size(v) == LET top == v.off + Max2(0, (Rows - 1) * v.s0) + Max2(0, (Cols - 1) * v.s1) IN top + 1
Stored(v) == [a \in 0 .. Size(v) |->          \* one more cell than needed, so that there is always a junk neighbour
                IF \E c \in Cells : Addr(v, c[1], c[2]) = a
                THEN LET c == CHOOSE c \in Cells : Addr(v, c[1], c[2]) = a IN Table[c[1]][c[2]]
                ELSE Junk]

Init == /\ view = Plain /\ mem = Stored(Plain) /\ moves = 0 /\ seen = << >>

Becomes(v) == /\ moves < MaxMoves /\ moves' = moves + 1 /\ v # view
              /\ view' = v /\ mem' = Stored(v) /\ seen' = << >>
Move == \E byRows, up0, up1 \in BOOLEAN : \E step \in 1 .. 2, gap \in 0 .. 1, lead \in 0 .. 1 :
            LET l == Layout(byRows, step, gap, lead, up0, up1) IN
            Becomes([view EXCEPT !.off = l.off, !.s0 = l.s0, !.s1 = l.s1, !.frozen = FALSE])
Rewrite == \E k \in Kinds, o \in {"little", "big"}, w \in {"array", "subclass"}, s \in 0 .. 1 :
            Becomes([view EXCEPT !.kind = k, !.order = o, !.wrap = w, !.skew = s, !.frozen = FALSE])
Freeze == Becomes([view EXCEPT !.frozen = TRUE])
\* the caller writes into the memory around the table
Litter == /\ ~ view.frozen /\ moves < MaxMoves /\ moves' = moves + 1
          /\ mem' = [a \in DOMAIN mem |-> IF mem[a] = Junk THEN Junk - 1 ELSE mem[a]]
          /\ seen' = << >> /\ UNCHANGED view
Query == /\ seen' = Read(mem, view)
         /\ (Dump /\ seen = << >>) => PrintT("HIST " \o ToJson(view))
         /\ UNCHANGED << mem, view, moves >>
Next == Move \/ Rewrite \/ Freeze \/ Litter \/ Query
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* C30 *)
SameTable == Read(mem, view) = Table
OwnAddresses == \A c, d \in Cells : Addr(view, c[1], c[2]) = Addr(view, d[1], d[2]) => c = d
InMemory == \A c \in Cells : Addr(view, c[1], c[2]) \in DOMAIN mem
ReadsTheTable == seen # << >> => seen = Table
FrozenStays == [][view.frozen /\ view'.frozen => mem' = mem]_vars
QueryWritesNothing == [][Query => mem' = mem]_vars
=============================================================================
