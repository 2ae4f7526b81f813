------------------------------- MODULE CliTrace -------------------------------
(***************************************************************************)
(* Trace validation of runs of the command and of plot_results.            *)
(*                                                                         *)
(* Events                                                                  *)
(*   run : what was asked (flags, plot, out, stem, fmt, size, min, max, r4) *)
(*         of which isomers (iso, as loaded by the library), and what came  *)
(*         out: code, exc, said, new (paths), hurt, tables, images, figs,   *)
(*         lib (the library's own answers for the same data)                *)
(*   draw: one call of plot_results: data, T, path, and what was saved      *)
(*   dir : after runs that were in progress at the same time                *)
(***************************************************************************)
EXTENDS Clauses, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, l
vars == << sess, l >>
Ev(s, k) == Trace[s].ev[k]

Cli == INSTANCE Cli WITH Ranges <- {}, Dump <- FALSE, opts <- sess, phase <- sess, contribs <- sess, todo <- sess,
                         files <- sess, said <- sess, code <- sess

SetOf(q) == {q[i] : i \in 1 .. Len(q)}
Opts(e) == [flags |-> SetOf(e.flags), plot |-> e.plot, out |-> IF e.out = "" THEN "" ELSE "given",
            range |-> IF e.r4 = << >> THEN << 0, 0 >> ELSE e.r4]

\* names: the prefix is --out_file, or the input path without its extension
Stem(e) == SubSeq(e.input, 1, Len(e.input) - 4)
PathOf(e, f) == (IF f.path[1] = "input" THEN Stem(e) ELSE e.out) \o "_" \o f.path[2] \o "."
                \o (IF f.path[3] = "dat" THEN "dat" ELSE e.fmt)
Paths(e, fs) == {PathOf(e, f) : f \in fs}

Key(e, out, t) == (CHOOSE f \in out.tables : PathOf(e, f) = t.path).path[2]

---------------------------------------------------------------------------
(* what a selected contribution is, made from the isomers of the file *)
Build(c, iso) ==
    LET n == Len(iso) IN
    CASE c = << "electronic", "unit" >> ->
             [kind |-> "E", E |-> [a \in 1 .. n |-> iso[a].E], g |-> [a \in 1 .. n |-> One]]
      [] c = << "electronic", "stated" >> ->
             [kind |-> "E", E |-> [a \in 1 .. n |-> iso[a].E], g |-> [a \in 1 .. n |-> iso[a].g]]
      [] c = << "vibrational", "classical" >> -> [kind |-> "C", nu |-> [a \in 1 .. n |-> iso[a].nu]]
      [] c = << "vibrational", "quantum" >> -> [kind |-> "Q", nu |-> [a \in 1 .. n |-> iso[a].nu]]
      [] c = << "rotational", "rigid" >> ->
             [kind |-> "R", sym |-> [a \in 1 .. n |-> iso[a].sym], mom |-> [a \in 1 .. n |-> iso[a].mom]]

\* in a fixed order: C08 says the order is irrelevant
AsSeq(S) == LET all == << << "electronic", "unit" >>, << "electronic", "stated" >>, << "vibrational", "classical" >>,
                          << "vibrational", "quantum" >>, << "rotational", "rigid" >> >>
            IN SelectSeq(all, LAMBDA c : c \in S)
Contribs(e, out) == LET q == AsSeq(out.contribs) IN [i \in 1 .. Len(q) |-> Build(q[i], e.iso)]

Near(x, y, k) == IsFin(x) /\ IsFin(y) /\ RelClose(x, y, Scale(One, k))
SeqNear(x, y, k) == Len(x) = Len(y) /\ \A i \in 1 .. Len(x) : Near(x[i], y[i], k)
\* also for heat capacities, which may be differences of large terms
SeqClose(x, y, k) == /\ Len(x) = Len(y) /\ AllFin(x) /\ AllFin(y)
                     /\ \A i \in 1 .. Len(x) : Within(x[i], y[i], Mul(Scale(One, k), Add(One, Abs(y[i]))))

---------------------------------------------------------------------------
(* C19 *)
Lib(e, key, r) == IF key = "P" THEN e.lib[r].P ELSE e.lib[r].C
OptionFails(s, e, out) ==
    (IF out.ok <=> (e.code = 0 /\ e.exc = "") THEN {} ELSE {"accepted"})
    \cup (IF out.said /\ ~ e.said THEN {"said"} ELSE {})
    \cup (IF out.tables = {} /\ (e.new # << >> \/ e.hurt) THEN {"nothing"} ELSE {})
    \cup (IF out.tables = {} \/ e.code # 0 THEN {}
          ELSE LET cs == TLCEval(Contribs(e, out)) IN
          UNION {LET t == e.tables[i]  key == t.key IN
                 (IF Len(t.rows) = Len(e.lib) /\ \A r \in 1 .. Len(t.rows) :
                       LET c == [T |-> e.lib[r].T, v |-> t.rows[r]] IN
                       IF r > e.deep THEN TRUE
                       ELSE IF key = "P" THEN Len(c.v) = Len(e.iso) /\ WeightsOK(cs, c) /\ Dist(c)
                       ELSE Len(c.v) = 1 /\ HeatOK(cs, c)
                  THEN {} ELSE {IF key = "P" THEN "specified-occupations" ELSE "specified-heat-capacity"})
                 \cup (IF Len(t.rows) = Len(e.lib)
                          /\ \A r \in 1 .. Len(t.rows) : SeqClose(t.rows[r], Lib(e, key, r), -40)
                       THEN {} ELSE {"library"})
                 : i \in 1 .. Len(e.tables)}
          \cup (IF {e.tables[i].key : i \in 1 .. Len(e.tables)} = {"P", "C"} THEN {} ELSE {"tables"}))

---------------------------------------------------------------------------
(* C20 *)
Ulp2 == Scale(One, -51)
\* min, min + 1, ..., never beyond max; ties of the limit are decided at 1e-7 K
GridOK(e, T) ==
    LET n == Len(T)
        I(k) == FromInt(k)
        eps == Scale(One, -23)
        tol(x) == Mul(Ulp2, Abs(x))
    IN /\ AllFin(T)
       /\ n >= 1
       /\ \A k \in 1 .. n : LET x == Add(e.min, I(k - 1)) IN Within(T[k], x, tol(x)) /\ Leq(T[k], e.max)
       /\ Leq(Sub(e.max, eps), Add(T[n], One))      \* the next one is beyond, or it is the limit itself
       /\ Lt(e.max, Add(Add(T[n], One), eps)) => Lt(Add(e.max, eps), Add(T[n], One))
TableFails(s, e, out) ==
    IF e.exc # "" THEN {"ended"}
    ELSE LET want == Paths(e, out.tables)
        all == want \cup Paths(e, out.images) IN
    (IF SetOf(e.new) = all /\ {e.tables[i].path : i \in 1 .. Len(e.tables)} = want THEN {} ELSE {"files"})
    \cup (IF e.hurt THEN {"others"} ELSE {})
    \cup UNION {LET t == e.tables[i]
                    width == 1 + (IF t.key = "P" THEN Len(e.iso) ELSE 1) IN
                (IF t.widths = << width >> THEN {} ELSE {"columns"})
                \cup (IF GridOK(e, t.T) THEN {} ELSE {"grid"})
                \cup (IF e.r4 = << >> \/ (LET g == Cli!Grid(e.r4) IN
                          Len(g) = Len(t.T) /\ \A k \in 1 .. Len(g) : IsFin(t.T[k]) /\ Eq(t.T[k], Scale(FromInt(g[k]), -2)))
                      THEN {} ELSE {"grid"})
                \cup (IF Len(t.rows) = Len(e.lib) /\ \A r \in 1 .. Len(t.rows) :
                             IF t.key = "P" THEN SeqNear(t.rows[r], Lib(e, "P", r), -46)
                             ELSE SeqClose(t.rows[r], Lib(e, "C", r), -40)
                      THEN {} ELSE {"values"})
                \* numbers that need 17 digits are (about) as frequent as in the computed results
                \cup (IF 2 * t.long + 6 >= t.needed THEN {} ELSE {"precision"})
                : i \in 1 .. Len(e.tables)}

---------------------------------------------------------------------------
(* C21: a saved figure shows curves y_1 .. y_n over T and nothing else *)
Curve(f, i) == f.curves[i]
\* points are compared at the sampled places `at`
SameCurve(c, m, T, y) == c.n = m /\ SeqNear(c.x, T, -40) /\ SeqClose(c.y, y, -40)
FigureFails(f, m, T, ys, labels) ==
    IF m < 3 THEN {}          \* too few points to tell curves from guides
    ELSE IF f.axes # 1 THEN {"axes"}
    ELSE IF Len(f.curves) # Len(ys) THEN {"curves"}
    ELSE (IF \A i \in 1 .. Len(ys) : \E j \in 1 .. Len(f.curves) : SameCurve(f.curves[j], m, T, ys[i])
             THEN {} ELSE {"data"})
    \cup (IF ~ labels THEN {}
          ELSE IF /\ \A i, j \in 1 .. Len(ys) : i # j => Curve(f, i).label # Curve(f, j).label
                  /\ \A i \in 1 .. Len(ys) : /\ Curve(f, i).label \in SetOf(f.legend)
                                             /\ Curve(f, i).number \in 1 .. Len(ys)
                                             /\ SameCurve(Curve(f, i), m, T, ys[Curve(f, i).number])
               THEN {} ELSE {"labels"})
    \cup (IF Near(f.xlim[1], T[1], -30) /\ Near(f.xlim[2], T[Len(T)], -30) THEN {} ELSE {"range"})
    \cup (IF \A i \in 1 .. Len(ys) : \A k \in 1 .. Len(ys[i]) :
                /\ Leq(Sub(f.ylim[1], Scale(One, -20)), ys[i][k])
                /\ Leq(ys[i][k], Add(f.ylim[2], Scale(One, -20)))
          THEN {} ELSE {"visible"})

ImageFails(img, fmt, size) ==
    (IF img.kind = fmt THEN {} ELSE {"format"})
    \cup (IF /\ IsFin(img.w) /\ RelClose(img.w, size[1], Div(One, FromInt(50)))
             /\ IsFin(img.h) /\ RelClose(img.h, size[2], Div(One, FromInt(50)))
          THEN {} ELSE {"size"})

Columns(t) == IF t.rows = << >> THEN << >>
              ELSE [j \in 1 .. Len(t.rows[1]) |-> [r \in 1 .. Len(t.rows) |-> t.rows[r][j]]]
PlotFails(s, e, out) ==
    IF e.exc # "" THEN {"ended"}
    ELSE LET want == Paths(e, out.images) IN
    (IF {e.images[i].path : i \in 1 .. Len(e.images)} = want /\ SetOf(e.new) = want \cup Paths(e, out.tables)
        THEN {} ELSE {"images"})
    \cup (IF e.like = 0 \/ (LET d == Ev(s, e.like) IN
             /\ Len(d.tables) = Len(e.tables)
             /\ \A i \in 1 .. Len(d.tables) : d.tables[i].key = e.tables[i].key /\ d.tables[i].digest = e.tables[i].digest)
          THEN {} ELSE {"same-tables"})
    \cup UNION {ImageFails(e.images[i], e.fmt, e.size) : i \in 1 .. Len(e.images)}
    \cup (IF want = {} THEN IF e.figs = << >> THEN {} ELSE {"images"}
          ELSE IF {e.figs[i].path : i \in 1 .. Len(e.figs)} # want \/ Len(e.figs) # 2 THEN {"figures"}
          ELSE UNION {LET t == e.tables[i]
                          img == CHOOSE f \in out.images : f.path[2] = t.key
                          g == CHOOSE j \in 1 .. Len(e.figs) : e.figs[j].path = PathOf(e, img)
                      IN FigureFails(e.figs[g], Len(t.T), [r \in 1 .. Len(e.lib) |-> e.lib[r].T], Columns(t), t.key = "P")
                      : i \in 1 .. Len(e.tables)})

DrawFails(s, e) ==
    IF e.exc # "" THEN {"ended"}
    ELSE IF SetOf(e.new) # {e.path} THEN {"images"}
    ELSE (IF e.intact THEN {} ELSE {"intact"})
    \cup UNION {ImageFails(e.images[i], e.fmt, e.size) : i \in 1 .. Len(e.images)}
    \cup (IF Len(e.figs) # 1 \/ e.figs[1].path # e.path THEN {"figures"}
          ELSE FigureFails(e.figs[1], e.m, e.T, e.ys, e.labels # << >>)
               \cup (IF e.labels = << >> \/ (Len(e.figs[1].curves) = Len(e.labels) /\
                         \A i \in 1 .. Len(e.labels) : \E j \in 1 .. Len(e.figs[1].curves) :
                             LET c == e.figs[1].curves[j] IN c.label = e.labels[i] /\ SameCurve(c, e.m, e.T, e.ys[i]))
                     THEN {} ELSE {"labels"})
               \cup (IF e.ylim = << >> \/ SeqNear(e.figs[1].ylim, e.ylim, -30) THEN {} ELSE {"limits"})
               \cup (IF e.ylabel = "" \/ e.figs[1].ylabel = e.ylabel THEN {} ELSE {"limits"}))

---------------------------------------------------------------------------
(* C31, C32: runs in one directory (Workspace) *)
Values(e) == {<< e.tables[i].key, e.tables[i].values >> : i \in 1 .. Len(e.tables)}
SpaceFails(s, k, e, out) ==
    IF e.broken
    THEN (IF e.code # 0 THEN {} ELSE {"refused"}) \cup (IF e.new = << >> /\ ~ e.hurt THEN {} ELSE {"nothing-written"})
    ELSE (IF e.code = 0 /\ e.exc = "" THEN {} ELSE {"ended"})
    \cup (IF SetOf(e.new) = Paths(e, out.tables \cup out.images) THEN {} ELSE {"files"})
    \cup (IF e.hurt THEN {"others"} ELSE {})
    \cup (IF e.chk = "C31" THEN {} ELSE
            (IF \A j \in 1 .. k - 1 :
                 LET d == Ev(s, j) IN
                 (d.op = "run" /\ ~ d.broken /\ d.content = e.content /\ d.okey = e.okey) => Values(d) = Values(e)
             THEN {} ELSE {"reproducible"})
            \cup (OptionFails(s, e, out) \cap {"tables", "specified-occupations", "specified-heat-capacity"}))

---------------------------------------------------------------------------
(* C33, C34: runs as processes (Processes) *)
ProcFails(s, k, e, out) ==
    (IF e.hurt THEN {"others"} ELSE {})
    \cup (IF e.cut # "" /\ e.code # 0 THEN {}       \* it says that its results are missing or incomplete
          ELSE (IF e.code = 0 /\ e.exc = "" THEN {} ELSE {"ended"})
          \cup (IF SetOf(e.new) = Paths(e, out.tables \cup out.images) THEN {} ELSE {"files"})
          \cup UNION {ImageFails(e.images[i], e.fmt, e.size) : i \in 1 .. Len(e.images)}
          \cup (IF \A j \in 1 .. k - 1 :
                     LET d == Ev(s, j) IN
                     (d.op = "run" /\ d.code = 0 /\ d.content = e.content /\ d.okey = e.okey) => Values(d) = Values(e)
                THEN {} ELSE {"reproducible"})
          \cup (OptionFails(s, e, out) \cap {"tables", "specified-occupations", "specified-heat-capacity"}))
\* after all of them: files that are nobody's result, results of runs that were over, files without an owner
DirFails(e) ==
    (IF e.hurt = << >> THEN {} ELSE {"others"})
    \cup (IF e.late = << >> THEN {} ELSE {"undisturbed"})
    \cup (IF e.cuts = 0 => e.extra = << >> THEN {} ELSE {"extra"})

---------------------------------------------------------------------------
RunFails(s, k, e) ==
    LET out == Cli!Outcome(Opts(e)) IN
    CASE e.chk = "C19" -> OptionFails(s, e, out)
      [] e.chk = "C20" -> TableFails(s, e, out)
      [] e.chk = "C21" -> PlotFails(s, e, out)
      [] e.chk \in {"C31", "C32"} -> SpaceFails(s, k, e, out)
      [] e.chk \in {"C33", "C34"} -> ProcFails(s, k, e, out)

Fails(s, k) == LET e == Ev(s, k) IN
    CASE e.op = "run" -> RunFails(s, k, e)
      [] e.op = "draw" -> DrawFails(s, e)
      [] e.op = "dir" -> DirFails(e)
      [] e.op = "driver" -> {"driver"}

TraceInit == sess \in 1 .. Len(Trace) /\ l = 0
TraceNext == /\ l < Len(Trace[sess].ev)
             /\ l' = l + 1
             /\ UNCHANGED sess
             /\ LET f == TLCEval(Fails(sess, l + 1)) IN
                \A n \in f : PrintT(<< "FAIL", sess, l + 1, n >>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
