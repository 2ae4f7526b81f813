"""Is the specification's own checking vacuous?

Each entry is a wrong edit of the specification and the properties whose model run has to report it.
    $PY tools/spec_mutants.py [names]
Runs TLC on scratch copies of spec/; says which runs report the edit and which do not.
"""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import models
import tlc

# name, file, old, new, properties whose model has to fail
M = [
    ('E-no-degeneracy', 'Thermo', 'ELSE Mul(c.g[a], ExpNeg(ElectronicX(c, a, T)))', 'ELSE ExpNeg(ElectronicX(c, a, T))', 'C02 C04'),
    ('E-half-energy', 'Thermo', 'ELSE Mul(c.g[a], ExpNeg(ElectronicX(c, a, T)))', 'ELSE Mul(c.g[a], ExpNeg(Scale(ElectronicX(c, a, T), -1)))', 'C02 C15 C16'),
    ('E-first-is-lowest', 'Thermo', 'GroundEnergy(c) == MinOf(c.E)', 'GroundEnergy(c) == c.E[1]', 'C06 C04'),
    ('E-ground-only-first', 'Thermo', 'THEN IF Eq(c.E[a], GroundEnergy(c)) THEN c.g[a] ELSE Zero',
     'THEN IF Eq(c.E[a], GroundEnergy(c)) /\\ \\A b \\in 1 .. a - 1 : Lt(c.E[a], c.E[b]) THEN c.g[a] ELSE Zero', 'C04 C06'),
    ('E-W-sign', 'Thermo', 'ELSE Neg(ElectronicX(c, a, T))\n', 'ELSE ElectronicX(c, a, T)\n', 'C15 C16 C28'),
    ('norm-not', 'Thermo', 'IN [a \\in 1 .. Len(z) |-> Div(z[a], tot)]', 'IN [a \\in 1 .. Len(z) |-> z[a]]', 'C01'),
    ('norm-largest', 'Thermo', 'LET tot == TLCEval(Sum(z)) IN', 'LET tot == TLCEval(MaxOf(z)) IN', 'C01'),
    ('C-product', 'Thermo', 'ClassicalZ(c, a) == Div(One, Prod(c.nu[a]))', 'ClassicalZ(c, a) == Div(One, Sum(c.nu[a]))', 'C05 C12 C26'),
    ('Q-no-zero-point', 'Thermo', 'IN Div(ExpNeg(ZeroPointX(c, a, T)), Prod(Map(Occ, c.nu[a])))', 'IN Div(One, Prod(Map(Occ, c.nu[a])))', 'C05 C13 C16'),
    ('Q-coth-tanh', 'Thermo', 'IN Div(Mul(x, Add(One, q)), Sub(One, q))', 'IN Div(Mul(x, Sub(One, q)), Add(One, q))', 'C15 C16'),
    ('Q-csch', 'Thermo', 'IN Div(Mul(Scale(Sqr(x), 2), q), Sqr(d))', 'IN Div(Mul(Sqr(x), q), Sqr(d))', 'C15 C16'),
    ('R-no-symmetry', 'Thermo', 'RotationalZ(c, a) == Div(MomentFactor(c.mom[a]), c.sym[a])', 'RotationalZ(c, a) == MomentFactor(c.mom[a])', 'C14'),
    ('R-no-root', 'Thermo', '    Sqrt(Prod([i \\in 1 .. Len(row) |-> IF Vanishing(row, i) THEN One ELSE row[i]]))',
     '    Prod([i \\in 1 .. Len(row) |-> IF Vanishing(row, i) THEN One ELSE row[i]])', 'C14'),
    ('R-derivative', 'Thermo', '[] c.kind = "R" -> Neg(ThreeHalves)', '[] c.kind = "R" -> Neg(One)', 'C15 C16'),
    ('C-derivative', 'Thermo', '[] c.kind = "C" -> Neg(Modes(c, a))', '[] c.kind = "C" -> Neg(Scale(Modes(c, a), -1))', 'C15 C16'),
    ('X-share', 'Thermo', 'IN Mul(Sqr(Ratio(c.d[a], T)), Mul(s, Sub(One, s)))', 'IN Mul(Sqr(Ratio(c.d[a], T)), s)', 'C15 C16'),
    ('mean-unweighted', 'Thermo', 'IF IsZero(p[a]) THEN Zero ELSE Mul(p[a], f[a])])', 'IF IsZero(p[a]) THEN Zero ELSE f[a]])', 'C11 C15'),
    ('heat-no-deviation', 'Thermo', '    IN Add(Mean(p, v), Mean(p, dev))', '    IN Mean(p, v)', 'C15'),
    ('heat-no-v', 'Thermo', '    IN Add(Mean(p, v), Mean(p, dev))', '    IN Mean(p, dev)', 'C15'),
    ('weights-last', 'Thermo', 'Weights(cs, T) == [a \\in Minima(cs) |-> Prod(OverContribs(Weight, cs, a, T))]',
     'Weights(cs, T) == [a \\in Minima(cs) |-> Weight(cs[Len(cs)], a, T)]', 'C08'),
    ('hot-energies', 'Thermo', 'LOCAL HotWeight(c, a, T) == CASE c.kind = "E" -> c.g[a]', 'LOCAL HotWeight(c, a, T) == CASE c.kind = "E" -> One', 'C05'),
    ('K-beta-cold', 'Kernel', 'Beta(T) == Masked(~ IsCold(T), XDiv(One, XMul(KB, T)), PosInf)', 'Beta(T) == Masked(~ IsCold(T), XDiv(One, XMul(KB, T)), Zero)', 'C24 C15'),
    ('K-zero-times-inf', 'Kernel', 'KExponent(energy, T) == Masked(~ (IsFin(energy) /\\ IsZero(energy)), XMul(energy, Beta(T)), Zero)',
     'KExponent(energy, T) == XMul(energy, Beta(T))', 'C24 C15'),
    ('K-mean-unmasked', 'Kernel', 'Masked(Sgn(p[a][j]) = 1, XMul(Bt[a][j], p[a][j]), Zero)', 'XMul(Bt[a][j], p[a][j])', 'C15'),
    ('K-normal-first-column', 'Kernel', 'XDiv(z[a][j], tot[j])', 'XDiv(z[a][j], tot[1])', 'C07'),
    ('K-sinh', 'Kernel', 'Scale(Sub(Exp(x), ExpNeg(x)), -1)', 'Scale(Add(Exp(x), ExpNeg(x)), -1)', 'C15'),
    ('K-variance', 'Kernel', 'Neg(XMul(mw[j], mw[j]))', 'XMul(mw[j], mw[j])', 'C15'),
    ('L-drop-renormalises', 'Landscapes', '        z == TLCEval(Weights(cs, temp))\n        p ==', '        z == TLCEval([a \\in 1 .. Len(ms) |-> Mul(Weights(cs, temp)[a], I(IF a = 1 THEN 2 ELSE 1))])\n        p ==', 'C06 C23'),
    ('H-add-aliases', 'Histories', '             /\\ UNCHANGED << own, held, next >>\n\n\\* a query',
     '             /\\ own\' = [own EXCEPT ![o] = IF cells[own[o]] = << >> THEN ListCell ELSE @]\n             /\\ UNCHANGED << held, next >>\n\n\\* a query', 'C09'),
    ('H-add-to-all', 'Histories', '![own[o]] = @ \\o b]', '![own["a"]] = @ \\o b]', 'C09'),
    ('H-add-loses-first', 'Histories', '![own[o]] = @ \\o b]', '![own[o]] = @ \\o Tail(b)]', 'C08 C09'),
    ('H-query-stale', 'Histories', 'r == << w, cells[own[o]], cells[TempCell] >>', 'r == << w, cells[own[o]], << 1 >> >>', 'C09'),
    ('H-query-own-cell', 'Histories', "                             /\\ held' = held \\cup {next}\n", "                             /\\ held' = held \\cup {own[o]}\n", 'C09'),
    ('H-kind', 'Histories', 'ELSE IF \\A i \\in 1 .. Len(seq) : Sizes[seq[i]] = Sizes[seq[1]] THEN "num"', 'ELSE IF \\A i \\in 1 .. Len(seq) : Sizes[seq[i]] <= Sizes[seq[1]] THEN "num"', 'C10'),
    ('S-read-other-object', 'Schedules', 'Append(@, Frame(reg["inner"], rd[1]))', 'Append(@, Frame(reg["shared"], rd[1]))', 'C29'),
    ('S-add-to-shared', 'Schedules', "reg' = [reg EXCEPT ![Own(c)] = @ \\o Op(c).b]", "reg' = [reg EXCEPT ![\"shared\"] = @ \\o Op(c).b]", 'C29'),
    ('S-reply-to-all', 'Schedules', "replies' = [replies EXCEPT ![c] = Append(@, r)]", "replies' = [d \\in Callers |-> IF d = c \\/ replies[d] # << >> THEN Append(replies[d], r) ELSE replies[d]]", 'C29'),
    ('Ld-row-by-row', 'Loader', 'x.v[((k - 1) % 3) + 1][((k - 1) \\div 3) + 1]', 'x.v[((k - 1) \\div 3) + 1][((k - 1) % 3) + 1]', 'C17'),
    ('Ld-first-frame', 'Loader', 'LET x == file[at + 1] IN', 'LET x == file[1] IN', 'C17'),
    ('Sh-mirror', 'Shapes', '(n = 4 => Volume(s, x) = vol) /\\ seen(x) = home', 'seen(x) = home', 'C18'),
    ('Sh-home', 'Shapes', '(n = 4 => Volume(s, x) = vol) /\\ seen(x) = home', '(n = 4 => Volume(s, x) = vol)', 'C18'),
    ('Sh-origin', 'Shapes', 'RSub(RMul(MassSum(s, m, U), MassSum(s, m, F)), RMul(MassSum(s, m, A), MassSum(s, m, B)))', 'RMul(MassSum(s, m, U), MassSum(s, m, F))', 'C18'),
    ('Sh-keeps', 'Shapes', 'IF Flat(s) THEN Symmetries(s) ELSE {pi \\in Symmetries(s) : Keeps(s, pi)}', 'Symmetries(s)', 'C18'),
    ('Cli-conflict', 'Cli', 'Conflict(o) == {"e", "s"} \\subseteq o.flags \\/ {"c", "q"} \\subseteq o.flags', 'Conflict(o) == {"e", "s"} \\subseteq o.flags', 'C19'),
    ('Cli-one-more', 'Cli', '(r[2] - r[1]) \\div 4 + 1', '(r[2] - r[1]) \\div 4 + 2', 'C20'),
    ('Cli-one-less', 'Cli', '(r[2] - r[1]) \\div 4 + 1', '(r[2] - r[1] + 3) \\div 4', 'C20'),
    ('Cli-draw-table', 'Cli', "files' = files \\cup {[path |-> << Prefix(opts), k, \"format\" >>, kind |-> \"image\", of |-> f.of]}",
     "files' = files \\cup {[path |-> << Prefix(opts), k, \"dat\" >>, kind |-> \"image\", of |-> f.of]}", 'C21'),
    ('Cli-draw-only-last', 'Cli', '           /\\ IF opts.plot THEN phase', '           /\\ IF opts.plot /\\ todo = {k} THEN phase', 'C21'),
    ('V-since', 'Version', 'Since(c) == Cardinality(Anc(head) \\ Anc(c))', 'Since(c) == Cardinality(Anc(head)) - c', 'C22'),
    ('V-any-tag', 'Version', 'Reachable == {t \\in tags : t[2] \\in Anc(head)}', 'Reachable == tags', 'C22'),
    ('V-farthest', 'Version', '\\A u \\in Reachable : Since(t[2]) <= Since(u[2])', '\\A u \\in Reachable : Since(t[2]) >= Since(u[2])', 'C22'),
    ('V-clean', 'Version', 'Plain(r) == r.tag # "" /\\ r.since = 0 /\\ ~ r.dirty', 'Plain(r) == r.tag # "" /\\ r.since = 0', 'C22'),
    ('V-junk', 'Version', 'dirty |-> mod] : t', 'dirty |-> mod \\/ junk] : t', 'C22'),
    ('Cmp-missing', 'Compare', 'Same(d, e) == DOMAIN d = DOMAIN e', 'Same(d, e) == DOMAIN d \\subseteq DOMAIN e', 'C25'),
    ('Cmp-shape', 'Compare', 'SameArray(x, y) == x.shape = y.shape /\\', 'SameArray(x, y) == Len(x.v) = Len(y.v) /\\', 'C25'),
    ('Cmp-first', 'Compare', '\\A i \\in 1 .. Len(x.v) : x.v[i] = y.v[i]', '\\A i \\in 1 .. 1 : x.v[i] = y.v[i]', 'C25'),
    ('Rep-forgets-s0', 'Representations', 'Read(m, v) == [i \\in 1 .. Rows |-> [j \\in 1 .. Cols |-> m[Addr(v, i, j)]]]',
     'Read(m, v) == [i \\in 1 .. Rows |-> [j \\in 1 .. Cols |-> m[v.off + (i - 1) * Cols + (j - 1) * v.s1]]]', 'C30'),
    ('Rep-overlap', 'Representations', 'LET run == (IF byRows THEN Cols ELSE Rows) * step + gap', 'LET run == (IF byRows THEN Rows ELSE Cols) * step + gap', 'C30'),
    ('Rep-litter-frozen', 'Representations', 'Litter == /\\ ~ view.frozen /\\', 'Litter == /\\', 'C30'),
    ('W-stale', 'Workspace', '/\\ results\' = [p \\in {<< Prefix(i, out), k >> : k \\in {"P", "C"}} |-> t[p[2]]] @@ results',
     '/\\ results\' = results @@ [p \\in {<< Prefix(i, out), k >> : k \\in {"P", "C"}} |-> t[p[2]]]', 'C31 C32'),
    ('W-writes-early', 'Workspace', "ELSE code' = 1 /\\ UNCHANGED << results, ran >>", "ELSE code' = 1 /\\ results' = (<< Prefix(i, out), \"P\" >> :> << >>) @@ results /\\ UNCHANGED << ran >>", 'C31'),
    ('W-says-fine', 'Workspace', "ELSE code' = 1 /\\", "ELSE code' = 0 /\\", 'C31'),
    ('W-any-options', 'Workspace', '|-> << k, data[i].ver, o >>] IN', '|-> << k, data[i].ver, 1 >>] IN', 'C32'),
    ('E-cut-off', 'Thermo', 'ELSE Mul(c.g[a], ExpNeg(ElectronicX(c, a, T)))', 'ELSE IF Lt(FromInt(30000), c.E[a]) THEN One ELSE Mul(c.g[a], ExpNeg(ElectronicX(c, a, T)))', 'C03'),
    ('E-square-T', 'Thermo', '    IF IsHot(T) THEN Zero ELSE Ratio(RelEnergy(c, a), T)', '    IF IsHot(T) THEN Zero ELSE Ratio(Sqr(RelEnergy(c, a)), T)', 'C27 C26'),
    ('E-inverted', 'Thermo', '    IF IsHot(T) THEN Zero ELSE Ratio(RelEnergy(c, a), T)', '    IF IsHot(T) THEN Zero ELSE Neg(Ratio(RelEnergy(c, a), T))', 'C02 C28'),
    ('X-inverted', 'Thermo', 'ELSE Mul(c.r[a], ExpNeg(Ratio(c.d[a], T)))', 'ELSE Mul(c.r[a], ExpNeg(Neg(Ratio(c.d[a], T))))', 'C16 C28'),
    ('heat-raw-square', 'Thermo', 'Sqr(Sub(w[a], m))])', 'Sqr(w[a])])', 'C15'),
    ('mean-by-index', 'Thermo', 'ELSE Mul(p[a], f[a])])', 'ELSE Mul(p[a], f[1])])', 'C11 C06'),
    ('R-order', 'Thermo', 'RotationalZ(c, a) == Div(MomentFactor(c.mom[a]), c.sym[a])', 'RotationalZ(c, a) == Div(MomentFactor(c.mom[1]), c.sym[a])', 'C14'),
    ('H-size-of-first', 'Histories', 'Sizes[seq[i]] = Sizes[seq[1]] THEN "num"', 'Sizes[seq[1]] = Sizes[seq[Len(seq)]] THEN "num"', 'C10'),
    ('P-fixed-path', 'Processes', 'Path(p, k) == << Prefix(job[p]), k >>', 'Path(p, k) == << "tmp", k >>', 'C33'),
    ('P-same-prefix', 'Processes', '/\\ \\A q \\in Procs : Live(q) => Prefix(job[q]) # Prefix(j)', '/\\ TRUE', 'C33'),
    ('P-full-says-well', 'Processes', 'pc[p] = "fill" /\\ Over(p, 1)', 'pc[p] = "fill" /\\ Over(p, 0)', 'C34'),
    ('P-wall-says-well', 'Processes', 'pc[p] = "open" /\\ Over(p, 1)', 'pc[p] = "open" /\\ Over(p, 0)', 'C34'),
    ('P-one-table', 'Processes', 'IF todo[p] = {cur[p]} THEN pc', 'IF todo[p] # {} THEN pc', 'C33'),
    ('P-kept-table', 'Processes', "/\\ files' = [files EXCEPT ![Path(p, cur[p])] = [of |-> << cur[p], mem[p] >>, whole |-> TRUE]]",
     "/\\ files' = [files EXCEPT ![Path(p, cur[p])] = [of |-> IF @.of = << >> \\/ p = 1 THEN << cur[p], mem[p] >> ELSE @.of, whole |-> @.whole \\/ p = 2]]", 'C33'),
    ('P-reads-anothers', 'Processes', 'Content(job[p][1]), job[p][3] >>) /\\ pc', 'Content(job[1][1]), job[p][3] >>) /\\ pc', 'C33 C34'),
    ('P-kill-removes', 'Processes', '/\\ Did([op |-> "kill", p |-> p]) /\\ UNCHANGED files', '/\\ Did([op |-> "kill", p |-> p]) /\\ files\' = << >>', 'C34'),
]


def main():
    tlc.build()
    names = sys.argv[1:]
    home = tlc.SPEC
    missed = []
    for name, mod, old, new, props in M:
        if names and name not in names:
            continue
        tmp = tempfile.mkdtemp(prefix='spec-')
        try:
            for f in os.listdir(home):
                if f.endswith('.tla') or f.endswith('.cfg'):
                    shutil.copy(os.path.join(home, f), tmp)
            p = os.path.join(tmp, mod + '.tla')
            text = open(p).read()
            if old not in text:
                print('%-24s DOES NOT APPLY' % name)
                missed.append(name)
                continue
            open(p, 'w').write(text.replace(old, new, 1))
            tlc.SPEC = tmp
            for prop in props.split():
                word = 'silent'
                for m in models.MODELS[prop]:
                    ok, _, _, out = tlc.run(m.module, m.cfg(False), m.env, workers=4, mem='4g', timeout=900)
                    if not ok:
                        hit = [x for x in out.splitlines() if 'is violated' in x or x.startswith('Error: ') and 'evaluat' in x.lower()
                               or 'Assumption' in x]
                        word = hit[0] if hit else 'failed: ' + tlc.tail(out, 3).replace('\n', ' | ')
                        break
                if word == 'silent':
                    missed.append(name + '/' + prop)
                print('%-24s %s  %s' % (name, prop, word), flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    print('not reported:', ' '.join(missed) or 'none')


if __name__ == '__main__':
    main()
