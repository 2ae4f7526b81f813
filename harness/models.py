"""Which models decide which property, and small helpers on TLC output."""
import json
import re

from bf import fl

ASSUMPTIONS = [
    'TLC and its evaluation of the specification are correct',
    'java/BigFloat.java computes what spec/BigFloat.tla defines (compared by SelfTest)',
    'the recorder writes down exactly what the public calls received and returned',
    'conformance is shown on the recorded executions, not on all executions']


class Model:
    def __init__(self, name, module, quick, thorough, props='', invs='', env=None, histories=None):
        self.name, self.module = name, module
        self.quick, self.thorough = quick, thorough
        self.props, self.invs = props, invs
        self.env = env or {}
        self.histories = histories

    def cfg(self, thorough):
        c = self.thorough if thorough else self.quick
        t = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        if c:
            t += 'CONSTANTS\n' + ''.join('  %s\n' % x for x in c)
        if self.invs:
            t += 'INVARIANTS %s\n' % self.invs
        if self.props:
            t += 'PROPERTIES %s\n' % self.props
        return t


def land(props='', invs='', q=(2, 2), t=(3, 2), pool='{1, 2, 3, 4, 5}', tpool='{1, 2, 3, 4, 5, 6}'):
    def c(a, p):
        return ['MaxN = %d' % a[0], 'MaxMix = %d' % a[1], 'Pool = ' + p]
    return Model('Landscapes', 'Landscapes', c(q, pool), c(t, tpool), props, invs)


def hist(bundles, whats, hostile, depth, tdepth, tag, props='', invs=''):
    def c(d):
        return ['MaxOps = %d' % d, 'Bundles <- ' + bundles, 'Whats = ' + whats, 'Hostile = ' + hostile,
                'Objects = {"a", "b"}', 'Sizes <- S', 'Dump = TRUE']
    return Model('Histories', 'MCHist', c(depth), c(tdepth), props, invs, histories=tag)


def cli(invs, props=''):
    return Model('Cli', 'MCCli', ['Ranges <- R', 'Dump = TRUE'], ['Ranges <- RR', 'Dump = TRUE'],
                 props=('Ends ' + props).strip(), invs=invs + ' OutcomeReached DumpRuns', histories='Cli')


def space(faults, edits, invs, props):
    c = ['Inputs = {"a", "b"}', 'Outs = {"", "r"}', 'Opts = {1, 2}', 'Faults = ' + faults, 'Edits = ' + edits, 'Dump = TRUE']
    return Model('Workspace', 'Workspace', c + ['MaxOps = 4'], c + ['MaxOps = 5'], props, invs, histories='Workspace')


def proc(procs, live, cuts, opts, outs='{"", "r"}'):
    return ['Procs = {%s}' % ', '.join(str(i + 1) for i in range(procs)), 'MaxLive = %d' % live, 'MaxCuts = %d' % cuts,
            'Cuts = ' + ('{"kill", "full", "wall"}' if cuts else '{}'), 'Inputs = {"a", "b"}', 'Outs = ' + outs,
            'Opts = ' + opts, 'Dump = TRUE']


def procs(name, q, t, tag):
    return Model(name, 'Processes', q, t, 'Undisturbed Ends CutsHarmNobody',
                 'AsIfAlone OnlyOwn SaysSo Repeatable DumpHistories', histories=tag)


MODELS = {
    'C01': [land(invs='Distribution')],
    'C02': [land(invs='BoltzmannPairs', q=(3, 1), t=(4, 1))],
    'C03': [land(props='ZeroOfEnergy')],
    'C04': [land(invs='GroundOnly LimitAtZero')],
    'C05': [land(invs='HotLimit HotIsLimit Correspondence')],
    'C06': [land(props='Equivariant', invs='TwinsEqual')],
    'C07': [land(invs='ColumnsIndependent')],
    'C08': [land(props='Composition OrderIrrelevant', q=(2, 3)),
            hist('B8', '{"P", "C"}', 'FALSE', 3, 4, 'C08', invs='RegisteredIsAdded ReplyIsFunction')],
    'C09': [hist('B', '{"P", "C"}', 'TRUE', 4, 5, 'C09', invs='Ownership RegisteredIsAdded ReplyIsFunction',
                 props='QueriesPure Refines')],
    'C10': [hist('B10', '{"P"}', 'FALSE', 4, 5, 'C10', invs='NoneIffEmpty KindAgrees', props='Refines')],
    'C11': [land(invs='MeanIsMean')],
    'C12': [land(invs='ClassicalWeight', q=(3, 1), t=(4, 1))],
    'C13': [land(invs='OscillatorLevels', q=(2, 1), t=(3, 1))],
    'C14': [land(invs='RotorWeight', q=(3, 1), t=(4, 1))],
    'C15': [land(invs='FluctuationIsCurvature HeatCapacityNonNegative KernelIsThermo', q=(2, 2))],
    'C16': [land(invs='OwnDerivatives', q=(2, 1), t=(2, 2))],
    'C17': [Model('Loader', 'Loader', ['MaxFrames = 3', 'ModeCounts = {1, 2, 3, 9, 12}'],
                  ['MaxFrames = 5', 'ModeCounts = {1, 2, 3, 6, 9, 12}'],
                  props='Ends', invs='Aligned RowIsIsomer NothingLost NeverMixed')],
    'C18': [Model('Placements', 'Placements',
                  ['MaxAtoms = 4', 'Elements = {"A", "B"}', 'Xs = {0, 1}', 'Ys = {0, 1}', 'Zs = {0, 1}'],
                  ['MaxAtoms = 5', 'Elements = {"A", "B"}', 'Xs = {0, 1, 2}', 'Ys = {0, 1}', 'Zs = {0, 1}'],
                  props='PlacementFree', invs='CountIsCardinality GroupLaws OrbitsDivide LinearIffCollinear FlatMoment')],
    'C19': [cli('ConflictsRejected NothingForNothing SaysSo OneElectronic OneVibrational OptionsDecide')],
    'C20': [cli('TablesExactly GridLaws PathsDistinct')],
    'C21': [cli('PlotsExactly PlotShowsItsTable', 'PlotChangesNoTable')],
    'C22': [Model('Checkouts', 'Checkouts',
                  ['MaxOps = 6', 'MaxCommits = 4', 'Names = {"A", "B"}', 'Dump = TRUE'],
                  ['MaxOps = 7', 'MaxCommits = 5', 'Names = {"A", "B"}', 'Dump = TRUE'],
                  props='CommitCounts ModifyMarks RestoreUnmarks LitterIgnored TagWins MergeGrows',
                  invs='TypeOK Answers CleanTag ExactWins Untagged NothingBetween Identifies DumpHistories',
                  histories='Checkouts')],
    'C23': [land(props='RatiosKept', invs='SharesAddUp')],
    'C24': [land(invs='Conversions', q=(1, 1), t=(2, 1))],
    'C26': [land(invs='Factorises')],
    'C27': [land(invs='OnlyRatios')],
    'C28': [land(props='Upwards EnergyRises')],
    'C29': [Model('Schedules', 'MCSched',
                  ['Callers = {1, 2}', 'Programs <- PP', 'Shared <- Sh', 'Inner <- In', 'Composite = 9',
                   'MaxStops = 2', 'Dump = TRUE'],
                  ['Callers = {1, 2}', 'Programs <- PP', 'Shared <- Sh', 'Inner <- In', 'Composite = 9',
                   'MaxStops = 3', 'Dump = TRUE'],
                  props='Isolated AllEnd Refines', invs='AsIfAlone Bounded', histories='Schedules'),
            Model('Schedules (three callers)', 'MCSched',
                  ['Callers = {1, 2, 3}', 'Programs <- P3', 'Shared <- Sh', 'Inner <- In', 'Composite = 9',
                   'MaxStops = 1', 'Dump = TRUE'],
                  ['Callers = {1, 2, 3}', 'Programs <- P3', 'Shared <- Sh', 'Inner <- In', 'Composite = 9',
                   'MaxStops = 2', 'Dump = TRUE'],
                  props='Isolated AllEnd Refines', invs='AsIfAlone Bounded', histories='Three')],
    'C30': [Model('Representations', 'Representations',
                  ['Rows = 2', 'Cols = 3', 'Kinds = {"f8", "g", "i8", "i4", "u2"}', 'MaxMoves = 3', 'Dump = TRUE'],
                  ['Rows = 2', 'Cols = 3', 'Kinds = {"f8", "g", "i8", "i4", "u2", "u8", "i2"}', 'MaxMoves = 4', 'Dump = TRUE'],
                  props='FrozenStays QueryWritesNothing', invs='SameTable OwnAddresses InMemory ReadsTheTable',
                  histories='Views')],
    'C31': [space('{"f", "g"}', '{"edit"}', 'Refused RepairedWorks OfTheCurrent', 'NothingWritten InputsStay Elsewhere')],
    'C32': [space('{}', '{"edit", "quiet"}', 'OfTheCurrent Reproducible Distinct RepairedWorks', 'InputsStay Elsewhere')],
    'C33': [procs('Processes', proc(2, 2, 0, '{1, 2}'), proc(2, 2, 1, '{1, 2}'), 'Together')],
    'C34': [procs('Processes (two at a time)', proc(2, 2, 1, '{1}'), proc(2, 2, 2, '{1, 2}'), 'Cut'),
            procs('Processes (one after the other)', proc(3, 1, 2, '{1, 2}', '{""}'), proc(3, 1, 2, '{1, 2}'), 'Sequel')],
    'C25': [Model('Compare', 'MCCompare',
                  ['Keys = {"p", "q"}', 'Shapes <- S', 'Values = {0, 1}', 'Dump = TRUE'],
                  ['Keys = {"p", "q"}', 'Shapes <- SS', 'Values = {0, 1}', 'Dump = TRUE'],
                  props='Decides', invs='IsEquality AgreesWithSame Symmetric Reflexive MissingKey DumpPairs',
                  histories='Compare')],
}

FAIL = re.compile(r'<<\s*"FAIL",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>')


def parse_fails(out):
    return [(int(a), int(b), c) for a, b, c in FAIL.findall(out)]


def parse_histories(out):
    hs = []
    for ln in out.splitlines():
        if ln.startswith('"HIST '):
            hs.append(ln)
    hs = [json.loads(json.loads(ln)[5:]) for ln in sorted(set(hs))]
    hs.sort(key=lambda h: json.dumps(h, sort_keys=True))
    return hs


NUMERIC = ('T', 'v', 'b', 'E', 'g', 'nu', 'sym', 'mom', 'z', 'w', 'tol', 'arg', 'alpha', 'gamma', 'scale')


def _num(x):
    if isinstance(x, list):
        if x and all(isinstance(y, int) for y in x) and (len(x) > 1 or x[0] in (2, -2, 3)):
            try:
                return repr(fl(x)) if abs(fl(x)) in (float('inf'),) or fl(x) != fl(x) else fl(x)
            except Exception:
                return x
        return [_num(y) for y in x]
    return x


def readable(e):
    """an event with its BigFloat tuples as ordinary numbers"""
    if isinstance(e, dict):
        return {k: (_num(v) if k in NUMERIC and isinstance(v, list) else readable(v)) for k, v in e.items()}
    if isinstance(e, list):
        return [readable(x) for x in e]
    return e


def sample(s):
    out = {'note': s.get('note'), 'events': [readable(e) for e in s['ev'][:6]], 'of': len(s['ev'])}
    t = json.dumps(out)
    return out if len(t) < 6000 else {'note': s.get('note'), 'of': len(s['ev']), 'begins': t[:5000]}


def brief(s, ev):
    if not 0 < ev <= len(s['ev']):
        return ''
    t = json.dumps(readable(s['ev'][ev - 1]))
    return t[:600] + (' ...' if len(t) > 600 else '')

# texts for MANIFEST.json (tools/write_manifest.py)
REPLAYED = ('C08', 'C09', 'C10', 'C19', 'C20', 'C21', 'C22', 'C25', 'C29', 'C30', 'C31', 'C32', 'C33', 'C34')
TECHNIQUE = {p: 'TLA+ model checked with TLC; replay of TLC behaviours into the code and TLC trace validation' for p in REPLAYED}
HOW = {p: 'behaviours printed by TLC, with seeded inputs' for p in REPLAYED}
NOT_APPLICABLE = {}
