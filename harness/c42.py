"""The first recovery method: its passes and its register distance rule."""
from harness.fakes import fake_class

BOUNDS = ('an address with a candidate that reads no, one or two storages, and one that is undefined or reads nothing; up to 3 addresses before it (4 thorough) with or '
          'without gaps, up to 2 candidates each that write any of three storages or are undefined; every recorded minimum and maximum distance 0..3, or none; '
          '40 addresses with one writer (100 thorough); passes 1 and 2 (3 thorough) over programs of 3 addresses with up to 2 candidates of any of two conditions, '
          'opcodes and storages, flags and branches; real instructions')
OUTSIDE = 'larger programs; more passes'
ASSUMES = ['instruction fields are arbitrary (stand-in instructions, but for the real ones named)', 'the minimum distance does not exceed the maximum']
EPS = 1e-9


def configs(tier):
    from sx.driver import Cfg
    out = []
    q = tier == 'quick'

    def add(before, lay, **k):
        out.append(Cfg('distance', dict(before=before, lay=lay, **k), max_conc=100))
    for before, lay in ((['a'], [1]), (['aa'], [1]), (['a', 'a'], [1, 2]), (['au', 'a'], [1, 3]), (['a', 'aa'], [2, 3]), (['u', 'a', 'a'], [1, 2, 3])):
        add(before, lay)
    add(['a', 'a'], [1, 2], reads='two')
    add(['aa'], [1], reads='two')
    add(['aa', 'a'], [1, 2])
    add(['a'], [1], reads='none')
    add(['a', 'a'], [1, 2], known=False)
    add(['a'], [0], reads='one')
    out.append(Cfg('far', dict(n=40 if q else 100), max_conc=200))
    for kinds in (['mov_r', 'add_i'], ['ldr_i', 'mov_i', 'add_r'], ['pop2', 'mov_r']):
        out.append(Cfg('real', dict(kinds=kinds), max_conc=200))
    for shape, passes in ((['aa', 'a'], 1), (['aa', 'a'], 2), (['a', 'aa', 'a'], 2), (['aa', 'aa'], 2), (['au', 'aa'], 1), (['aa', 'a'], 3)) + (() if q else ((['aa', 'aa'], 3), (['aa', 'a', 'aa'], 2))):
        out.append(Cfg('passes', dict(shape=shape, passes=passes), max_conc=100))
    out.append(Cfg('needs', {}))
    if not q:
        add(['aa', 'aa'], [1, 2])
        add(['a', 'a', 'a'], [1, 2, 3], reads='two')
        add(['a', 'a', 'a', 'a'], [1, 2, 3, 4])
    return out


class Collector(object):
    def __init__(self, lo, hi):
        self.storage_min_dist, self.storage_max_dist, self.storage_mean_dist = dict(lo), dict(hi), {}
        self.condition_count, self.instruction_count, self.storage_count = {14: 9, 0: 3}, {0: 9, 1: 4}, dict([(r, 9) for r in range(19)])


def _score(h, me, program, lo, hi):
    """None without an address at a recorded distance."""
    spans = [(lo[r], hi[r]) for r in me.read if r in lo]
    if not spans:
        return None
    near, far = min([a for a, b in spans]), max([b for a, b in spans])
    seen = [a for a in program if near <= (me.address - a) // 4 - 1 <= far]
    if not seen:
        return None
    best = dict([(r, 0) for r in me.read])
    for a in seen:
        live = [i for i in program[a] if not i.ignore]
        for i in live:
            for r in me.read:
                if r in i.written:
                    best[r] = max(best[r], 1 / (len(i.written) * len(live)))
    return sum([best[r] for r in me.read]) / len(me.read)


def distance(h, before, lay, reads='one', known=True):
    from semantic_codec.metadata.probabilistic_rules.distance_rule import RegisterReadDistance
    F = fake_class()
    at = 96
    regs = {'one': [1], 'two': [1, 2], 'none': []}[reads]
    me, und, non = F(at, 1, read=regs, written=[3]), F(at, 2, read=regs, written=[3], undefined=True), F(at, 3, read=[], written=[1])
    program = {}
    for k, s in enumerate(before):
        a = at - 4 * lay[k]
        program[a] = []
        for j, c in enumerate(s):
            w = [r for r in (1, 2, 3) if (r == 1 or r == 2 and reads == 'two' or r == 3 and (reads != 'two' or j + k == 0)) and h.bool('w%d_%d_%d' % (k, j, r))]
            program[a].append(F(a, 10 * a + j, read=[9], written=w, undefined=c == 'u'))
    program[at] = program.get(at, []) + [me, und, non]
    lo, hi = {}, {}
    for r in (1, 2):
        if known and (r == 1 or reads == 'two' and (before != ['aa'] or h.bool('known'))):
            lo[r] = h.concrete(h.int('lo%d' % r, 0, 3))
            hi[r] = h.concrete(h.int('hi%d' % r, lo[r], 3))
    c = Collector(lo, hi)
    r = RegisterReadDistance(program, collector=c)
    changed = r.recover(at)
    h.check(changed == True, 'new scores are a change')
    want = _score(h, me, program, lo, hi)
    if want is None:
        h.check('REG_DIST1' not in me.scores_by_rule, 'no score without an address at a recorded distance')
    else:
        got = me.scores_by_rule['REG_DIST1']
        h.check(h.approx(got, want), 'the score is the best share of the writes at the recorded distances')
        h.check(h.all([got > 0, got <= 1]), 'the score is a probability and eliminates no candidate')
    h.check(und.scores_by_rule['REG_DIST1'] == 0, 'an undefined candidate scores zero')
    h.check('REG_DIST1' not in non.scores_by_rule, 'a candidate that reads nothing has no score')
    for a in program:
        for i in program[a]:
            h.check(len(i.scores_by_rule) <= (1 if a == at else 0), 'only the candidates of the address are scored')
    h.check(r.recover(at) == False, 'no change the second time')
    h.check(c.storage_min_dist == lo and c.storage_max_dist == hi, 'the metadata is not modified')
    for a in program:
        if a != at:
            program[a] = [F(a, 10 * a + 5, read=[9], written=[])]
    old = dict(me.scores_by_rule)
    changed = r.recover(at)
    h.check(changed == (me.scores_by_rule != old), 'a change is reported exactly when a score changed')


def far(h, n):
    from semantic_codec.metadata.probabilistic_rules.distance_rule import RegisterReadDistance
    F = fake_class()
    at = 64 + 4 * n
    d = h.concrete(h.pick('d', [0, 1, n // 2, n - 1]))
    lo = h.concrete(h.pick('lo', [0, 1, n // 2, n - 1]))
    hi = h.concrete(h.pick('hi', [0, 1, n // 2, n - 1, n + 9]))
    h.assume(lo <= hi)
    me = F(at, 1, read=[1], written=[3])
    share = h.concrete(h.int('share', 1, 3))
    program = {at: [me]}
    for k in range(n):
        a = at - 4 * (k + 1)
        program[a] = [F(a, 10 * a + j, read=[1], written=[1, 3] if k == d and j < share else [3]) for j in range(3)]
    RegisterReadDistance(program, collector=Collector({1: lo}, {1: hi})).recover(at)
    h.check(h.approx(me.scores_by_rule['REG_DIST1'], 1 / 6 if lo <= d <= hi else 0), 'the score is the best share of the writes at the recorded distances')


def real(h, kinds):
    """Real instructions, one per address, with the metadata of the program itself."""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.recuperator import Recuperator
    p, n = {}, len(kinds)
    for k, kind in enumerate(kinds):
        fix = dict(cond=14, imm=3)
        for f, lo in (('rd', 4), ('rn', 4), ('rm', 4), ('rt', 4), ('a', 4), ('b', 6)):
            fix[f] = h.concrete(h.int('%s%d' % (f, k), lo, lo + 1)) if (f in ('rd', 'a', 'rt') if k < n - 1 else f in ('rn', 'rm')) else lo
        t = h.template('t%d' % k, kind, 64 + 4 * k, **fix)
        p[64 + 4 * k] = [CAPSInstruction(t.enc, 64 + 4 * k)]
    c = MetadataCollector()
    c.collect([p[a][0] for a in sorted(p)])
    last = 60 + 4 * n
    p[last].append(CAPSInstruction(0xffffffff, last))
    me = p[last][0]
    writers = []
    for r in me.storages_read():
        w = [len(p[a][0].storages_written()) for a in sorted(p) if a < last and r in p[a][0].storages_written()]
        writers.append(w[-1] if w else 0)
    Recuperator(c, p).recover()
    for a in p:
        for i in p[a]:
            h.check((len(i.scores_by_rule) > 0) == (a == last), 'exactly the candidates of ambiguous addresses are scored')
    if any(writers):
        got = me.scores_by_rule['REG_DIST0']
        h.check(h.all([got > 0, got <= 1]), 'the score is a probability and eliminates no candidate')
        if all([w == 1 for w in writers]):
            h.check(h.approx(got, 1), 'the original program has its registers written at the recorded distances')
    h.check(p[last][1].scores_by_rule.get('REG_DIST0') == 0, 'an undefined candidate scores zero')


def passes(h, shape, passes):
    from semantic_codec.metadata.recuperator import Recuperator
    F = fake_class()
    program, keep = {}, {}
    for k, s in enumerate(shape):
        a = 64 + 4 * k
        program[a] = []
        for j, c in enumerate(s):
            n = '%d_%d' % (k, j)
            v = h.concrete(h.int('v' + n, 0, 3))
            program[a].append(F(a, 10 * a + j, cond=[14, 0, 14, 5][v], op=v & 1, read=[1] if v < 2 else [2], written=[1] if v & 1 else [2], undefined=c == 'u',
                                flags=h.bool('f' + n)))
        keep[a] = list(program[a])
    c = Collector({1: 0}, {1: 1})
    c.condition_count = {14: h.int('count', 1, 3), 0: 2}
    c.instruction_count = {0: 2, 1: 1}
    r = Recuperator(c, program)
    r.passes = passes
    r.recover()
    h.check(sorted(program) == sorted(keep) and all([len(program[a]) == len(keep[a]) and all([x is y for x, y in zip(program[a], keep[a])]) for a in keep]),
            'the candidates and their order are kept')
    for a in program:
        for i in program[a]:
            if len(program[a]) == 1:
                h.check(len(i.scores_by_rule) == 0 and not i.ignore, 'addresses with one candidate are left alone')
                continue
            if not i.und:
                for name in ('CFG', 'COND_COUNT', 'INST_COUNT', 'REG_COUNT'):
                    h.check(name + '0' in i.scores_by_rule, 'every rule scores every candidate')
            names = [n + str(p) for n in ('CFG', 'COND_COUNT', 'INST_COUNT', 'REG_COUNT', 'REG_DIST') for p in range(passes)]
            h.check(all([n in names for n in i.scores_by_rule]), 'one score per rule and pass')
            bad = h.any([v <= 0 for v in i.scores_by_rule.values()])
            if passes == 1:
                h.check(i.ignore == i.und, 'one pass discards nothing')
            else:
                h.check(h.iff(i.ignore, h.any([i.und, bad])), 'several passes discard exactly the candidates that some rule scored zero or less')
                if not i.ignore:
                    for p in range(passes):
                        h.check(all([n + str(p) in i.scores_by_rule for n in ('CFG', 'COND_COUNT', 'INST_COUNT', 'REG_COUNT')]), 'one score per rule and pass')


def needs(h):
    from semantic_codec.metadata.probabilistic_rules.distance_rule import RegisterReadDistance
    try:
        RegisterReadDistance({h.int('a', 0, 9): []})
        h.check(False, 'the distance rule without metadata is refused')
    except RuntimeError:
        h.check(True, 'refused')
