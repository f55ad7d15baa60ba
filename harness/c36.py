"""Candidates are scored by whether the storages they read were written at a recorded distance."""
from harness.fakes import fake_class, model

BOUNDS = ('programs of up to 4 addresses (5 thorough) with or without gaps and up to 2 candidates each (one address with 3), any of which may write the storage; '
          '24 and 80 addresses (150 thorough) with one that may write it, and any recorded distances; every recorded minimum and maximum distance 0..3, or none; functions unknown, or starting at it or at the address before; reading no, one or two storages; five sequences of real instructions; undefined candidates')
OUTSIDE = 'larger programs; how several storages are combined, beyond the limits stated'
ASSUMES = ['instruction fields are arbitrary (stand-in instructions)', 'the probabilities are those of the default model, or of one other model with all of them changed',
           'the minimum distance does not exceed the maximum']


FIELDS = {'mov_r': ['rd'], 'mov_i': ['rd'], 'add_i': ['rd', 'rn'], 'add_r': ['rd', 'rn', 'rm'], 'ldr_i': ['rt', 'rn'], 'str_i': ['rt', 'rn'],
          'strb_i': ['rt', 'rn'], 'pop2': ['b'], 'mvn_r': ['rd', 'rm']}


class Metadata(object):
    pass


def configs(tier):
    from sx.driver import Cfg
    out = []
    q = tier == 'quick'

    def add(before, lay, **k):
        out.append(Cfg('distance', dict(before=before, lay=lay, **k), max_conc=100))
    add(['a', 'a'], [1, 2], known=False)
    add(['aa', 'aa'], [1, 2])
    add(['aa', 'aa', 'a'], [1, 2, 3])
    add(['au', 'ua', 'u'], [1, 2, 3])
    add(['aa', 'a', 'a'], [1, 3, 4])
    add(['a', 'a'], [2, 5])
    add(['aaa'], [1])
    add(['aa', 'a'], [1, 3], other=True)
    add(['a', 'aa'], [1, 2], reads='two', other=True)
    add(['aa'], [2], known=False)
    add(['aa', 'aa'], [1, 2], reads='none')
    add(['a', 'aa'], [1, 2], reads='two')
    add(['a', 'a', 'a'], [1, 2, 3], reads='two')
    for own in (0, 1):
        add(['aa', 'a'], [1, 2], own=own)
    for kind in ('branch', 'push'):
        add(['a', 'a'], [1, 2], kind=kind)
    for kinds in (['mov_r', 'add_i'], ['ldr_i', 'mov_i', 'add_r'], ['mov_i', 'str_i', 'ldr_i'], ['mov_r', 'strb_i'], ['pop2', 'mvn_r']):
        out.append(Cfg('real', dict(kinds=kinds), max_conc=200))
    for d in (1, 9, 20) if q else (1, 5, 9, 20, 60):
        out.append(Cfg('far', dict(d=d, n=24 if q else 80), max_conc=200))
    for d in (75,) if q else (75, 140):
        out.append(Cfg('far', dict(d=d, n=80 if q else 150, few=True), max_conc=200))
    if not q:
        add(['aa', 'aa', 'aa'], [1, 2, 3])
        add(['aa', 'a', 'a', 'aa'], [1, 2, 3, 4])
        add(['aaa', 'aua'], [1, 2])
        add(['aa', 'aa'], [1, 2], reads='two')
    return out


def far(h, d, n, few=False, other=False):
    """The storage is written far away, or not within the recorded distances."""
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    F, m = fake_class(), model(other)
    at = 64 + 4 * n
    me = F(at, 5, read=[1], written=[9])
    program = {at: [me]}
    share = h.concrete(h.int('share', 0, 3)) if not few else 2
    for k in range(1, n + 1):
        a = at - 4 * k
        program[a] = [F(a, 10 * a + j, read=[9], written=[1, 8] if k == d and j < share else [8]) for j in range(4)]
    md = Metadata()
    md.condition_count, md.instruction_count, md.storage_count = {14: 9}, {0: 9}, dict([(r, 9) for r in range(19)])
    lo = h.concrete(h.int('lo', 0, n - 1)) if not few else h.pick('lo', [0, d - 2, d - 1, d])
    hi = h.concrete(h.pick('hi', sorted(set([0, 1, d - 1, d, n - 1, n + 40]))))
    h.assume(lo <= hi)
    md.storage_min_dist, md.storage_max_dist, md.storage_mean_dist = {1: lo}, {1: hi}, {}
    ProbabilisticRecuperator(md, program, model=m, functions={}).recover()
    want = share / 4 if lo <= d - 1 <= hi and share else m.low_probability
    h.check(h.approx(me.scores_by_rule['prd'], want), 'the score is the probability that the storage was written within the distance')


def real(h, kinds):
    """Real instructions, one per address: the storage read was written by the previous address, or not."""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    m, t, p = model(), [], {}
    for k, kind in enumerate(kinds):
        fix = dict(cond=14, imm=3)
        for f in ('rd', 'rn', 'rm', 'rt', 'a', 'b'):
            lo = {'rd': 4, 'rt': 4, 'b': 6}.get(f, 5)
            fix[f] = h.concrete(h.int('%s%d' % (f, k), lo, lo + 1)) if k >= len(kinds) - 2 and f in FIELDS[kind] else lo
        t.append(h.template('t%d' % k, kind, 64 + 4 * k, **fix))
        p[64 + 4 * k] = [CAPSInstruction(t[k].enc, 64 + 4 * k)]
    md = Metadata()
    md.condition_count, md.instruction_count = {14: 9}, dict([(x.id, 9) for x in t])
    md.storage_count = dict([(r, 9) for r in range(19)])
    md.storage_min_dist, md.storage_max_dist, md.storage_mean_dist = {}, {}, {}
    ProbabilisticRecuperator(md, p, functions={}).recover()

    def operands(x):
        out = []
        for o in x.ops:
            out += [o[1]] if o[0] == 'r' else [o[1]] if o[0] == 'm' else []
            if o[0] == 'm' and o[2] is not None:
                out.append(o[2])
        return out
    x, y = t[-2], t[-1]
    written = operands(x) + [13] if kinds[-2] == 'pop2' else operands(x)[:1]
    if kinds[-2].startswith('str'):
        written = written + [16]
    read = [r for r in operands(y)[1:] if r != operands(y)[0]]
    if kinds[-1].startswith('ldr'):
        read = read + [16]
    hit = [r in written for r in read]
    got = p[60 + 4 * len(kinds)][0].scores_by_rule['prd']
    if not any(hit):
        h.check(h.approx(got, m.low_probability), 'a real instruction that reads nothing the previous one writes')
    elif all(hit):
        h.check(h.approx(got, 1), 'a real instruction that reads what the previous one writes')
    else:
        h.check(h.any([h.approx(got, 1), h.approx(got, m.low_probability)]), 'a real instruction that reads two storages')


def distance(h, before, lay, known=True, reads='one', kind='plain', other=False, own=None):
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    F, m = fake_class(), model(other)
    at = 96
    regs = {'one': [1], 'two': [1, 2], 'none': []}[reads]
    me = F(at, 5, read=regs, written=[7], branch=kind == 'branch', target=96, pushpop='push' if kind == 'push' else None)
    program = {at: [me, F(at, 6, read=[1], written=[1], undefined=True)]}
    for k, s in enumerate(before):
        a = at - 4 * lay[k]
        program[a] = []
        for j, c in enumerate(s):
            w = [r for r in (regs or [1]) if h.bool('w%d_%d_%d' % (k, j, r))]
            program[a].append(F(a, 10 * a + j, read=[9], written=w + [8], undefined=c == 'u'))
    md = Metadata()
    md.condition_count, md.instruction_count, md.storage_count = {14: 9}, {0: 9}, dict([(r, 9) for r in range(19)])
    md.storage_min_dist, md.storage_max_dist, md.storage_mean_dist = {}, {}, {}
    span = {}
    for r in (1, 2):
        if known and (r == 1 or reads == 'two'):
            lo = h.concrete(h.int('lo%d' % r, 0, 3))
            hi = h.concrete(h.int('hi%d' % r, lo, 3))
            md.storage_min_dist[r], md.storage_max_dist[r] = lo, hi
            span[r] = (lo, hi)
        else:
            span[r] = (0, 0)
    # A function that starts here, or in one of the addresses before
    ranges = {} if own is None else {64: (64, 92 - 4 * own), 96 - 4 * own: (96 - 4 * own, 96)}
    ProbabilisticRecuperator(md, program, model=m, functions=ranges).recover()
    if kind != 'plain':
        h.check('prd' not in me.scores_by_rule, 'branches, pushes and pops have no such score')
        return
    got = me.scores_by_rule['prd']
    probs = []
    for r in regs:
        none = 1
        for d in lay:
            lo, hi = span[r]
            if lo <= d - 1 <= hi:
                c = [i for i in program[at - 4 * d] if not i.und]
                if c:
                    none = none * (1 - len([i for i in c if r in i.written]) / len(c))
        probs.append(1 - none)
    h.check(h.all([got >= 0, got <= 1]), 'the score is a probability')
    h.check(got > 0, 'the score eliminates no candidate')
    best = max(probs + [0])
    if best == 0:
        h.check(h.approx(got, m.low_probability), 'a low score when nothing writes the storages within the distance')
    elif len(probs) == 1:
        h.check(h.approx(got, best), 'the score is the probability that the storage was written within the distance')
    else:
        h.check(h.any([h.approx(got, best), h.approx(got, m.low_probability)]), 'the score is at most that of the best storage')
        if min(probs) > 0:
            h.check(h.approx(got, best), 'the score is that of the best storage when all may have been written')
