"""ControlFlowBehavior and the counting rules."""
BOUNDS = ('an address with up to 2 candidates and its neighbours with up to 2 each (3 thorough), with gaps; conditions among 4 including '
          'always and the first, any flags, any branch target; for the counts up to 3 addresses and 5 candidates with values among 3 and '
          'any positive metadata counts up to 1000; registers among 3; undefined and discarded candidates anywhere; passes 0..2; programs of 12 '
          'addresses with 20 candidates of which two vary (40 and 60 thorough); neighbours with 12 candidates')
OUTSIDE = 'larger programs; programs modified between two uses of one counting rule'
ASSUMES = ['the fields of a candidate are arbitrary (stand-in instructions)']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []
    for prev, here, post in ((2, 1, 1), (1, 1, 2), (2, 1, None), (None, 2, 1), (None, 1, None), (0, 1, 1)) + (
            () if q else ((2, 1, 2), (2, 2, 1), (3, 1, None))):
        out.append(Cfg('flow', dict(prev=prev, here=here, post=post), max_conc=100))
    out.append(Cfg('target', {}))
    for rule in ('cond', 'inst', 'reg'):
        for shape in ([2, 1], [2, 2], [1, 1, 1], [1]) + (() if q else ([2, 2, 1], [3, 1, 1])):
            if rule == 'reg' and sum(shape) > 3 and q:
                continue
            out.append(Cfg('counts', dict(rule=rule, shape=shape), max_conc=100))
    for rule in ('cond', 'inst', 'reg'):
        out.append(Cfg('crowd', dict(rule=rule, n=12 if q else 40, m=20 if q else 60), max_conc=100))
    out.append(Cfg('many', dict(n=12), max_conc=100))
    out.append(Cfg('passes', {}))
    out.append(Cfg('needs', {}))
    return out


def _cands(h, name, n, addr, **kw):
    from harness.fakes import fake_class
    F = fake_class()
    v = []
    for k in range(n):
        u = h.int('u%s%d' % (name, k), 0, 2)
        i = F(addr, addr * 100 + k, undefined=u == 1, **{f: g('%s%d' % (name, k)) for f, g in kw.items()})
        i.ignore = u == 2
        v.append(i)
    return v


def flow(h, prev, here, post):
    from semantic_codec.metadata.probabilistic_rules.rules import ControlFlowBehavior
    from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
    m = DefaultProbabilisticModel()
    program = {}

    def cond(n):
        return [14, 0, 15, 3][h.int('c' + n, 0, 3 if prev == 2 and post is None else 2)]
    for name, n, a in (('p', prev, 60), ('h', here, 64), ('n', post, 68)):
        if n is not None:
            program[a] = _cands(h, name, n, a, cond=cond, flags=lambda x: name == 'p' and bool(h.bool('f' + x)))
    r = ControlFlowBehavior(program)
    changed = r.recover(64)
    h.check(changed == (here > 0), 'new scores are a change')
    live = {a: [i for i in v if not i.ignore] for a, v in program.items()}
    for i in program[64]:
        want = 0
        if not i.ignore:
            p, n = live.get(60, []), live.get(68, [])
            if p:
                want += m.both_conditionals_are_equals * len([x for x in p if x.cond == i.cond]) / len(p)
                if i.cond == 14:
                    want -= m.branch_after_cpsr * len([x for x in p if x.flags]) / len(p)
            if n:
                want += m.both_conditionals_are_equals * len([x for x in n if x.cond == i.cond]) / len(n)
        h.check(h.approx(i.scores_by_rule['CFG1'], want), 'control-flow score')
        h.check(len(i.scores_by_rule) == 1, 'one score per rule')
    for a in (60, 68):
        for i in program.get(a, []):
            h.check(len(i.scores_by_rule) == 0, 'only the candidates of the address are scored')
    h.check(r.recover(64) == False, 'no change the second time')
    if prev:
        program[60] = []
        before = [i.scores_by_rule['CFG1'] for i in program[64]]
        changed = r.recover(64)
        after = [i.scores_by_rule['CFG1'] for i in program[64]]
        h.check(changed == any([x != y for x, y in zip(before, after)]), 'a change is reported exactly when a score changed')


def target(h):
    """A branch into the program scores a bit more."""
    from semantic_codec.metadata.probabilistic_rules.rules import ControlFlowBehavior
    from harness.fakes import fake_class
    F = fake_class()
    a = 4 * h.int('a', 0, 100)
    h.assume(h.all([a != 64, a != 60, a != 68]))
    t = h.int('t', 0, 0xffffffff)
    b, c, d = F(64, 1, branch=True, target=t), F(64, 2), F(64, 3, branch=True)
    program = {64: [b, c, d], a: [F(a, 4)]}
    ControlFlowBehavior(program).recover(64)
    sb, sc, sd = [i.scores_by_rule['CFG1'] for i in (b, c, d)]
    h.check(sc == sd, 'an unknown target is not rewarded')
    h.check(h.iff(sb > sc, h.any([t == 64, t == a])), 'a branch is rewarded exactly when its target is in the program')
    h.check(h.any([sb > sc, sb == sc]), 'never punished')


class Collector(object):
    pass


def _rule(rule):
    from semantic_codec.metadata.probabilistic_rules import counting_rules as cr
    return {'cond': cr.ConditionalCount, 'inst': cr.InstructionCount, 'reg': cr.RegisterCount}[rule]


def counts(h, rule, shape):
    R = _rule(rule)
    vals = [14, 0, 5] if rule != 'reg' else [0, 13, 17]
    program = {}
    for a, n in enumerate(shape):
        if rule == 'reg':
            kw = dict(read=lambda x: [s for s in vals[:2] if h.bool('r%s_%d' % (x, s))] + [16])
        else:
            kw = {rule.replace('inst', 'op'): lambda x: vals[h.int('v' + x, 0, 2)]}
        program[4 * a] = _cands(h, str(a), n, 4 * a, **kw)
    cnt = {v: h.int('count%d' % v, 1, 1000) for v in vals[:2]}
    c = Collector()
    c.condition_count = dict(cnt) if rule == 'cond' else {}
    c.instruction_count = dict(cnt) if rule == 'inst' else {}
    c.storage_count = dict(cnt) if rule == 'reg' else {}
    r = R(program, collector=c)

    def fields(i):
        return {'cond': [i.cond], 'inst': [i.op], 'reg': [x for x in i.read if x != 16]}[rule]
    live = [[i for i in v if not i.ignore] for v in program.values()]
    sure = [v[0] for v in live if len(v) == 1]
    unsure = [i for v in live if len(v) > 1 for i in v]
    key = R.short_name() + '1'
    for a in range(len(shape)):
        changed = r.recover(4 * a)
        h.check(changed == (len(live[a]) > 0), 'new scores are a change')
        for i in program[4 * a]:
            if i.ignore:
                h.check(len(i.scores_by_rule) == 0, 'candidates that do not count get no score')
                continue
            want = 0
            for v in fields(i):
                n = len([x for x in unsure if v in fields(x)])
                if v in cnt and n > 0:
                    want = want + (cnt[v] - len([x for x in sure if v in fields(x)])) / n / len(fields(i))
            h.check(h.approx(i.scores_by_rule[key], want), 'remaining count over number of candidates')
    for a in range(len(shape)):
        h.check(r.recover(4 * a) == False, 'no change the second time')
    for d in (c.condition_count, c.instruction_count, c.storage_count):
        if d:
            for v in cnt:
                h.check(d[v] == cnt[v], 'the metadata is not modified')


def crowd(h, rule, n, m):
    """A longer program: n certain addresses and one with m candidates, where two candidates vary."""
    from harness.fakes import fake_class
    F = fake_class()
    R = _rule(rule)
    kind = {'cond': 'cond', 'inst': 'op', 'reg': 'read'}[rule]
    vals = [14, 0, 5] if rule != 'reg' else [0, 13, 17]

    def make(a, e, v):
        return F(a, e, **{kind: [v] if rule == 'reg' else v})
    program = {4 * k: [make(4 * k, k, vals[k % 2])] for k in range(n)}
    last = 4 * n + 64
    free = [vals[h.concrete(h.int('v%d' % j, 0, 2))] for j in (0, 1)]
    program[last] = [make(last, 1000 + j, vals[j % 2] if j not in (0, m - 1) else free[j > 0]) for j in range(m)]
    cnt = {v: h.int('count%d' % v, 1, 1000) for v in vals[:2]}
    c = Collector()
    c.condition_count = dict(cnt) if rule == 'cond' else {}
    c.instruction_count = dict(cnt) if rule == 'inst' else {}
    c.storage_count = dict(cnt) if rule == 'reg' else {}
    r = R(program, collector=c)
    h.check(r.recover(last) == True, 'new scores are a change')
    key = R.short_name() + '1'

    def val(i):
        return i.read[0] if rule == 'reg' else i.cond if rule == 'cond' else i.op
    for j, i in enumerate(program[last]):
        v = val(i)
        same = len([x for x in program[last] if val(x) == v])
        sure = len([k for k in range(n) if vals[k % 2] == v])
        want = (cnt[v] - sure) / same if v in cnt else 0
        h.check(h.approx(i.scores_by_rule[key], want), 'remaining count over number of candidates')


def many(h, n):
    """Neighbours with many candidates, where one varies."""
    from semantic_codec.metadata.probabilistic_rules.rules import ControlFlowBehavior
    from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
    from harness.fakes import fake_class
    F = fake_class()
    m = DefaultProbabilisticModel()
    p, q = h.concrete(h.int('p', 0, n - 1)), h.concrete(h.int('q', 0, 1))
    prev = [F(60, k, cond=0 if k % 4 == 1 or (k == p) else 14, flags=k == p or k % 3 == 0) for k in range(n)]
    post = [F(68, 100 + k, cond=14 if k % 2 else 0) for k in range(n + q)]
    here = [F(64, 200, cond=14), F(64, 201, cond=0)]
    ControlFlowBehavior({60: prev, 64: here, 68: post}).recover(64)
    for i in here:
        want = m.both_conditionals_are_equals * len([x for x in prev if x.cond == i.cond]) / n
        want += m.both_conditionals_are_equals * len([x for x in post if x.cond == i.cond]) / (n + q)
        if i.cond == 14:
            want -= m.branch_after_cpsr * len([x for x in prev if x.flags]) / n
        h.check(h.approx(i.scores_by_rule['CFG1'], want), 'control-flow score')


def passes(h):
    """Each pass and each rule stores its own score."""
    from semantic_codec.metadata.probabilistic_rules.rules import ControlFlowBehavior
    c = Collector()
    n = h.int('n', 1, 100)
    c.condition_count = {14: n}
    c.instruction_count = {0: n + 1}
    c.storage_count = {3: n + 2}
    from harness.fakes import fake_class
    F = fake_class()
    program = {0: [F(0, 1, read=[3]), F(0, 2, branch=True, read=[3])]}
    p = h.pick('pass', [0, 1, 2, 3])
    want = {}
    for name, R in (('c', ControlFlowBehavior), ('n', _rule('cond')), ('i', _rule('inst')), ('r', _rule('reg'))):
        for k in (p, 4):
            r = R(program, collector=c) if name != 'c' else R(program)
            r.current_pass = k
            r.recover(0)
            r.recover(0)
    a, b = [i.scores_by_rule for i in program[0]]
    h.check(len(a) == 8 and len(b) == 8, 'one score per rule and pass')
    for s, x in (('COND_COUNT', n), ('INST_COUNT', n + 1), ('REG_COUNT', n + 2)):
        h.check(h.approx(a[s + '4'], x / 2), 'score of the last pass')
        h.check(h.approx(b[s + str(p)], x / 2, 1e-5), 'score of the first pass')
    h.check(b['REG_COUNT4'] > a['REG_COUNT4'], 'a branch using the same registers scores more')


def needs(h):
    for rule in ('cond', 'inst', 'reg'):
        try:
            _rule(rule)({h.int('a', 0, 9): []})
            h.check(False, 'a counting rule without metadata is refused')
        except RuntimeError:
            h.check(True, 'refused')
