"""Push and pop candidates are scored by their counterparts in the same function."""
from harness.fakes import fake_class, model

BOUNDS = ('programs of 1..4 addresses (13 and 22 in few arrangements) with up to 3 candidates (or 13) each (pushes, pops, branches, others, undefined ones) with or without gaps; '
          'register lists: any subset of R4, R5 and LR or PC; functions covering the program, starting later, ending earlier, or unknown')
OUTSIDE = 'larger programs'
ASSUMES = ['instruction fields are arbitrary (stand-in instructions); a push reads its list and SP, a pop writes its list and SP',
           'the probabilities are those of the default model, or of one other model with all of them changed']
LINE, GAP, HOLE = [64 + 4 * k for k in range(24)], [64, 72, 76, 84], [64, 68, 76, 80]
WHOLE, LATE, EARLY, TWO, NONE = [(0, -1)], [(1, -1)], [(0, -2)], [(0, 1), (2, -1)], []


def configs(tier):
    from sx.driver import Cfg
    out = []

    def add(shape, lay=LINE, fns=WHOLE, **k):
        out.append(Cfg('pairs', dict(shape=shape, lay=lay[:len(shape)], fns=fns, **k)))
    q = tier == 'quick'
    for regs in (['pa', 'ao'], ['p', 'o'], ['pp', 'oa'], ['pa', 'oo'], ['pP', 'oO']):
        add(regs, regs=3)
    add(['pa', 'a', 'oa'], regs=2, lay=GAP)
    add(['pau', 'ou'], regs=2)
    for kinds in (['push2', 'pop2'], ['push2', 'mov_r', 'pop2'], ['push2', 'pop2', 'b'], ['push2', 'pop2', 'bx', 'mov_i']):
        out.append(Cfg('real', dict(kinds=kinds), max_conc=200))
    # Pops in the middle, before and after branches
    for mid in (['o', 'b'], ['ob', 'ab'], ['b', 'o'], ['oa', 'ba'], ['O', 'b'], ['o', 'B'], ['ab', 'ob']):
        for lay in (LINE, HOLE, GAP):
            add(['pa'] + mid + ['a'], lay=lay, regs=0)
    add(['pa', 'a', 'ob', 'ab'], regs=1)
    add(['pa', 'a', 'ob', 'ab'], regs=1, other=True)
    add(['pa', 'ob', 'bo', 'oa'], regs=0, other=True)
    # Pops that write the program counter are branches as well; pops that write the link register
    for mid in (['x', 'b'], ['o', 'x'], ['x', 'x'], ['xa', 'bx'], ['X', 'x']):
        add(['pa'] + mid + ['a'], regs=0)
    add(['pa', 'x', 'a', 'x'], regs=1)
    add(['pa', 'ao'], regs=3, link=True)
    add(['pp', 'ox'], regs=2, link=True)
    add(['pauu', 'aoa'], regs=2, other=True)
    add(['pa', 'ob', 'b'], regs=1)
    add(['pbo', 'b', 'a'], regs=1)
    for fns in (WHOLE, LATE, EARLY, TWO, NONE):
        add(['pa', 'pao', 'oa', 'o'], fns=fns, regs=0 if q else 1)
        add(['op', 'ap', 'po', 'oa'], fns=fns, regs=0 if q else 1)
        add(['a', 'pa', 'bo', 'b'], fns=fns, regs=0 if q else 1)
    long = ['pa', 'a', 'a', 'oa', 'b', 'aa', 'a', 'a', 'ao', 'a', 'a', 'a', 'bao']
    for fns in (WHOLE, LATE, EARLY, TWO):
        add(long, fns=fns, regs=0)
    add(long, fns=[(0, 5), (6, -1)], regs=1)
    add(['pa'] + ['a'] * 20 + ['oa'], regs=1)
    add(['ap' + 'a' * 10] + ['a'] * 2 + ['a' * 12 + 'o'], regs=1)
    add(['pao'], regs=1)
    add(['Pa', 'ao'], regs=1)
    add(['pa', 'Oa'], regs=1)
    if not q:
        for lay in (LINE, HOLE, GAP):
            add(['ppa', 'a', 'oo'], regs=2, lay=lay)
            add(['pa', 'ob', 'bo', 'oa'], regs=1, lay=lay)
            add(['pa', 'oab', 'boa', 'ab'], regs=1, lay=lay)
        add(['pp', 'oo'], regs=3)
    return out


def real(h, kinds):
    """Real pushes, pops and branches, one per address, with any two registers each."""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    m, t, p = model(), [], {}
    for k, kind in enumerate(kinds):
        fix = dict(cond=14)
        if kind in ('push2', 'pop2'):
            a = h.pick('a%d' % k, [4, 5])
            b = h.pick('b%d' % k, [6, 14] if kind == 'push2' else [6, 15])
            fix.update(a=h.concrete(a), b=h.concrete(b))
        else:
            fix.update(rd=1, rm=2, imm=3)
        t.append(h.template('t%d' % k, kind, 64 + 4 * k, **fix))
        p[64 + 4 * k] = [CAPSInstruction(t[k].enc, 64 + 4 * k)]
    last = 60 + 4 * len(kinds)
    c = MetadataCollector()
    c.collect([p[a][0] for a in sorted(p)])
    ProbabilisticRecuperator(c, p, functions={64: (64, last)}).recover()
    push = p[64][0].scores_by_rule['pupo']
    for k, kind in enumerate(kinds):
        if kind == 'pop2':
            same = t[k].f['a'] == t[0].f['a'] and (t[k].f['b'], t[0].f['b']) in ((6, 6), (15, 14))
            # each address has one candidate, therefore without a better rule the score is one
            want = m.push_given_pop_at_fn_end_equal_registers if same else 1
            h.check(h.approx(p[64 + 4 * k][0].scores_by_rule['pupo'], want), 'a real pop is scored by the push of its function')
            if k == len(kinds) - 1:
                h.check(h.approx(push, want), 'a real push is scored by the pop at the end of its function')
    if kinds[-1] != 'pop2':
        h.check(push == 1, 'a real push without pops at the end is the only candidate')


def pairs(h, shape, lay, fns, regs, other=False, link=False):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    F, m = fake_class(), model(other)
    program, allof = {}, []
    for k, s in enumerate(shape):
        a = lay[k]
        program[a] = []
        for j, c in enumerate(s):
            kind = c.lower()
            lst = []
            pc = kind == 'x'
            kind = 'o' if pc else kind
            if kind in 'po':
                dom = [4, 5, 14 if kind == 'p' or link else 15]
                lst = [r for n, r in enumerate(dom) if (h.bool('r%d_%d_%d' % (k, j, r)) if n < regs or n == 2 and regs == 2 else n == 0)]
            i = F(a, 100 * k + j, op={'p': 41, 'o': 42, 'b': 43}.get(kind, 44), undefined=c.isupper() or c == 'u',
                  pushpop={'p': 'push', 'o': 'pop'}.get(kind), branch=kind == 'b' or pc, target=64,
                  read={'p': [13] + lst, 'o': [13]}.get(kind, [1]), written={'p': [], 'o': lst + [13]}.get(kind, [2]))
            i.list, i.kind = lst, kind + 'b' if pc else kind
            program[a].append(i)
            allof.append(i)
    ranges = dict([(lay[x], (lay[x], lay[y])) for x, y in fns if x < len(lay) and -y <= len(lay)])
    c = MetadataCollector()
    c.collect([program[a][0] for a in lay])
    ProbabilisticRecuperator(c, program, model=m, functions=ranges).recover()

    def valid(a, kind):
        return [i for i in program.get(a, []) if kind in i.kind and not i.is_undefined]

    def equal(push, pop):
        return all([r in push.list or r == 15 for r in pop.list]) and all([r in pop.list or r == 14 for r in push.list])
    for i in allof:
        if i.is_undefined:
            continue
        if i.kind[0] not in 'po':
            h.check('pupo' not in i.scores_by_rule, 'other instructions have no score for pushes and pops')
            continue
        a, same, other, middle = i.address, False, False, False
        if i.kind == 'p':
            if a in ranges:
                last = ranges[a][1]
                other = len(valid(last, 'o')) > 0
                same = any([equal(i, o) for o in valid(last, 'o')])
                middle = any([len(valid(x, 'o')) > 0 and x + 4 <= last and len(valid(x + 4, 'b')) > 0 for x in lay if a < x <= last])
        else:
            own = [f for f in sorted(ranges) if f <= a]
            start = own[-1] if own else lay[0]
            other = len(valid(start, 'p')) > 0
            same = any([equal(p, i) for p in valid(start, 'p')])
        n = len([x for x in program[a] if not x.is_undefined])
        want = m.push_given_pop_at_fn_end_equal_registers if same else 1 / n
        if other:
            want = max(want, m.push_given_pop_at_fn_end)
        if middle:
            want = max(want, m.push_given_pop_at_fn_middle)
        h.check(h.approx(i.scores_by_rule['pupo'], want), 'a push or pop is scored by its counterparts in the function')
