"""Candidates are scored by the conditions and the flags of the instructions around them."""
from harness.fakes import fake_class, model

BOUNDS = ('one address with a candidate of any condition, up to 2 candidates before it and up to 2 after it (4 and 3 thorough) with any conditions among 3, '
          'each writing the flags or not, undefined candidates among them; real comparisons, moves, additions, loads, stores and branches; the address before or after missing, a gap, or another function; 16 candidates (40 thorough) before and after, of which one varies')
OUTSIDE = 'more neighbours'
ASSUMES = ['instruction fields are arbitrary (stand-in instructions, but for the real ones named)', 'the probabilities are those of the default model, or of one other model with all of them changed']


def configs(tier):
    from sx.driver import Cfg
    out = []
    q = tier == 'quick'

    def add(prev, post, **k):
        out.append(Cfg('around', dict(prev=prev, post=post, **k)))
    for prev in ('', 'a', 'au'):
        for post in ('', 'a', 'aa', 'ua'):
            add(prev, post)
    for post in ('', 'a', 'ua'):
        add('aa', post)
    add('aa', 'a', gap='prev')
    add('a', 'aa', gap='post')
    out.append(Cfg('real', dict(prev=[['cmp_r', 0], ['mov_i', 0]], me=['mov_r', 0], post=[['mov_r', 0]])))
    out.append(Cfg('real', dict(prev=[['add_r', 1], ['str_i', 0]], me=['ldr_i', 0], post=[['b', 0]])))
    add('u', 'u')
    for k in (0, 5, 11):
        out.append(Cfg('crowd', dict(n=16 if q else 40, k=k)))
    add('uu', 'a')
    for prev, post in (('a', 'aa'), ('aa', 'a'), ('aa', 'aa'), ('au', 'ua')):
        add(prev, post, other=True)
    out.append(Cfg('crowd', dict(n=12 if q else 40, k=3, other=True)))
    for own in ('start', 'end'):
        for prev, post in (('a', 'a'), ('au', 'a'), ('a', 'ua')):
            add(prev, post, own=own)
    if not q:
        for prev in ('aa', 'aau', 'aaa'):
            for post in ('a', 'aa', 'aau', 'aaa'):
                add(prev, post)
        add('aaaa', 'a')
    return out


def around(h, prev, post, gap=None, other=False, own=None):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    F, m = fake_class(), model(other)
    program = {}

    def cands(name, a, s):
        out = []
        for k, c in enumerate(s):
            flags = h.bool('f%s%d' % (name, k))
            out.append(F(a, 10 * a + k, cond=h.pick('c%s%d' % (name, k), [14, 0, 3]), read=[1], written=[17] if flags else [2],
                         undefined=c == 'u', flags=flags))
        return out
    at = 64 if not prev else 68
    if prev:
        program[64] = cands('p', 64, prev)
    if gap == 'prev':
        at = 72
    me = F(at, 5, cond=h.pick('cond', [14, 0, 3]), read=[1], written=[2])
    program[at] = [me, F(at, 6, cond=1, read=[1], written=[2], undefined=True)]
    if post:
        b = at + (8 if gap == 'post' else 4)
        program[b] = cands('n', b, post)
    c = MetadataCollector()
    c.collect([program[a][0] for a in sorted(program)])
    ranges = {None: {}, 'start': {64: (64, 64), at: (at, at + 4)}, 'end': {64: (64, at), at + 4: (at + 4, at + 4)}}[own]
    ProbabilisticRecuperator(c, program, model=m, functions=ranges).recover()
    if not prev:
        h.check('pcfg' not in me.scores_by_rule, 'the first address has no score')
        return
    before = [(i.cond, i.flags) for i in program[64] if not i.und] if gap != 'prev' else []
    after = [i.cond for i in program[at + 4] if not i.und] if post and gap != 'post' else []
    judge(h, m, me.scores_by_rule['pcfg'], me.cond, before, after)
    h.check('pcfg' not in program[at][1].scores_by_rule, 'candidates that are not instructions have no score')


def crowd(h, n, k, other=False):
    """Many candidates before and after."""
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    F, m = fake_class(), model(other)
    program = {}
    for name, a in (('p', 64), ('n', 72)):
        rest = h.concrete(h.pick('rest' + name, [14, 0])) if name == 'p' else 14
        flags = h.concrete(h.int('flags' + name, 0, 1)) == 1 if name == 'p' else False
        program[a] = []
        for j in range(n):
            c, f, u = rest, flags and j % 2 == 1, False
            if j == k:
                c = h.concrete(h.pick('c' + name, [14, 0, 3]))
                f, u = h.pick('f' + name, [(0, 0), (1, 0), (0, 1)]) if name == 'p' else (0, h.concrete(h.int('u' + name, 0, 1)))
                f, u = f == 1, u == 1
            program[a].append(F(a, 10 * a + j, cond=c, read=[1], written=[17] if f else [2], undefined=u, flags=f))
    me = F(68, 5, cond=h.concrete(h.pick('cond', [14, 0, 3])), read=[1], written=[2])
    program[68] = [me] + [F(68, 6 + j, cond=14, read=[1], written=[2]) for j in range(n)]
    c = MetadataCollector()
    c.collect([program[a][0] for a in sorted(program)])
    ProbabilisticRecuperator(c, program, model=m, functions={}).recover()
    judge(h, m, me.scores_by_rule['pcfg'], me.cond, [(i.cond, i.flags) for i in program[64] if not i.und],
          [i.cond for i in program[72] if not i.und])


def real(h, prev, me, post):
    """The same with the real instruction class: comparisons and others before, any after."""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    m, program, tpl = model(), {}, {}
    for a, kinds in ((64, prev), (68, [me]), (72, post)):
        program[a], tpl[a] = [], []
        for k, (kind, s) in enumerate(kinds):
            cond = h.concrete(h.pick('cond%d_%d' % (a, k), [14, 0, 3]))
            fix = dict((f, 1 + k) for f in ('rd', 'rn', 'rm', 'rt', 'imm'))
            t = h.template('t%d_%d' % (a, k), kind, a, cond=cond, s=s, **fix)
            tpl[a].append(t)
            program[a].append(CAPSInstruction(t.enc, a))
    c = MetadataCollector()
    c.collect([program[a][0] for a in sorted(program)])
    ProbabilisticRecuperator(c, program, functions={}).recover()
    judge(h, m, program[68][0].scores_by_rule['pcfg'], tpl[68][0].cond, [(t.cond, bool(t.flags)) for t in tpl[64]], [t.cond for t in tpl[72]])


def judge(h, m, got, cond, before, after):
    same = [i for i in before if i[0] == cond]
    flag = [i for i in before if i[1]]
    either = [i for i in before if i[0] == cond or i[1]]
    n = max(1, len(before))
    s, f, u = len(same) / n, len(flag) / n, len(either) / n
    t = len([i for i in after if i == cond]) / max(1, len(after))
    want = 0
    if cond == 14:
        if f > 0:
            want = f * (1 - m.branch_after_cpsr)
        elif s > 0:
            want = max(s * t * m.both_conditionals_are_equals, s * m.prev_conditionals_are_equals)
        elif t > 0:
            want = t * m.prev_conditionals_are_equals
    elif s > 0 and f > 0:
        want = max(u * t * m.branch_after_cpsr_and_near_cond_are_equals, u * m.branch_after_cpsr_and_prev_cond_are_equals)
    elif s > 0:
        want = max(s * t * m.both_conditionals_are_equals, s * m.prev_conditionals_are_equals)
    elif f > 0:
        want = max(f * t * m.branch_after_cpsr_and_after_cond_are_equals, f * m.branch_after_cpsr)
    if want == 0:
        want = m.low_probability
    h.check(h.approx(got, want), 'the score is that of the shares of equal conditions and of flag writers around')
