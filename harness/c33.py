"""Branch candidates are scored by where they lead."""
from harness.fakes import fake_class, model

BOUNDS = ('programs of 1..4 addresses with gaps, one or two branches at any of them with any target from 0 to beyond the program (or unknown), '
          'functions covering the whole program (given in ascending or descending order), parts of it, overlapping, with gaps between them, or unknown, or of which the program has nothing; '
          '15 addresses in four functions; undefined candidates before or after at the branch, those or no candidates at starts of functions; real branches, returns and writes to the program counter in a program of two functions')
OUTSIDE = 'larger programs; more functions'
ASSUMES = ['instruction fields are arbitrary (stand-in instructions)', 'the probabilities are those of the default model, or of one other model with all of them changed']
LAYOUTS = {'line': [64, 68, 72, 76], 'gap': [64, 72, 76, 88], 'one': [64], 'zero': [0, 4, 12]}
LONG = [64 + 4 * k for k in range(9)] + [104 + 4 * k for k in range(6)]
FUNCTIONS = {'whole': [(0, -1)], 'none': [], 'two': [(0, 1), (2, -1)], 'late': [(1, -1)], 'short': [(0, 0), (2, 2)], 'long': [(0, -1), (2, -1)],
             'single': [(-1, -1)], 'four': [(0, 2), (3, 6), (7, 7), (8, -1)]}


def configs(tier):
    from sx.driver import Cfg
    out = []
    for lay in LAYOUTS:
        n = len(LAYOUTS[lay])
        for f in [f for f in FUNCTIONS if f != 'four'] if n > 2 else ('whole', 'none'):
            for at in range(n):
                out.append(Cfg('branch', dict(lay=lay, fns=f, at=[at])))
            if n > 2:
                out.append(Cfg('branch', dict(lay=lay, fns=f, at=[0, n - 1])))
                if tier != 'quick':
                    out.append(Cfg('branch', dict(lay=lay, fns=f, at=[1, 1])))
                    out.append(Cfg('branch', dict(lay=lay, fns=f, at=[2, 1])))
    for at in (0, 6, 7, 14) if tier == 'quick' else range(15):
        for f in ('four', 'whole', 'late'):
            out.append(Cfg('branch', dict(lay='long', fns=f, at=[at])))
    for at in (0, 1, 3):
        out.append(Cfg('branch', dict(lay='gap', fns='two', at=[at], other=True)))
    for f, at, empty in (('two', 3, [2]), ('whole', 1, [0]), ('two', 0, [2]), ('late', 2, [1])):
        out.append(Cfg('branch', dict(lay='gap', fns=f, at=[at], empty=empty)))
    for at in (0, 2, 3):
        out.append(Cfg('branch', dict(lay='gap', fns='two', at=[at], outside=True)))
    for kind in ('b', 'bl', 'bx', 'pop2', 'mov_i'):
        for at in (0, 2):
            out.append(Cfg('real', dict(kind=kind, at=at), max_conc=300))
    return out


def real(h, kind, at):
    """A real branch among real moves, in a program of two functions."""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    m, p = model(), {}
    addr = [64, 68, 72, 76]
    for k, a in enumerate(addr):
        x = h.template('m%d' % k, 'mov_i', a, cond=14, rd=1, imm=k)
        if k == at:
            fix = {'b': {}, 'bl': {}, 'bx': dict(rm=14), 'pop2': dict(a=4, b=h.concrete(h.pick('b', [14, 15]))),
                   'mov_i': dict(rd=h.concrete(h.pick('rd', [3, 15])), imm=1)}[kind]
            if kind in ('b', 'bl'):
                fix = dict(imm=h.concrete(h.int('off', -7, 5)) & 0xffffff)
            x = h.template('x', kind, a, cond=14, **fix)
        p[a] = [CAPSInstruction(x.enc, a)]
        if k == at:
            mine = x
    c = MetadataCollector()
    c.collect([p[a][0] for a in addr])
    ranges = {64: (64, 68), 72: (72, 76)}
    ProbabilisticRecuperator(c, p, functions=ranges).recover()
    for a in addr:
        scores = p[a][0].scores_by_rule
        if a != addr[at] or kind == 'pop2' and mine.f['b'] != 15 or kind == 'mov_i' and mine.f['rd'] != 15:
            h.check('pbd' not in scores, 'real instructions that do not branch have no score for branches')
            continue
        if kind not in ('b', 'bl'):
            want = 2 * m.just_any_jump_is_valid
        else:
            imm = mine.f['imm']
            to = (a + 8 + 4 * (imm - 0x1000000 if imm >= 0x800000 else imm)) % 2 ** 32
            lo, hi = ranges[64 if a < 72 else 72]
            if lo <= to <= hi:
                want = m.branch_to_this_method
            elif to in ranges:
                want = m.branch_to_other_method_start
            else:
                want = m.just_any_jump_is_valid * (2 if 64 <= to <= 76 else 1)
        h.check(h.approx(scores['pbd'], want), 'a real branch is scored by where it leads')


def branch(h, lay, fns, at, other=False, outside=False, empty=()):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    F, m = fake_class(), model(other)
    addr = LONG if lay == 'long' else LAYOUTS[lay]
    ranges = dict([(addr[a], (addr[a], addr[b])) for a, b in FUNCTIONS[fns]])
    if outside:
        # Functions of which the program has no instruction
        ranges.update({8: (8, 20), 120: (120, 124)})
    program, branches, plain = {}, [], []
    for k, a in list(enumerate(addr))[::-1 if sum(at) % 2 else 1]:
        program[a] = [F(a, 100 + k, read=[1], written=[2])]
        if (a in ranges and a != addr[0] or k == at[0]) and h.bool('more%d' % k):
            program[a].insert(0, F(a, 300 + k, op=3, branch=True, target=64, undefined=True))
        plain.append(program[a][0])
    for j, k in enumerate(at):
        a = addr[k]
        t = None if h.bool('unknown%d' % j) else h.int('target%d' % j, 0, 128)
        und = h.bool('undefined%d' % j) if j else False
        b = F(a, 200 + j, op=3, branch=True, target=t, undefined=und)
        program[a].append(b)
        if not und and h.bool('last%d' % j):
            program[a].append(program[a].pop(0))
        branches.append((a, t, b))
    c = MetadataCollector()
    c.collect([program[a][-1] for a in addr])
    for k in empty:
        program[addr[k]] = []
    ProbabilisticRecuperator(c, program, model=m, functions=ranges).recover()
    for a, t, b in branches:
        if b.is_undefined:
            continue
        got = b.scores_by_rule['pbd']
        if t is None:
            h.check(got == 2 * m.just_any_jump_is_valid, 'a branch to an unknown address')
            continue
        inside, start = False, False
        own = [f for f in sorted(ranges) if f <= a]
        if own:
            lo, hi = ranges[own[-1]]
            inside = h.all([t >= lo, t <= hi])
        for f in ranges:
            start = h.any([start, t == f])
        out = h.any([t < addr[0], t > addr[-1]])
        want = h.ite(inside, m.branch_to_this_method, h.ite(start, m.branch_to_other_method_start,
                                                             h.ite(out, m.just_any_jump_is_valid, 2 * m.just_any_jump_is_valid)))
        h.check(h.approx(got, want), 'a branch is scored by the function, the function start or the program it leads to')
    for p in plain:
        h.check('pbd' not in p.scores_by_rule, 'other instructions have no score for branches')
