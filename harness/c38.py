"""run_recovery: from the functions and the corrupted candidates to the solution files."""
import struct

BOUNDS = ('programs of up to 3 addresses and 3 candidates each, original anywhere among them, with the conditions, opcodes, storages, '
          'branch targets or register lists of the candidates varied; one or two functions, with or without a gap; undefined candidates; '
          'programs of 12 addresses in which one varies; '
          'real instructions (moves, loads, comparisons, branches, pushes and pops) with registers among two')
OUTSIDE = 'larger programs; the bit flips themselves (C08, C11); originals that are not instructions (no solution can be written)'
ASSUMES = ['the corruptor returns, per address, a list of different candidates among which is the original (C08, C11)',
           'the fields of an instruction are arbitrary (stand-in instructions), except in the configurations with real ones',
           'a stand-in file system keeps what is written to it']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []

    def add(shape, vary, **k):
        out.append(Cfg('run', dict(shape=shape, vary=vary, **k), max_conc=200))
    add(['a'], dict(cond=1))
    add(['aa'], dict(op=2))
    add(['aa', 'a'], dict(condpick=1, cond=2))
    add(['a', 'aa'], dict(op=3), split=1)
    add(['au', 'ua'], dict(op=2))
    add(['aa', 'aa'], dict(op=2), layout=[0, 2])
    add(['aa', 'aa'], dict(used=[1, 2]), original_first=True)
    add(['b', 'bl'], dict(target=1))
    add(['pa', 'oa'], dict(regs=1))
    add(['aa', 'aa'], dict(cond=1), split=1)
    long = ['ab', 'au', 'pa', 'aa', 'oa', 'aau', 'a', 'l', 'aa', 'ba', 'aaa', 'oo']
    for k, vary in ((1, dict(op=3)), (8, dict(used=[1, 2])), (9, dict(target=1)), (11, dict(regs=1))):
        add(long, vary, free=[k], split=5)
    if not q:
        add(['aa', 'aa', 'a'], dict(op=2), split=1)
        add(['aaa', 'aa'], dict(op=2))
        add(['aaa', 'au', 'a'], dict(condpick=1, cond=2))
        add(['bb', 'bl', 'a'], dict(target=1), split=2)
        add(['pa', 'oa', 'ao'], dict(regs=1, op=2), layout=[0, 2, 3])
        add(['aa', 'aa'], dict(stor=[1, 2]))
    for kinds in ([['mov_r', 'add_r'], ['cmp_r']], [['ldr_i', 'str_i'], ['b', 'mov_i']], [['push2', 'mov_i'], ['pop2']]):
        out.append(Cfg('real', dict(kinds=kinds), max_conc=200))
    if not q:
        for kinds in ([['mov_r', 'add_r'], ['cmp_r'], ['b', 'bl']], [['push2', 'pop2'], ['ldr_i', 'strb_i'], ['pop2', 'mov_i']]):
            out.append(Cfg('real', dict(kinds=kinds), max_conc=200))
    return out


class _Corruptor(object):
    def __init__(self, h, program, first):
        self.h, self.program, self.first = h, program, first

    def corrupt(self, clean):
        self.h.check(sorted(clean) == sorted(self.program), 'the corruptor gets every address')
        for a, v in clean.items():
            self.h.check(len(v) == 1 and v[0].encoding == self.first[a], 'with its instruction')
        return self.program


def _functions(P, split):
    from semantic_codec.architecture.functions import ElfFunction
    fns = []
    for part in ([P.ori] if not split else [P.ori[:split], P.ori[split:]]):
        f = ElfFunction('f%d' % len(fns))
        f.instructions = list(part)
        fns.append(f)
    return fns


def _decode(h, name):
    """What the format says, as a map from address to encodings."""
    b = h.read_bytes(name)

    def num(k, n):
        return sum([b[k + j] << (8 * j) for j in range(n)])
    h.check(num(0, 8) == 0xA0C1E2F3A4C5E6F7, 'the file is a solution file')
    n, pos, out = h.concrete(num(8, 4)), 12, {}
    for _ in range(n):
        a, c = h.concrete(num(pos, 4)), h.concrete(num(pos + 4, 4))
        out[a] = [num(pos + 8 + 4 * j, 4) for j in range(c)]
        pos += 8 + 4 * c
    h.check(pos == len(b), 'nothing else is in the file')
    return out


def _go(h, P, fns, make):
    import sys
    import recover_program
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator, probabilistic_rules
    first = dict((i.address, i.encoding) for i in P.ori)
    before = dict((a, list(v)) for a, v in P.program.items())
    last = {}

    class Watched(ProbabilisticRecuperator):
        def recover(self):
            super().recover()
            last.clear()
            for a, v in P.program.items():
                last[a] = [i.score() for i in v]

    h.chdir()
    out, real = sys.stdout, recover_program.CAPSInstruction
    try:
        if make:
            recover_program.CAPSInstruction = make
        recover_program.run_recovery(fns, _Corruptor(h, P.program, first), Watched)
        same = sys.stdout is out
    finally:
        sys.stdout, recover_program.CAPSInstruction = out, real
    h.check(same, 'the standard output is restored')
    start, end = _decode(h, 'initial_solution.sol'), _decode(h, 'final_solution.sol')
    h.check(sorted(start) == sorted(before) and sorted(end) == sorted(before), 'every address has a solution')
    for a, v in before.items():
        keep = P.program[a]
        h.check(h.all([x > 0 for x in last[a]]), 'the last pass leaves no candidate with the score zero')
        h.check(h.any([h.all([x < 1 for x in last[a]]), h.all([x >= 1 for x in last[a]])]),
                'the last pass leaves no candidate below a certain one')
        h.check(len(keep) > 0 and all([any([x is y for y in v]) for x in keep]), 'only candidates remain')
        h.check(h.any([i.encoding == first[a] for i in keep]), 'the original remains')
        upto = [i.encoding for i in v]
        h.check(len(start[a]) <= len(upto) and h.all([x == y for x, y in zip(start[a], upto)]),
                'the initial solution has the candidates in their order')
        h.check(len(end[a]) <= len(keep) and h.all([x == i.encoding for x, i in zip(end[a], keep)]),
                'the final solution has the remaining candidates in their order')
        for s in (start[a], end[a]):
            h.check(len(s) > 0, 'a solution has candidates')
            h.check(s[-1] == first[a], 'a solution ends with the original')
            h.check(h.all([x != first[a] for x in s[:-1]]), 'a solution has the original once')
        if len(keep) > 1:
            sc = [probabilistic_rules(i.scores_by_rule, i) for i in keep]
            h.check(h.all([sc[j] >= sc[j + 1] for j in range(len(sc) - 1)]), 'candidates are sorted by score')
    n, one = h.read_text('corrupted_program.txt'), len([v for v in before.values() if len(v) > 1])
    h.check('ERRORS: %d ' % one in n, 'the report of the corrupted program counts the corrupted addresses')


def run(h, shape, vary, split=0, **k):
    from harness.recov import build
    P = build(h, shape, vary, **k)
    for i in P.ori:
        h.assume(not i.und)
    table = dict((i.encoding, i) for a, i in P.flat)
    import copy
    _go(h, P, _functions(P, split), lambda encoding, position: copy.copy(table[encoding]))


def real(h, kinds):
    """Real instructions: the originals of the given kinds, each next to the other kinds of its list."""
    from harness.recov import Prog
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    P = Prog()
    P.program, P.ori = {}, []
    for k, ks in enumerate(kinds):
        a, v = 64 + 4 * k, []
        for j, kind in enumerate(ks):
            cond = h.concrete(h.pick('cond%d_%d' % (k, j), [14, 0])) if j == 0 else 14
            fix = {}
            if kind in ('push2', 'pop2'):
                fix = dict(a=4, b=5)
            t = h.template('t%d_%d' % (k, j), kind, a, cond=cond, rd=1, rn=2, rm=1 + k, rt=3, imm=4, **fix)
            v.append(CAPSInstruction(t.enc, a))
        P.program[a] = v
        pos = h.pick('pos%d' % k, list(range(len(ks))))
        P.ori.append(CAPSInstruction(v[pos].encoding, a))
    _go(h, P, _functions(P, 0), None)
