"""Forward-constraint solutions: the stored positions identify the original program."""
BOUNDS = ('programs of up to 3 addresses with 0..9 candidates (4 addresses thorough), the original anywhere, addresses in any order, '
          'undefined originals and candidates, candidates that read like the original; 12 and 30 addresses of nine candidates (120 thorough), 40 candidates at one (300); for the enumerator any conditions, opcodes '
          'and storages among 2 or 3')
OUTSIDE = 'larger programs; the enumerator does not claim a decodable solution'
ASSUMES = ['the fields of an instruction are arbitrary (stand-in instructions)',
           'the original of every address is among its candidates, except where its absence is tested',
           'instructions with the same text are the same instruction']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []
    for shape in ([1], [2], [3], [5], [9], [1, 2], [3, 2], [5, 3], [4, 0, 2], [8, 1], [3, 3, 2], [17, 16, 2]) + (
            () if q else ([5, 6, 7], [3, 3, 3, 3], [9, 2, 33], [65, 64, 2])):
        out.append(Cfg('stored', dict(shape=shape), max_conc=200))
    out.append(Cfg('many', dict(n=12), max_conc=200))
    out.append(Cfg('many', dict(n=30 if q else 120), max_conc=800))
    out.append(Cfg('crowded', dict(n=40 if q else 300), max_conc=800))
    out.append(Cfg('undefined', {}))
    out.append(Cfg('alike', {}))
    for cls in ('ForwardConstraintSolutionBuilder', 'ForwardConstraintSolutionEnumerator'):
        out.append(Cfg('lost', dict(cls=cls)))
    for shape, vary in (([2, 2], dict(cond=1)), ([2, 2], dict(op=3)), ([2, 2], dict(used=[1, 16])), ([3, 2], dict(op=2)),
                        ([2, 2, 1], dict(op=2)), ([2, 2, 2], dict(condpick=1, cond=2)), ([2, 1, 2], dict(used=[1])), ([2, 3], dict(rw=[1]))) + (
            () if q else (([2, 2], dict(cond=1, op=2)), ([3, 3], dict(used=[1])), ([2, 2, 2], dict(op=2)))):
        out.append(Cfg('enumerated', dict(shape=shape, vary=vary), max_conc=200))
    return out


def _program(h, shape):
    from harness.fakes import fake_class
    F = fake_class()
    order = h.pick('order', ['up', 'down'])
    ks = list(range(len(shape)))
    if order == 'down':
        ks.reverse()
    program, pos, original = {}, {}, []
    for k in ks:
        program[4 * k] = [F(4 * k, 100 * k + j) for j in range(shape[k])]
    for k in range(len(shape)):
        pos[4 * k] = h.int('pos%d' % k, 0, max(0, shape[k] - 1))
        # the original is an instruction of its own
        original.append(F(4 * k, 100 * k + h.concrete(pos[4 * k])))
    return program, pos, original


def _decode(h, q, program, order):
    """What the solution says: the addresses by number of candidates, the position of each in just enough bits."""
    got = {}
    total = 0
    for a in order:
        n = len(program[a])
        if n > 1:
            bits = 0
            while 1 << bits < n:
                bits += 1
            q.word_size = bits
            got[a] = q.dequeue(0, 0)
            total += bits
    return got, total


def stored(h, shape):
    from semantic_codec.solution.solution_builders import ForwardConstraintSolutionBuilder
    program, pos, original = _program(h, shape)
    keep = {a: list(v) for a, v in program.items()}
    b = ForwardConstraintSolutionBuilder(program, original)
    b.build()
    for a in program:
        h.check(len(program[a]) == len(keep[a]) and all([x is y for x, y in zip(program[a], keep[a])]), 'the candidates stay')
    order = [a for a in program]
    order.sort(key=lambda a: len(program[a]))
    got, total = _decode(h, b.solution, program, order)
    for a in got:
        h.check(got[a] == pos[a], 'the position stored is that of the original')
    h.check(b.solution_size == total, 'the size is the number of bits stored')


def many(h, n):
    """More than a word of solution."""
    from semantic_codec.solution.solution_builders import ForwardConstraintSolutionBuilder
    from harness.fakes import fake_class
    F = fake_class()
    program, original, pos = {}, [], {}
    free = h.int('free', 0, n - 1)
    x = h.int('pos', 0, 8)
    for k in range(n):
        pos[4 * k] = (k * 5 + 8) % 9 if k != free else h.concrete(x)
        program[4 * k] = [F(4 * k, 100 * k + j) for j in range(9)]
        original.append(F(4 * k, 100 * k + pos[4 * k]))
    b = ForwardConstraintSolutionBuilder(program, original)
    b.build()
    got, total = _decode(h, b.solution, program, [4 * k for k in range(n)])
    for a in got:
        h.check(got[a] == pos[a], 'the position stored is that of the original')
    h.check(b.solution_size == total and total == 4 * n, 'the size is the number of bits stored')


def crowded(h, n):
    """One address with many candidates, among others."""
    from semantic_codec.solution.solution_builders import ForwardConstraintSolutionBuilder, ForwardConstraintSolutionEnumerator
    from harness.fakes import fake_class
    F = fake_class()
    p = h.concrete(h.int('p', 0, n - 1))
    what = h.pick('what', ['builder', 'enumerator'])
    program = {8: [F(8, 5000 + j) for j in range(3)], 4: [F(4, 1000 + j, cond=14) for j in range(n)], 0: [F(0, 1)]}
    original = [F(0, 1), F(4, 1000 + p), F(8, 5002)]
    if what == 'builder':
        b = ForwardConstraintSolutionBuilder(program, original)
        b.build()
        got, total = _decode(h, b.solution, program, [8, 4])
        h.check(got[4] == p and got[8] == 2, 'the position stored is that of the original')
        h.check(b.solution_size == total, 'the size is the number of bits stored')
    else:
        e = ForwardConstraintSolutionEnumerator(program, original)
        e.build()
        h.check(any([i.encoding == 1000 + p for i in program[4]]), 'the original remains')
        h.check(1 <= e.solution <= 3 * n, 'the index is among the combinations')


def undefined(h):
    """Addresses whose original is not an instruction are not stored; undefined candidates do not get in the way."""
    from harness.fakes import fake_class
    from semantic_codec.solution.solution_builders import ForwardConstraintSolutionBuilder, ForwardConstraintSolutionEnumerator
    F = fake_class()
    u = [h.bool('u%d' % k) for k in range(3)]
    w = h.bool('w')
    p = h.int('p', 0, 2)
    p = h.concrete(p)
    program = {8: [F(8, 1 + j, undefined=u[0]) for j in range(2)],
               4: [F(4, 10 + j, undefined=w and j != p) for j in range(3)],
               0: [F(0, 20, undefined=u[1])]}
    original = [F(0, 20, undefined=u[1]), F(4, 10 + p), F(8, 2, undefined=u[0])]
    b = ForwardConstraintSolutionBuilder(program, original)
    b.build()
    order = [a for a in (8, 4) if not (a == 8 and u[0])]
    got, total = _decode(h, b.solution, program, order)
    h.check(b.solution_size == total, 'the size is the number of bits stored')
    for a in got:
        h.check(got[a] == (p if a == 4 else 1), 'the position stored is that of the original')
    e = ForwardConstraintSolutionEnumerator(program, original)
    e.build()
    h.check(any([i.encoding == 10 + p for i in program[4]]), 'the original remains')


def alike(h):
    """Candidates that read like the original: the solution names one of them."""
    from harness.fakes import fake_class
    from semantic_codec.solution.solution_builders import ForwardConstraintSolutionBuilder
    F = fake_class()
    same = [h.bool('s%d' % j) for j in range(4)]
    p = h.concrete(h.int('p', 0, 3))
    program = {0: [F(0, j, text='same' if j == p or same[j] else 'other %d' % j) for j in range(4)]}
    b = ForwardConstraintSolutionBuilder(program, [F(0, p, text='same')])
    b.build()
    got, total = _decode(h, b.solution, program, [0])
    h.check(str(program[0][h.concrete(got[0])]) == 'same', 'the solution names an instruction that reads like the original')


def lost(h, cls):
    from harness.fakes import fake_class
    from semantic_codec.solution import solution_builders
    F = fake_class()
    n = h.int('n', 2, 4)
    p = h.int('p', 0, 5)
    program = {0: [F(0, 0)], 4: [F(4, 10 + j) for j in range(h.concrete(n))]}
    original = [F(0, 0), F(4, 10 + h.concrete(p))]
    b = getattr(solution_builders, cls)(program, original)
    try:
        b.build()
        h.check(p < n, 'a program that lost an original is rejected')
    except RuntimeError:
        h.check(p >= n, 'a program with its originals is accepted')


def enumerated(h, shape, vary):
    """Constraining the program on the way keeps the originals and only removes what cannot be."""
    from harness.recov import build
    from semantic_codec.solution.solution_builders import ForwardConstraintSolutionEnumerator
    P = build(h, ['a' * n for n in shape], vary)
    before = {a: list(v) for a, v in P.program.items()}
    e = ForwardConstraintSolutionEnumerator(P.program, P.ori)
    e.build()
    most = 1
    for k, a in enumerate(P.addr):
        left = P.program[a]
        h.check(any([i is P.ori[k] for i in left]), 'the original remains')
        h.check([i for i in before[a] if any([i is j for j in left])] == left, 'candidates are only removed')
        for i in before[a]:
            if not any([i is j for j in left]):
                o = P.ori[k]
                h.check(not (i.cond == o.cond and i.op == o.op and all([s in o.storages_used() for s in i.registers_used()])),
                        'only candidates in excess of the metadata are removed')
        most *= len(before[a])
    h.check(1 <= e.solution <= most, 'the index is among the combinations')
    h.check(h.approx(2 ** e.solution_size, e.solution), 'the size is the number of bits of the index')
