"""SolutionQuality: how many programs remain possible, and how deep the original is."""
BOUNDS = ('programs of 0..4 addresses with 0..5 candidates each (7 thorough), every score between zero and one, the original anywhere or '
          'undefined, encodings including zero; answers asked in any order; 30 addresses or 40 candidates (200 and 300 thorough) with one deep original anywhere')
OUTSIDE = 'larger programs'
ASSUMES = ['scores are exact reals that are equal or differ by more than a millionth',
           'instructions with the same text are the same instruction; the order of equal scores is open']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = [Cfg('count', dict(n=n, m=m)) for n, m in ((0, 1), (1, 5), (2, 4), (3, 3)) + (() if q else ((3, 6), (4, 4)))]
    for shape in ([1], [2], [3], [2, 1], [2, 2], [4], [1, 1, 2]) + (() if q else ([3, 2], [5], [2, 2, 2])):
        for zero in (0, 1):
            if len(shape) > 1 and zero and q:
                continue
            out.append(Cfg('depth', dict(shape=shape, zero=zero)))
    out.append(Cfg('wide', dict(n=30, m=2), max_conc=400))
    out.append(Cfg('wide', dict(n=2, m=40), max_conc=400))
    if not q:
        out.append(Cfg('wide', dict(n=200, m=3), max_conc=400))
        out.append(Cfg('wide', dict(n=2, m=300), max_conc=400))
    out.append(Cfg('undefined', {}))
    out.append(Cfg('order', dict(n=2 if q else 3)))
    return out


def count(h, n, m):
    from harness.fakes import fake_class
    from semantic_codec.solution.solution_quality import SolutionQuality
    F = fake_class()
    ks = [h.concrete(h.int('k%d' % j, 0, m)) for j in range(n)]
    program = {4 * j: [F(4 * j, 10 * j + i) for i in range(k)] for j, k in enumerate(ks)}
    q = SolutionQuality(program, [F(4 * j, 10 * j) for j in range(n)])
    prod = 1
    for k in ks:
        prod *= k
    first = h.pick('first', ['count', 'size', 'bins', 'report'])
    if first == 'size':
        q.solution_size
    elif first == 'bins':
        q.solution_count_bins
    elif first == 'report':
        q.report()
    for again in (0, 1):
        h.check(q.solution_count == prod, 'the number of solutions is the product of the numbers of candidates')
        h.check(h.approx(2 ** q.solution_size, prod) if prod else q.solution_size == 0, 'the size is its logarithm')
        bins = q.solution_count_bins
        h.check(sum(bins.values()) == n, 'every address is in the distribution')
        for k in range(m + 1):
            h.check((bins[k] if k in bins else 0) == len([1 for x in ks if x == k]), 'addresses with that many candidates')


def _program(h, shape, zero):
    from harness.fakes import fake_class
    F = fake_class()
    program, original, ranges = {}, [], []
    for k, n in enumerate(shape):
        s = [h.real('s%d_%d' % (k, j), 0, 1) for j in range(n)]
        for i in range(n):
            for j in range(i):
                h.assume(h.any([s[i] == s[j], s[i] - s[j] > 1e-6, s[j] - s[i] > 1e-6]))
        v = []
        for j in range(n):
            i = F(4 * k, (0 if zero and k == 0 else 1) + 10 * k + j)
            i.score_function = (lambda val: lambda d, inst: val)(s[j])
            v.append(i)
        p = h.pick('ori%d' % k, list(range(n)))
        program[4 * k] = v
        original.append(F(4 * k, v[p].encoding))
        lo = 1 + sum([h.ite(x > s[p], 1, 0) for x in s])
        hi = sum([h.ite(x >= s[p], 1, 0) for x in s])
        ranges.append((lo, hi, n))
    return program, original, ranges


def _depth(h, d, ranges):
    h.check(h.all([d * n >= lo - 1e-6 for lo, hi, n in ranges]), 'no original is deeper')
    h.check(h.any([h.all([d * n >= lo - 1e-6, d * n <= hi + 1e-6]) for lo, hi, n in ranges]), 'some original is that deep')


def depth(h, shape, zero):
    from semantic_codec.solution.solution_quality import SolutionQuality
    program, original, ranges = _program(h, shape, zero)
    keep = {a: list(v) for a, v in program.items()}
    q = SolutionQuality(program, original)
    d = q.highest_depth
    _depth(h, d, ranges)
    h.check(q.highest_depth == d, 'asking again gives the same depth')
    for a in program:
        h.check(len(program[a]) == len(keep[a]) and all([any([x is y for y in program[a]]) for x in keep[a]]), 'no candidate is lost')


def wide(h, n, m):
    """One original behind others, among many."""
    from harness.fakes import fake_class
    from semantic_codec.solution.solution_quality import SolutionQuality
    F = fake_class()
    k = h.concrete(h.int('k', 0, n - 1))
    p = h.pick('p', sorted(set([0, 1, m // 2, m - 1])))
    x = h.real('x', 0, 1)
    program, original = {}, []
    for a in range(n):
        v = [F(4 * a, 1000 * a + j) for j in range(m)]
        for j, i in enumerate(v):
            i.score_function = (lambda val: lambda d, inst: val)(1 - j / 1024.0 if j != p or a != k else x)
        program[4 * a] = v
        original.append(F(4 * a, v[p if a == k else 0].encoding))
    for j in range(m):
        if j != p:
            h.assume(h.any([x - (1 - j / 1024.0) > 1e-6, (1 - j / 1024.0) - x > 1e-6]))
    better = sum([h.ite(x < 1 - j / 1024.0, 1, 0) for j in range(m) if j != p])
    q = SolutionQuality(program, original)
    h.check(h.approx(q.highest_depth * m, h.ite(better == 0, 1, better + 1)), 'the deepest original')
    h.check(q.solution_count == m ** n, 'the number of solutions is the product of the numbers of candidates')
    h.check(h.approx(2 ** (q.solution_size / n), m), 'the size is its logarithm')
    h.check(len(q.solution_count_bins) == 1 and q.solution_count_bins[m] == n, 'addresses with that many candidates')


def undefined(h):
    """Originals that are no instructions do not count, nor addresses whose candidates are gone."""
    from harness.fakes import fake_class
    from semantic_codec.solution.solution_quality import SolutionQuality
    program, original, ranges = _program(h, [2, 1], 0)
    F = fake_class()
    n = h.concrete(h.int('n', 0, 2))
    u = h.bool('u')
    program[100] = [F(100, 7 + j, undefined=u) for j in range(n)] if u else []
    original.insert(h.pick('where', [2, 1, 0]), F(100, 9, undefined=u))
    _depth(h, SolutionQuality(program, original).highest_depth, ranges)


def order(h, n):
    """Every answer is the same whatever was asked before."""
    from semantic_codec.solution.solution_quality import SolutionQuality
    program, original, ranges = _program(h, [2, 3], 0)
    q = SolutionQuality(program, original)
    for k in range(n):
        what = h.pick('ask%d' % k, ['count', 'size', 'bins', 'depth', 'evaluate'])
        if what == 'count':
            h.check(q.solution_count == 6, 'number of solutions')
        elif what == 'size':
            h.check(h.approx(2 ** q.solution_size, 6), 'size')
        elif what == 'bins':
            b = q.solution_count_bins
            h.check(len(b) == 2 and b[2] == 1 and b[3] == 1, 'distribution')
        elif what == 'depth':
            _depth(h, q.highest_depth, ranges)
        else:
            q.evaluate()
