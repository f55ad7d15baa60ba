"""ExactFieldSumConstraint and ProblemBuilder: exactly the programs with the counts of the metadata."""
BOUNDS = ('up to 3 addresses with up to 2 candidates each (one address with 3), field values among 3, up to 2 values per candidate (3 for one candidate), '
          'any metadata counts 0..4, candidates undefined or discarded, any subset of the addresses chosen; whole problems of up to 3 '
          'addresses solved by the constraint solver (4 thorough), of 7 addresses with one candidate undecided; 10 addresses chosen already '
          'and two arbitrary (30 thorough)')
OUTSIDE = 'larger problems; problems with a single address (the installed python-constraint fails on them)'
ASSUMES = ['the fields of a candidate are arbitrary (stand-in instructions)',
           'the solver of the python-constraint library is executed as it is installed']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        out.append(Cfg('choice', dict(n=n, fields=1, part=0)))
        out.append(Cfg('choice', dict(n=n, fields=1, part=1)))
    out.append(Cfg('choice', dict(n=2, fields=2, part=1)))
    out.append(Cfg('choice', dict(n=1, fields=3, part=0)))
    for shape, fields in (([1, 2], 1), ([2, 2], 1), ([1, 2], 2), ([1, 1, 1], 1), ([2], 2), ([2], 1)) + (
            () if q else (([1, 2, 2], 1), ([3, 1], 2))):
        out.append(Cfg('ahead', dict(shape=shape, fields=fields), max_conc=100))
    for shape, vary in (([2, 2], 'cond'), ([2, 2], 'op'), ([2, 2], 'reg'), ([2, 1, 0], 'cond'), ([1, 1], 'reg'), ([2, 1], 'all')) + (
            () if q else (([2, 2, 2], 'cond'), ([3, 2], 'op'), ([2, 2], 'all'))):
        out.append(Cfg('solve', dict(shape=shape, vary=vary), max_conc=100))
    for n in (10,) if q else (10, 30):
        out.append(Cfg('crowd', dict(n=n), max_conc=100))
    out.append(Cfg('solve', dict(shape=[1, 2, 1, 1, 2, 1, 1], vary='cond', free=2), max_conc=100))
    return out


def _cand(h, name, fields, addr):
    from harness.fakes import fake_class
    u = h.int('u' + name, 0, 2) if fields < 3 else 0
    vals = []
    for j in range(fields):
        v = h.int('v%s_%d' % (name, j), 0, 2)
        vals.append(v)
    i = fake_class()(addr, addr, undefined=u == 1)
    i.ignore = u == 2
    i.vals, i.live = vals, u == 0
    return i


def _count(h, insts, v):
    return sum([h.ite(h.all([i.live, x == v]), 1, 0) for i in insts for x in i.vals])


def _meta(h):
    """Counts of two values; the third is absent."""
    return {0: h.int('m0', 0, 4), 1: h.int('m1', 0, 4)}


def choice(h, n, fields, part):
    from semantic_codec.solution.solution_builders import ExactFieldSumConstraint
    meta = _meta(h)
    c = ExactFieldSumConstraint(dict(meta), lambda i: i.vals)
    vs = list(range(n))
    chosen = {k: _cand(h, str(k), fields, k) for k in vs if not part or k < n - 1 and h.bool('chosen%d' % k)}
    r = c(vs, {}, dict(chosen))
    n0, n1, n2 = [_count(h, chosen.values(), v) for v in (0, 1, 2)]
    over = h.any([n0 > meta[0], n1 > meta[1], n2 > 0])
    if part:
        h.check(r == (over == False), 'a partial choice is rejected exactly when a value occurs too often')
    else:
        h.check(r == h.all([n0 == meta[0], n1 == meta[1], n2 == 0]), 'a complete choice is accepted exactly when all counts agree')
    h.check(c(vs, {}, dict(chosen)) == r, 'asking twice gives the same answer')


def crowd(h, n):
    """Many addresses were chosen already; two more are arbitrary."""
    from harness.fakes import fake_class
    from semantic_codec.solution.solution_builders import ExactFieldSumConstraint
    meta = {0: h.int('m0', 0, n + 1), 1: h.int('m1', 0, n + 1)}
    c = ExactFieldSumConstraint(dict(meta), lambda i: i.vals)
    vs = list(range(n + 2))
    chosen = {}
    for k in range(n):
        i = fake_class()(k, k)
        i.vals, i.live = [0] if k % 3 else [0, 1], k != 4
        i.ignore = k == 4
        chosen[k] = i
    for k in (n, n + 1):
        if h.bool('chosen%d' % k):
            chosen[k] = _cand(h, str(k), 1, k)
    r = c(vs, {}, dict(chosen))
    n0, n1, n2 = [_count(h, chosen.values(), v) for v in (0, 1, 2)]
    if len(chosen) < n + 2:
        h.check(r == (h.any([n0 > meta[0], n1 > meta[1], n2 > 0]) == False), 'a partial choice is rejected exactly when a value occurs too often')
    else:
        h.check(r == h.all([n0 == meta[0], n1 == meta[1], n2 == 0]), 'a complete choice is accepted exactly when all counts agree')


def ahead(h, shape, fields):
    """The first address is chosen, the rest are looked ahead."""
    from constraint import Domain
    from semantic_codec.solution.solution_builders import ExactFieldSumConstraint
    meta = _meta(h)
    c = ExactFieldSumConstraint(dict(meta), lambda i: i.vals)
    vs = list(range(len(shape)))
    cands = {k: [_cand(h, '%d_%d' % (k, j), fields, k) for j in range(shape[k])] for k in vs}
    first = cands[0][0]
    chosen = {0: first} if len(shape) > 1 else {}
    domains = {k: Domain(list(cands[k])) for k in vs}
    for d in domains.values():
        d.pushState()
    r = c(vs, domains, chosen, True)
    n = [_count(h, chosen.values(), v) for v in (0, 1, 2)]
    over = h.any([n[0] > meta[0], n[1] > meta[1], n[2] > 0])
    h.check(h.implies(over, r == False), 'a choice where a value occurs too often is rejected')

    def useless(i):
        return h.all([i.live, h.any([n[v] + sum([h.ite(x == v, 1, 0) for x in i.vals]) > (meta[v] if v < 2 else 0)
                                     if any([bool(x == v) for x in i.vals]) else False for v in (0, 1, 2)])])
    dead = []
    for k in vs:
        left = list(domains[k])
        for i in cands[k]:
            if not any([i is x for x in left]):
                h.check(k not in chosen and bool(useless(i)), 'only candidates that fit in no completion are hidden')
        dead.append(k not in chosen and all([bool(useless(i)) for i in cands[k]]))
    if not r:
        h.check(h.any([over] + dead), 'a choice is rejected only when it has no completion')
    for k in vs:
        domains[k].popState()
        h.check(len(domains[k]) == len(cands[k]), 'nothing is lost when the choice is undone')


def solve(h, shape, vary, free=None):
    """The problem of a corrupted program: the solutions are the programs with the metadata of the original."""
    from harness.fakes import fake_class
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.solution.solution_builders import ProblemBuilder
    F = fake_class()
    program = {}
    for k, n in enumerate(shape):
        v = []
        for j in range(n):
            name = '%d_%d' % (k, j)
            f = {}
            if free is not None and n < free:
                f['cond'] = 0 if k % 3 else 14
            elif vary in ('cond', 'all'):
                f['cond'] = 14 if h.bool('c' + name) else 0
            if vary in ('op', 'all'):
                f['op'] = h.int('o' + name, 1, 2)
            if vary in ('reg', 'all'):
                f['read'] = [s for s in (1, 16)[:2 if vary == 'reg' else 1] if h.bool('r%s_%d' % (name, s))]
            v.append(F(4 * k, 10 * k + j, **f))
        program[4 * k] = v
    ori = [h.pick('ori%d' % k, program[4 * k]) for k in range(len(shape)) if shape[k]]
    m = MetadataCollector()
    m.collect(ori)
    sols = ProblemBuilder().build(program, m).getSolutions()
    combos = [[]]
    for k in range(len(shape)):
        if shape[k]:
            combos = [c + [i] for c in combos for i in program[4 * k]]

    def key(c):
        return (sorted([i.cond for i in c]), sorted([h.concrete(i.op) for i in c]), sorted([s for i in c for s in i.storages_used()]))
    want = [c for c in combos if key(c) == key(ori)]
    got = [[s[k] for k in sorted(s)] for s in sols]
    h.check(len(got) == len(want), 'as many solutions as programs with the counts of the original')
    for c in want:
        h.check(any([all([a is b for a, b in zip(c, s)]) for s in got]), 'every program with the counts of the original is a solution')
