"""CorruptedProgramMetadataCollector: addresses that may have each condition, opcode and storage."""
BOUNDS = ('programs of up to 3 addresses and 5 candidates (6 thorough) with any condition 0..15 or opcode 0..600, up to 3 storages '
          'per candidate out of all the storages, candidates undefined, discarded or valid; two collections in a row with any change between them; '
          '14 addresses or 40 candidates (300 thorough) of which any is different')
OUTSIDE = 'larger programs'
ASSUMES = ['the fields of a candidate are arbitrary (stand-in instructions)', 'storages used by a candidate are distinct']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []
    for shape in ([], [0], [1], [2], [3], [2, 1], [2, 2], [1, 1, 1], [0, 2], [2, 2, 1]) + (
            () if q else ([3, 2], [2, 2, 2], [4, 1])):
        for what in ('cond', 'op'):
            out.append(Cfg('counts', dict(shape=shape, what=what)))
    for shape in ([[1], [1]], [[2, 1]], [[1, 1], [1]], [[2], [1]], [[0, 1], [0]]) + (
            () if q else ([[2, 1], [1]], [[3], [1]], [[1, 1], [1, 1]])):
        out.append(Cfg('storages', dict(shape=shape), max_conc=100))
    out.append(Cfg('wide', dict(n=14, m=3), max_conc=200))
    out.append(Cfg('wide', dict(n=2, m=40), max_conc=200))
    if not q:
        out.append(Cfg('wide', dict(n=300, m=2), max_conc=600))
        out.append(Cfg('wide', dict(n=2, m=300), max_conc=600))
    out.append(Cfg('again', {}))
    out.append(Cfg('mixed', {}))
    return out


def _program(h, shape, **fields):
    from harness.fakes import fake_class
    F = fake_class()
    program, flat = {}, []
    for a, n in enumerate(shape):
        v = []
        for k in range(n):
            u = h.int('u%d_%d' % (a, k), 0, 2)
            i = F(8 + 4 * a, 100 * a + k, undefined=u == 1, **{f: g(a, k) for f, g in fields.items()})
            i.ignore = u == 2
            v.append(i)
            flat.append((a, i, u == 0))
        program[8 + 4 * a] = v
    return program, flat


def _check(h, d, n, flat, get, p):
    want = sum([h.ite(h.any([h.all([ok, get(i, p)]) for b, i, ok in flat if b == a]), 1, 0) for a in range(n)])
    if p in d:
        h.check(d[p] == want, 'number of addresses that may have it')
        h.check(want > 0, 'no entry for what no address can have')
        h.check(d[p] <= n, 'not more than the addresses')
    else:
        h.check(want == 0, 'everything an address may have is counted')


def counts(h, shape, what):
    from semantic_codec.metadata.metadata_collector import CorruptedProgramMetadataCollector
    hi = 15 if what == 'cond' else 600
    program, flat = _program(h, shape, **{what: lambda a, k: h.int('v%d_%d' % (a, k), 0, hi)})
    c = CorruptedProgramMetadataCollector()
    c.collect(program)
    p = h.int('p', 0, hi)
    if what == 'cond':
        _check(h, c.address_with_cond, len(shape), flat, lambda i, v: i.cond == v, p)
        h.check(len(c.address_with_op) <= 1, 'opcodes counted apart')
    else:
        _check(h, c.address_with_op, len(shape), flat, lambda i, v: i.op == v, p)
        h.check(len(c.address_with_cond) <= 1, 'conditions counted apart')


def storages(h, shape):
    from semantic_codec.metadata.metadata_collector import CorruptedProgramMetadataCollector

    def used(a, k):
        n = shape[a][k]
        u = [h.int('s%d_%d_%d' % (a, k, j), 0, 20) for j in range(n)]
        for i in range(n):
            for j in range(i):
                h.assume(u[i] != u[j])
        return u
    program, flat = _program(h, [len(x) for x in shape], used=used)
    c = CorruptedProgramMetadataCollector()
    c.collect(program)
    _check(h, c.address_with_reg, len(shape), flat, lambda i, v: h.any([x == v for x in i.storages_used()]), h.int('p', 0, 20))


def wide(h, n, m):
    """Many addresses or candidates, one of them different."""
    from harness.fakes import fake_class
    from semantic_codec.metadata.metadata_collector import CorruptedProgramMetadataCollector
    F = fake_class()
    a, k = h.concrete(h.int('a', 0, n - 1)), h.concrete(h.int('k', 0, m - 1))
    v, u = h.int('v', 0, 15), h.bool('u')
    program = {4 * x: [F(4 * x, 1000 * x + y, cond=v if (x, y) == (a, k) else 14, op=v if (x, y) == (a, k) else 5,
                         used=[1, 2] if (x, y) == (a, k) else [2], undefined=u if (x, y) == (a, k) else False)
                       for y in range(m)] for x in range(n)}
    c = CorruptedProgramMetadataCollector()
    c.collect(program)
    one = h.ite(u, 0, 1)
    for d, other in ((c.address_with_cond, 14), (c.address_with_op, 5)):
        h.check(d[other] == n - (h.ite(h.any([u, v != other]), 1, 0) if m == 1 else 0), 'addresses that may have the common one')
        if v in d:
            h.check(d[v] == h.ite(v == other, n, 1), 'addresses that may have the other')
            h.check(h.any([v == other, u == False]), 'no entry for what no address can have')
        else:
            h.check(u, 'everything an address may have is counted')
    h.check(c.address_with_reg[2] == n, 'addresses that may use the common storage')
    h.check((c.address_with_reg[1] if 1 in c.address_with_reg else 0) == one, 'addresses that may use the other')


def again(h):
    """A collection starts from zero, and collectors share nothing."""
    from semantic_codec.metadata.metadata_collector import CorruptedProgramMetadataCollector
    program, flat = _program(h, [2, 1], cond=lambda a, k: h.int('v%d_%d' % (a, k), 0, 15))
    c, d = CorruptedProgramMetadataCollector(), CorruptedProgramMetadataCollector()
    d.collect({0: [flat[0][1]]})
    c.collect(program)
    x = h.int('removed', 0, 2)
    keep = []
    for k, f in enumerate(flat):
        if k == x:
            program[f[1].address].remove(f[1])
        else:
            keep.append(f)
    c.collect(program)
    p = h.int('p', 0, 15)
    _check(h, c.address_with_cond, 2, keep, lambda i, v: i.cond == v, p)
    _check(h, d.address_with_cond, 1, [(0,) + flat[0][1:]], lambda i, v: i.cond == v, p)


def mixed(h):
    from semantic_codec.metadata.metadata_collector import CorruptedProgramMetadataCollector
    program, flat = _program(h, [2, 1], cond=lambda a, k: h.int('c%d_%d' % (a, k), 14, 15),
                             op=lambda a, k: h.int('o%d_%d' % (a, k), 5, 6),
                             used=lambda a, k: [3] if h.bool('s%d_%d' % (a, k)) else [])
    c = CorruptedProgramMetadataCollector()
    c.collect(program)
    for p in (14, 15):
        _check(h, c.address_with_cond, 2, flat, lambda i, v: i.cond == v, p)
    for p in (5, 6):
        _check(h, c.address_with_op, 2, flat, lambda i, v: i.op == v, p)
    for p in (3, 18):
        _check(h, c.address_with_reg, 2, flat, lambda i, v: v in i.storages_used(), p)
