"""MetadataCollector: counts, distances and distinct encodings of a program."""
BOUNDS = ('programs of up to 4 instructions (5 thorough) with any condition 0..15, any opcode, any encoding, defined or not; '
          'storages read and written: up to two each per instruction for the counts, any of three storages (including memory, PC and '
          'the first and last numbers) for the distances over up to 4 instructions (5 thorough); a write and two reads anywhere in 40 instructions, many in 18 and 40 '
          '(300 thorough), 300 instructions (2000) all alike but two')
OUTSIDE = 'longer programs; storages beyond the architecture'
ASSUMES = ['the fields of an instruction are arbitrary (they come from stand-in instructions); their decoding is another property',
           'storages used by an instruction are distinct']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []
    for n in range(0, 4 if q else 5):
        out.append(Cfg('fields', dict(n=n)))
        out.append(Cfg('distinct', dict(n=n)))
    for shape in ([1], [2, 1], [1, 1, 1], [0, 1]) if q else ([1], [2, 1], [1, 1, 1], [0, 1], [2, 2], [3, 1]):
        out.append(Cfg('storages', dict(shape=shape), max_conc=100))
    for dom in ([0, 16], [19, 15]) if q else ([0, 16], [19, 15], [3, 4, 18], [0, 19, 16]):
        for n in (2, 3, 4) if q else (2, 3, 4, 5):
            if n > 3 and len(dom) > 2:
                continue
            if n > 3 and q:
                dom = dom[:1]
            out.append(Cfg('distances', dict(n=n, dom=dom)))
    out.append(Cfg('long', dict(n=40 if q else 300), max_conc=400))
    out.append(Cfg('crowd', dict(n=300 if q else 2000)))
    out.append(Cfg('pairs', dict(n=40 if q else 120), max_conc=1000))
    out.append(Cfg('pairs', dict(n=18), max_conc=400))
    out.append(Cfg('two', {}))
    out.append(Cfg('real', {}))
    return out


def _collect(insts):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    c = MetadataCollector()
    c.collect(insts)
    return c


def fields(h, n):
    from harness.fakes import fake_class
    F = fake_class()
    conds = [h.int('c%d' % k, 0, 15) for k in range(n)]
    ops = [h.int('o%d' % k, 0, 60) for k in range(n)]
    und = [h.bool('u%d' % k) for k in range(n)]
    c = _collect([F(4 * k, 5 + k, cond=conds[k], op=ops[k], read=[1], undefined=und[k]) for k in range(n)])
    for name, d, vals, hi in (('condition', c.condition_count, conds, 15), ('opcode', c.instruction_count, ops, 60)):
        p = h.int(name, 0, hi)
        want = sum([h.ite(h.all([v == p, u == False]), 1, 0) for v, u in zip(vals, und)])
        if p in d:
            h.check(d[p] == want, 'number of defined instructions with that ' + name)
            h.check(want > 0, 'no entry for a %s that does not occur' % name)
        else:
            h.check(want == 0, 'every %s that occurs is counted' % name)
        h.check(sum([x for x in d.values()]) == sum([h.ite(u, 0, 1) for u in und]), 'counts add up to the program')


def distinct(h, n):
    from harness.fakes import fake_class
    F = fake_class()
    enc = [h.int('e%d' % k, 0, 0xffffffff) for k in range(n)]
    und = [h.bool('u%d' % k) for k in range(n)]
    insts = [F(4 * k, enc[k], undefined=und[k]) for k in range(n)]
    c = _collect(insts)
    es = c.empty_spaces
    h.check(len(es) <= n, 'at most one entry per instruction')
    for a, b in zip(es, es[1:]):
        h.check(a.encoding > b.encoding, 'distinct encodings in descending order')
    for x in es:
        h.check(any([x is y for y in insts]), 'they are instructions of the program')
        h.check(not x.ignore, 'undefined instructions do not count')
    for k in range(n):
        h.check(h.any([und[k]] + [x.encoding == enc[k] for x in es]), 'every defined encoding is listed')


def storages(h, shape):
    from harness.fakes import fake_class
    F = fake_class()
    und = [h.bool('u%d' % k) for k in range(len(shape))]
    used, insts = [], []
    for k, n in enumerate(shape):
        u = [h.int('s%d_%d' % (k, j), 0, 19) for j in range(n)]
        for i in range(n):
            for j in range(i):
                h.assume(u[i] != u[j])
        used.append(u if n else [18])
        insts.append(F(4 * k, k, used=u, undefined=und[k]))
    c = _collect(insts)
    p = h.int('p', 0, 19)
    want = sum([h.ite(h.all([u == False, h.any([x == p for x in v])]), 1, 0) for v, u in zip(used, und)])
    d = c.storage_count
    if p in d:
        h.check(d[p] == want, 'number of defined instructions that use that storage')
        h.check(want > 0, 'no entry for a storage that is not used')
    else:
        h.check(want == 0, 'every storage used is counted')


def distances(h, n, dom):
    from harness.fakes import fake_class
    F = fake_class()
    und = [h.bool('u%d' % k) if k % 2 else False for k in range(n)]
    rd, wr, insts = [], [], []
    for k in range(n):
        r = [s for s in dom if bool(h.bool('r%d_%d' % (k, s)))] if k else []
        w = [s for s in dom if bool(h.bool('w%d_%d' % (k, s)))] if k < n - 1 else []
        rd.append(r)
        wr.append(w)
        insts.append(F(4 * k, k, read=r, written=w, undefined=und[k]))
    c = _collect(insts)
    live = [k for k in range(n) if not und[k]]
    for s in dom:
        ds = []
        for a in range(len(live)):
            if s not in wr[live[a]]:
                continue
            for b in range(a + 1, len(live)):
                if s in rd[live[b]]:
                    ds.append(b - a - 1)
                    break
                if s in wr[live[b]]:
                    break
        if not ds:
            h.check(s not in c.storage_min_dist and s not in c.storage_max_dist and s not in c.storage_mean_dist,
                    'no distance without a write followed by a read')
        else:
            h.check(s in c.storage_min_dist and c.storage_min_dist[s] == min(ds), 'minimum distance')
            h.check(s in c.storage_max_dist and c.storage_max_dist[s] == max(ds), 'maximum distance')
            h.check(s in c.storage_mean_dist and h.approx(c.storage_mean_dist[s], sum(ds) / len(ds)), 'mean distance')
    for d in (c.storage_min_dist, c.storage_max_dist, c.storage_mean_dist):
        for s in d:
            h.check(s in dom, 'distances only of storages in the program')


def long(h, n):
    """A storage written and read far apart."""
    from harness.fakes import fake_class
    F = fake_class()
    w = h.int('w', 0, n - 3)
    a = h.int('a', 1, n - 2)
    h.assume(w < a)
    w, a = h.concrete(w), h.concrete(a)
    b = n - 1
    c = _collect([F(4 * k, k, read=[3] if k in (a, b) else [], written=[3, 5] if k == w else [6]) for k in range(n)])
    h.check(c.storage_min_dist[3] == a - w - 1, 'minimum distance')
    h.check(c.storage_max_dist[3] == a - w - 1, 'maximum distance')
    h.check(h.approx(c.storage_mean_dist[3], a - w - 1), 'mean distance')
    h.check(5 not in c.storage_min_dist and 6 not in c.storage_max_dist, 'no distance without a read')
    h.check(c.storage_count[3] == 3 and c.storage_count[6] == n - 1, 'number of instructions that use a storage')


def pairs(h, n):
    """A storage written and read again and again, where a write and a read are anywhere."""
    from harness.fakes import fake_class
    F = fake_class()
    w, r = h.concrete(h.int('w', 0, n - 1)), h.concrete(h.pick('r', list(range(n // 2 - 3, n // 2 + 3)) + [n - 1]))
    writes = [k % 5 in (0, 3) and k < n - 6 or k == w for k in range(n)]
    reads = [k % 5 in (1, 4) and k % 3 == 1 or k == r for k in range(n)]
    c = _collect([F(4 * k, k, read=[3] if reads[k] else [], written=[3] if writes[k] else []) for k in range(n)])
    ds = []
    for a in range(n):
        b = a + 1
        while writes[a] and b < n and not reads[b] and not writes[b]:
            b += 1
        if writes[a] and b < n and reads[b]:
            ds.append(b - a - 1)
    h.check(c.storage_min_dist[3] == min(ds) and c.storage_max_dist[3] == max(ds), 'least and greatest distance of many')
    h.check(h.approx(c.storage_mean_dist[3], sum(ds) / len(ds)), 'mean distance of many')


def crowd(h, n):
    """Many instructions alike."""
    from harness.fakes import fake_class
    F = fake_class()
    x = [h.int('x%d' % k, 0, 15) for k in range(2)]
    u = h.bool('u')
    c = _collect([F(4 * k, k // 2, cond=x[k] if k < 2 else 14, op=x[k] if k < 2 else 5, read=[1], undefined=u if k == n - 1 else False)
                  for k in range(n)])
    rest = n - 2 - h.ite(u, 1, 0)
    for d, m in ((c.condition_count, 14), (c.instruction_count, 5)):
        h.check(d[m] == rest + h.ite(x[0] == m, 1, 0) + h.ite(x[1] == m, 1, 0), 'number of instructions')
        h.check(h.all([x[0] in d, x[1] in d]), 'all are counted')
    h.check(c.storage_count[1] == rest + 2, 'number of instructions that use a storage')
    h.check(len(c.empty_spaces) == n // 2, 'distinct encodings')


def two(h):
    """Collectors do not share anything."""
    from harness.fakes import fake_class
    F = fake_class()
    a, b = h.int('a', 0, 15), h.int('b', 0, 15)
    c1 = _collect([F(0, 1, cond=a, op=a, read=[], written=[1]), F(4, 2, cond=a, op=a, read=[1])])
    c2 = _collect([F(0, 3, cond=b, op=b)])
    h.check(len(c1.condition_count) == 1 and c1.condition_count[a] == 2, 'collectors are independent')
    h.check(len(c2.condition_count) == 1 and c2.condition_count[b] == 1, 'collectors are independent')
    h.check(len(c2.storage_min_dist) == 0 and len(c2.storage_mean_dist) == 0 and len(c2.storage_max_dist) == 0 and len(c2.empty_spaces) == 1 and len(c1.empty_spaces) == 2,
            'collectors are independent')


def real(h):
    """Decoded instructions: mov rD, #i ; add rE, rN, rM."""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    a = h.template('a', 'mov_i', 64)
    b = h.template('b', 'add_r', 68)
    i1, i2 = CAPSInstruction(a.enc, 64), CAPSInstruction(b.enc, 68)
    c = _collect([i1, i2])
    for i in (i1, i2):
        for s in i.storages_used():
            want = sum([h.ite(h.any([x == s for x in j.storages_used()]), 1, 0) for j in (i1, i2)])
            h.check(c.storage_count[s] == want, 'number of instructions that use that storage')
    h.check(c.condition_count[14] == 2, 'number of instructions with that condition')
