"""Shift and swap compressors: the lost bits, and only those, are removed or cleared."""
BOUNDS = ('data of 0..3 words with symbolic content; groups at every bit of the data and beyond it, symbolic: one group, two groups in '
          'both orders (also overlapping or equal), three groups (at 9 bits around a word limit, 25 thorough), of 1..5 bits with and without an explicit size; '
          '9 and 40 groups in 12 and 10 words (200, 40 thorough) of which one is at any of 35 bits; the groups predicted for every single lost packet of 4 and 16 packets')
OUTSIDE = 'more words and groups'
ASSUMES = ['a bit position belongs to one word (0..31)']
KINDS = ('shift', 'swap')


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []
    for kind in KINDS:
        out += [Cfg('none', dict(kind=kind, words=w)) for w in (1, 2, 3)]
        out += [Cfg('one', dict(kind=kind, words=w, size=s, default=d), max_conc=100) for w in (1, 2) for s, d in
                ((0, 2), (1, 2), (3, 2), (0, 1), (0, 5), (4, 3))]
        out += [Cfg('several', dict(kind=kind, words=1, n=2, sizes=s, default=d, hi=33,
                                       lo=0 if not q else 10 if s == (0, 0) else 24)) for s, d in
                (((0, 0), 2), ((0, 1), 2), ((3, 0), 1), ((2, 3), 4))]
        out += [Cfg('several', dict(kind=kind, words=2, n=3, sizes=(0, 1, 0), default=2, lo=27 if q else 20, hi=35 if q else 44))]
        if not q:
            out += [Cfg('several', dict(kind=kind, words=2, n=2, sizes=s, default=d, hi=66, lo=0), max_conc=100) for s, d in (((0, 0), 2), ((3, 0), 1))]
            out += [Cfg('several', dict(kind=kind, words=1, n=3, sizes=(0, 0, 0), default=2, hi=24, lo=0))]
        out += [Cfg('predicted', dict(kind=kind, packets=p, words=w)) for p, w in ((4, 1), (16, 2), (16, 3))]
        out += [Cfg('many', dict(kind=kind, words=w, n=n), max_conc=1400) for w, n in ((12, 9), (10, 40)) + (() if q else ((40, 30), (12, 200)))]
    return out


def _run(h, kind, groups, data, default):
    from semantic_codec.compressor.shiftcompressor import ShiftCompressor, SwapCompressor
    given, words = list(groups), list(data)
    c = (ShiftCompressor if kind == 'shift' else SwapCompressor)(groups, data, default)
    c.compress()
    out = c.compressed_buffer
    h.check(len(groups) == len(given) and all([a is b for a, b in zip(groups, given)]), 'the list of groups is left alone')
    h.check(len(data) == len(words) and h.all([a == b for a, b in zip(data, words)]), 'the data is left alone')
    lost = set()
    for g in given:
        k = h.concrete(g[0] * 32 + g[1])
        lost.update(range(k, k + (g[2] if len(g) > 2 else default)))
    bits = [(k, (w >> b) & 1) for k, w, b in [(32 * i + b, w, b) for i, w in enumerate(words) for b in range(32)]]
    if kind == 'shift':
        left = [b for k, b in bits if k not in lost]
    else:
        left = [0 if k in lost else b for k, b in bits]
    while len(left) % 8:
        left.append(0)
    h.check(len(out) == len(left) // 8, 'the size of the compressed data')
    got = list(out)
    ok = []
    for k, b in enumerate(left):
        ok.append(((got[k // 8] >> (k % 8)) & 1) == b)
    h.check(h.all(ok), 'exactly the lost bits are removed' if kind == 'shift' else 'exactly the lost bits are cleared')
    first = out
    c.compress()
    h.check(len(c.compressed_buffer) == len(first) and h.all([a == b for a, b in zip(list(c.compressed_buffer), list(first))]),
            'compressing again gives the same')


def _data(h, words):
    return [h.int('w%d' % i, 0, 0xffffffff) for i in range(words)]


def none(h, kind, words):
    _run(h, kind, [], _data(h, words), 2)


def _group(h, name, lo, hi, size):
    k = h.concrete(h.int(name, lo, hi))
    return (k // 32, k % 32, size) if size else (k // 32, k % 32)


def one(h, kind, words, size, default):
    _run(h, kind, [_group(h, 'at', 0, words * 32 + 2, size)], _data(h, words), default)


def several(h, kind, words, n, sizes, default, hi, lo):
    _run(h, kind, [_group(h, 'at%d' % i, lo, hi, sizes[i]) for i in range(n)], _data(h, words), default)


def many(h, kind, words, n):
    k = h.pick('which', [0, n // 2, n - 1])
    step = max(1, words * 32 // n)
    groups = [((j * step + j % 3) // 32, (j * step + j % 3) % 32) for j in range(n)]
    groups[k] = _group(h, 'at', words * 31 * k // n, words * 31 * k // n + 34, 0)
    if k % 2:
        groups.reverse()
    _run(h, kind, groups, _data(h, words), 2)


def predicted(h, kind, packets, words):
    from semantic_codec.corruption.corruption import predict_corruption
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    order = build_2d_interleave_sp(packets, flat=True)
    lost = h.concrete(h.int('lost', 0, packets - 1))
    _run(h, kind, predict_corruption(packets, 2, words, order, [lost]), _data(h, words), 2)
