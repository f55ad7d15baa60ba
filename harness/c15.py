"""deinterleave with lost packets: the rest intact, the lost chunks zero and reported."""
BOUNDS = ('1..3 words of data (4 thorough) of any value; 1..5 packets (7 thorough), every subset of lost packets, every order for up to 3 packets (4) '
          'and rotated orders beyond; chunks of 2, 4, 8, 16 and 32 bits; losses as missing or empty (None) packets; '
          '10 to 33 words in up to 64 packets in the default order, every choice of one or two lost (70 words and three thorough)')
OUTSIDE = 'more packets or data; data whose end cannot be told because every packet of its last word, or every one after it, was lost'
ASSUMES = ['the order lists every packet once']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []
    for w in (2, 4, 8, 16, 32):
        for p in range(1, 6 if q else 8):
            for n in (1, 2, 3) if q else (1, 2, 3, 4):
                c = n * 32 // w
                if q and (c > 16 or c > 8 and p not in (2, 4)):
                    continue
                if not q and c > 32:
                    continue
                out.append(Cfg('lost', dict(w=w, p=p, n=n, sym=p <= (3 if q else 4) and c <= 8, mode=(w + p + n) % 2)))
    for w, p, n, lost in ((2, 64, 12, 1), (8, 17, 20, 2), (4, 21, 10, 2), (32, 6, 15, 2), (16, 9, 33, 1)) if q else \
            ((2, 64, 40, 1), (8, 17, 60, 2), (4, 21, 30, 3), (32, 6, 70, 2), (16, 9, 80, 2), (1, 40, 12, 2)):
        out.append(Cfg('wide', dict(w=w, p=p, n=n, lost=lost), max_conc=600))
    for p in (1, 2, 3, 4):
        for mode in (0, 1):
            out.append(Cfg('all_lost', dict(p=p, mode=mode)))
    return out


def _order(h, p, sym):
    if not sym:
        return [(3 * i + 1) % p if p % 3 else (i + 1) % p for i in range(p)]
    order = [h.int('o%d' % k, 0, p - 1) for k in range(p)]
    for i in range(p):
        for j in range(i):
            h.assume(order[i] != order[j])
    return [h.concrete(o) for o in order]


def lost(h, w, p, n, sym, mode):
    from semantic_codec.interleaver.interleaver2d import interleave
    data = [h.int('d%d' % k, 0, 0xffffffff) for k in range(n)]
    order = _order(h, p, sym)
    packets = interleave(data, order, w)
    gone = [h.bool('lost%d' % k) for k in range(p)]        # by position in the order
    gone = [h.concrete(h.ite(g, 1, 0)) == 1 for g in gone]
    _arrive(h, w, p, n, mode, data, order, packets, gone)


def wide(h, w, p, n, lost):
    from semantic_codec.interleaver.interleaver2d import interleave, build_2d_interleave_sp
    data = [h.int('d%d' % k, 0, 0xffffffff) for k in range(n)]
    order = [int(x) for x in build_2d_interleave_sp(p, True)]
    packets = interleave(data, order, w)
    gone, last = [False] * p, -1
    for k in range(lost):
        last = h.concrete(h.int('lost%d' % k, last + 1, p - lost + k))
        gone[last] = True
    _arrive(h, w, p, n, 0, data, order, packets, gone)


def _arrive(h, w, p, n, mode, data, order, packets, gone):
    from semantic_codec.interleaver.interleaver2d import deinterleave
    chunks = n * 32 // w
    left = [k for k in range(p) if not gone[k]]
    h.assume(len(left) > 0)
    if chunks % p:
        # the end of the data can be told: a packet of its last word arrived, and one of those after its end
        h.assume(any(k >= chunks % p for k in left))
        h.assume(any(c % p in left for c in range(chunks - 32 // w, chunks)))
    for k in range(p):
        if gone[k]:
            if (mode + k) % 2:
                packets[order[k]] = None
            else:
                del packets[order[k]]
    res, errors = deinterleave(packets, order, w)
    h.check(len(res) in (n, n + 1), 'as many words as were sent, and at most one of padding')
    h.check(len(res) == n or res[n] == 0, 'the padding is zero')
    mask = (1 << w) - 1
    want = []
    for c in range(chunks):
        b = c * w
        got = (res[b // 32] >> (b % 32)) & mask
        if gone[c % p]:
            want.append((b // 32, b % 32))
            h.check(got == 0, 'a lost chunk is zero')
        else:
            h.check(got == ((data[b // 32] >> (b % 32)) & mask), 'chunks that arrived are intact')
    h.check([tuple(e) for e in errors] == want, 'exactly the lost chunks are reported, in order')


def all_lost(h, p, mode):
    from semantic_codec.interleaver.interleaver2d import interleave, deinterleave
    data = [h.int('d0', 0, 0xffffffff)]
    order = _order(h, p, True)
    packets = interleave(data, order, 8)
    for k in range(p):
        if mode:
            packets[order[k]] = None
        else:
            del packets[order[k]]
    try:
        deinterleave(packets, order, 8)
    except RuntimeError:
        return h.check(True, 'reported')
    h.check(False, 'losing every packet is reported')
