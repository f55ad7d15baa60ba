"""interleave / deinterleave without losses: the identity."""
BOUNDS = ('1..3 words of data (5 thorough) of any value; 1..6 packets (9 thorough) in every order of their numbers for up to 3 packets (4), '
          'in rotated and reversed orders beyond; 6 to 33 words in 6 to 64 packets (15 to 100 in up to 257 thorough) also in the default order; chunks of 1, 2, 4, 8, 16 and 32 bits')
OUTSIDE = 'chunk sizes that do not divide a word; more packets or data'
ASSUMES = ['the order lists every packet once']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []
    for w in (1, 2, 4, 8, 16, 32):
        for p in (1, 2, 3, 4, 5, 6) if q else range(1, 10):
            for n in (1, 2, 3) if q else range(1, 6):
                if q and (w == 1 and n > 1 or w == 2 and n > 2 and p not in (4, 5)):
                    continue
                sym = p <= (3 if q else 4) and (n * 32 // w <= 16)
                out.append(Cfg('identity', dict(w=w, p=p, n=n, sym=sym)))
    out.append(Cfg('identity', dict(w=8, p=5, n=2, sym=None)))
    for w, p, n in ((2, 64, 12), (8, 17, 20), (1, 40, 6), (32, 6, 15), (4, 21, 16), (16, 9, 33)) if q else \
            ((2, 64, 40), (8, 17, 60), (1, 40, 20), (32, 6, 70), (4, 21, 40), (16, 9, 80), (2, 257, 33), (4, 100, 100)):
        for sym in (None, False):
            out.append(Cfg('identity', dict(w=w, p=p, n=n, sym=sym)))
    return out


def identity(h, w, p, n, sym):
    from semantic_codec.interleaver.interleaver2d import interleave, deinterleave, build_2d_interleave_sp
    data = [h.int('d%d' % k, 0, 0xffffffff) for k in range(n)]
    if sym is None:
        order = build_2d_interleave_sp(p, flat=True)
    elif sym:
        order = [h.int('o%d' % k, 0, p - 1) for k in range(p)]
        for i in range(p):
            for j in range(i):
                h.assume(order[i] != order[j])
        order = [h.concrete(o) for o in order]
    else:
        order = [(3 * i + 1) % p if p % 3 else p - 1 - i for i in range(p)]
    keep, okeep = list(data), list(order)
    packets = interleave(data, order, w)
    h.check(len(data) == n and h.all([a == b for a, b in zip(data, keep)]), 'the data is not modified')
    h.check(len(packets) == p, 'one packet per entry of the order')
    chunks = n * 32 // w
    mask = (1 << w) - 1
    for k in range(p):
        mine = [(keep[c * w // 32] >> (c * w % 32)) & mask for c in range(k, chunks, p)]
        q = packets[int(order[k])]
        h.check(q.empty() == (not mine), 'a packet is empty exactly when it carries nothing')
        if mine:
            stream = 0
            for i, c in enumerate(mine):
                stream = stream | (c << (i * w))
            words = q.get_bytes()
            for i in range((len(mine) * w + 31) // 32):
                h.check(words[i] == ((stream >> (32 * i)) & 0xffffffff), 'a packet carries exactly its chunks')
    res, errors = deinterleave(packets, order, w)
    h.check(len(errors) == 0, 'no losses, no errors')
    h.check(len(res) in (n, n + 1), 'as many words as were sent, and at most one of padding')
    h.check(len(res) == n or res[n] == 0, 'the padding is zero')
    for k in range(n):
        h.check(res[k] == keep[k], 'the same words')
    h.check(len(order) == p and all([a == b for a, b in zip(order, okeep)]), 'the order is not modified')
