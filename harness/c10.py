"""predict_corruption: exactly the bits of the data carried by the lost packets."""
BOUNDS = ('1..5 packets (7 thorough) in every order with any distinct packet numbers, every set of one or two lost packets (three thorough) in any order; '
          'data of 1..4 words (1..8 thorough) symbolic; chunks of 1, 2, 4, 8, 16, 32 bits and of 3, 5, 7, 12 bits; '
          '17 to 40 words in 9 to 64 packets in the default order, every choice of one or two lost, or 20 to 30 of 24 to 48 (100 words, 257 packets and three thorough)')
OUTSIDE = 'more packets or longer data'
ASSUMES = ['the packet count is the length of the interleaving order', 'lost packets are packets of the order']
KEND = 'C10-end-of-word'


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []
    for p in range(1, 6 if q else 8):
        for w in (1, 2, 3, 5, 8, 12, 16, 32) if q else (1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 31, 32):
            for l in range(1, min(p, 2 if q else 3) + 1):
                if q and p > 3 and l > 1 and w not in (2, 5):
                    continue
                words = (4 if p < 4 else 3) if q else 8
                if w < 3:
                    words = min(words, 2 if q else 4)
                out.append(Cfg('predict', dict(p=p, w=w, lost=l, words=words), max_conc=200))
    for p, w, words, lost in ((16, 2, 20, 2), (64, 2, 24, 1), (21, 4, 17, 2), (9, 16, 40, 2), (40, 5, 33, 1)) if q else \
            ((16, 2, 60, 2), (64, 2, 80, 2), (21, 4, 50, 3), (9, 16, 100, 3), (40, 5, 70, 2), (257, 2, 40, 1)):
        out.append(Cfg('wide', dict(p=p, w=w, words=words, lost=lost), max_conc=800))
    for p, w, words, lost in ((40, 2, 6, 30), (24, 4, 7, 20), (48, 1, 5, 25)) + (() if q else ((100, 2, 30, 60), (64, 2, 20, 64))):
        out.append(Cfg('many', dict(p=p, w=w, words=words, lost=lost), max_conc=300))
    out.append(Cfg('none', {}))
    return out


def none(h):
    from semantic_codec.corruption.corruption import predict_corruption
    h.check(len(predict_corruption(3, 2, h.int('words', 1, 100), [0, 1, 2], [])) == 0, 'no losses, no errors')


def predict(h, p, w, lost, words):
    order = [h.int('o%d' % k, 0, p + 1) for k in range(p)]
    for i in range(p):
        for j in range(i):
            h.assume(order[i] != order[j])
    pos = [h.int('l%d' % k, 0, p - 1) for k in range(lost)]
    for i in range(lost):
        for j in range(i):
            h.assume(pos[i] != pos[j])
    _predict(h, p, w, words, order, [h.concrete(x) for x in pos])


def wide(h, p, w, words, lost):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    order, pos, last = [int(x) for x in build_2d_interleave_sp(p, True)], [], -1
    for k in range(lost):
        last = h.concrete(h.int('l%d' % k, last + 1, p - lost + k))
        pos.append(last)
    _predict(h, p, w, words, order, pos, words)


def many(h, p, w, words, lost):
    """Most packets are lost, reported in some order."""
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    order = [int(x) for x in build_2d_interleave_sp(p, True)]
    first = h.concrete(h.int('first', 0, p - 1))
    step = h.concrete(h.pick('step', [1, -1, 7, 11]))
    _predict(h, p, w, words, order, sorted(set([(first + step * k) % p for k in range(lost)]), key=lambda x: (x - first) * step % p), words)


def _predict(h, p, w, words, order, pos, size=None):
    from semantic_codec.corruption.corruption import predict_corruption
    size = size or h.int('size', 1, words)
    gone = [order[x] for x in pos]
    keep = list(order)
    res = predict_corruption(p, w, size, order, gone)
    h.check(len(order) == p and all([a is b for a, b in zip(order, keep)]), 'the order is not modified')
    size = h.concrete(size)
    total = 32 * size
    want, other = {}, {}
    for c in range((total + w - 1) // w):
        if c % p not in pos:
            continue
        b, e = c * w, c * w + w
        if h.known(KEND) and b % 32 + w >= 32:
            # recorded finding: bit 31 is never reported, bit 0 of the next word is instead
            x = (b // 32) * 32
            for k in list(range(b, x + 31)) + list(range(x + 32, x + 32 + (w - 31 + b % 32))):
                want[k] = want.get(k, 0) + 1
        else:
            for k in range(b, min(e, total)):
                want[k] = want.get(k, 0) + 1
    got = {}
    for t in res:
        h.check(len(t) in (2, 3), 'errors are (word, bit) or (word, bit, length)')
        n = t[2] if len(t) == 3 else w
        for k in range(n):
            k = 32 * t[0] + t[1] + k
            got[k] = got.get(k, 0) + 1
    for k in range(max([total + 32 + w] + list(got)) + 1):
        a, b = got.get(k, 0), want.get(k, 0)
        h.check((a > 0) == (b > 0), 'the bits reported are exactly those carried by the lost packets')
        h.check(a <= max(1, b), 'each bit is reported once')
