"""build_2d_interleave_sp: the order is a permutation of the packets."""
BOUNDS = ('1..40 packets and around every power of four and its multiples up to 300, and 511..513 and 1000..1025 (1..400 and 1000..1030 thorough), every position of the order '
          'and every packet number symbolic; squares of side 1..16 (32 thorough), every cell symbolic')
OUTSIDE = 'more packets'
ASSUMES = ['the number of packets is a whole number of at least one (as an int or a float)']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    ns = list(range(1, 41)) + [47, 48, 49, 63, 64, 65, 69, 79, 80, 81, 95, 127, 128, 129, 149, 192, 241, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025] \
        if q else list(range(1, 401)) + [1000, 1023, 1024, 1025, 1030]
    out = [Cfg('order', dict(n=n, f=n % 3 == 0)) for n in ns]
    out += [Cfg('square', dict(m=m)) for m in range(0, 5 if q else 6)]
    return out


def order(h, n, f):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    flat = build_2d_interleave_sp(float(n) if f else n, flat=True)
    rows = build_2d_interleave_sp(n)
    h.check(len(flat) == n, 'one position per packet')
    h.check(all([int(x) == x for x in flat]), 'packets have whole numbers')
    same = []
    for r in rows:
        same.extend(r)
    h.check(len(same) == n and all([a == b for a, b in zip(flat, same)]), 'both forms list the same order')
    flat = [int(x) for x in flat]
    i, j = h.int('i', 0, n - 1), h.int('j', 0, n - 1)
    h.check(h.all([flat[i] >= 0, flat[i] < n]), 'packet numbers lie between zero and the number of packets')
    if n > 1:
        h.assume(i != j)
        h.check(flat[i] != flat[j], 'no packet is sent twice')


def square(h, m):
    from semantic_codec.interleaver.interleaver2d import sucesive_packing
    w = 2 ** m
    a = sucesive_packing(m)
    h.check(len(a) == w and all([len(r) == w for r in a]), 'the square has the right side')
    a = [[int(x) for x in r] for r in a]
    cells = [x for r in a for x in r]
    i, j = h.int('i', 0, w - 1), h.int('j', 0, w - 1)
    k = h.int('k', 0, w * w - 1)
    v = cells[i * w + j]
    h.check(h.all([v >= 0, v < w * w]), 'numbers of the square')
    if m > 0:
        h.check(h.implies(k != i * w + j, cells[k] != v), 'no number twice')
        half = w // 2
        small = [int(x) for r in sucesive_packing(m - 1) for x in r]
        d = h.ite(i < half, h.ite(j < half, 0, 2), h.ite(j < half, 3, 1))
        i2, j2 = h.ite(i < half, i, i - half), h.ite(j < half, j, j - half)
        h.check(v == 4 * small[i2 * half + j2] + d, 'each quadrant is the smaller square times four plus 0, 2, 3 or 1')
