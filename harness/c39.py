"""build_2d_interleave_matrix_blaum: the cells of a packet are as far from each other as announced."""
BOUNDS = ('every cell and every pair of cells (solver variables) of matrices of up to 16 x 14 cells (24 x 20 thorough), messages of every number of 1..13 packets (1..25 thorough), '
          'and 25 with one packet size; one or both of the sides given')
OUTSIDE = 'larger matrices; messages that are not a whole number of packets; the distance in messages whose packets are not (t*t+1)/2 for an odd t'
ASSUMES = ['the message has at least one packet']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []
    for m in range(1, 14 if q else 26):
        out.append(Cfg('rows', dict(m=m, w=16 if q else 24, hh=6 if q else 10), max_conc=2000))
    for t in (3, 5, 7):
        if not (q and t == 7):
            out.append(Cfg('far', dict(t=t, w=2 * t + 3, hh=2 * t + 2), max_conc=2000))
    if q:
        out.append(Cfg('far', dict(t=7, w=8, hh=8), max_conc=2000))
    out.append(Cfg('shape', {}))
    return out


def _cell(h, M, x, y, w):
    """The packet of a cell whose position is a solver variable."""
    v = M[0][0]
    for j in range(len(M)):
        for i in range(w):
            v = h.ite(h.all([x == i, y == j]), M[j][i], v)
    return v


def _make(h, m, w, hh):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_matrix_blaum
    size = h.concrete(h.pick('size', [1, 16]))
    return build_2d_interleave_matrix_blaum(m * size, size, data_width=w, data_height=hh)


def rows(h, m, w, hh):
    M = _make(h, m, w, hh)
    h.check(len(M) == hh and all([len(r) == w for r in M]), 'the matrix has the size asked for')
    x, y, d = h.int('x', 0, w - 1), h.int('y', 0, hh - 1), h.int('d', 1, max(1, min(m, w) - 1))
    v = _cell(h, M, x, y, w)
    h.check(h.all([v >= 0, v < m]), 'every cell has one of the packets')
    if m == 1:
        return
    h.assume(x + d < w)
    h.assume(d < m)
    h.check(v != _cell(h, M, x + d, y, w), 'as many cells in a row as packets have different packets')


def far(h, t, w, hh):
    """For (t*t+1)/2 packets, t odd, two cells of a packet are at least t apart."""
    M = _make(h, (t * t + 1) // 2, w, hh)
    x, y, a, b = h.int('x', 0, w - 1), h.int('y', 0, hh - 1), h.int('a', -t, t), h.int('b', 0, t)
    h.assume(h.all([x + a >= 0, x + a < w, y + b < hh]))
    h.assume(h.any([a != 0, b != 0]))
    dist = h.ite(a < 0, -a, a) + b
    h.assume(dist < t)
    h.check(_cell(h, M, x, y, w) != _cell(h, M, x + a, y + b, w), 'two cells of a packet are at least t apart')


def shape(h):
    """The side that is not given follows from the size of the message, a cell for each unit of it."""
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_matrix_blaum
    w, n = h.concrete(h.pick('w', [1, 2, 4, 8])), h.concrete(h.pick('n', [1, 2, 3]))
    give = h.concrete(h.pick('give', ['width', 'height', 'none']))
    given = {'width': dict(data_width=w), 'height': dict(data_height=n), 'none': {}}[give]
    size = h.concrete(h.pick('size', [1, n]))
    try:
        M = build_2d_interleave_matrix_blaum(w * n, size, **given)
    except RuntimeError:
        h.check(give == 'none', 'one of the sides is enough')
        return
    h.check(give != 'none', 'one of the sides is needed')
    h.check(len(M) == n and all([len(r) == w for r in M]), 'the matrix has a cell for each unit of the message')
