"""PacketCorruptor: every word becomes all the words it could have been."""
BOUNDS = ('programs of 1..3 instructions (4 thorough) with every encoding and every distinct addresses in any order; '
          '4..32 packets in a fixed or any order, one or two lost, chunks of 1..8 bits, at most 4 lost bits per word (6 with the bits lost fixed); '
          'programs of 9 to 20 instructions (40 thorough) at fixed addresses given in three orders, with up to 100 packets (160); '
          'one and two consecutive corruptions; a given order and the default one')
OUTSIDE = 'larger programs; more lost bits per word'
ASSUMES = ['the data size is the number of instructions of the program, as recover_program.py passes it']
KEND = 'C11-end-of-word'


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []

    def add(**k):
        k.setdefault('default', 0)
        k.setdefault('free', 0)
        out.append(Cfg('corrupt', k, max_conc=300))
    for n, p, w, lost in ((1, 16, 2, [3]), (2, 16, 2, [3]), (2, 16, 2, [15]), (2, 16, 2, [0]), (1, 16, 2, [7, 9]),
                          (1, 32, 1, [31]), (1, 32, 1, [0, 5, 30]), (1, 8, 4, [7]), (1, 8, 4, [2]), (2, 16, 3, [4]),
                          (3, 16, 3, [15]), (3, 24, 4, [9]), (2, 11, 3, [10]), (1, 32, 1, [4, 3])):
        add(n=n, p=p, w=w, lost=lost)
    add(n=1, p=32, w=2, lost=[7])
    add(n=1, p=32, w=2, lost=[7, 3])
    add(n=1, p=16, w=2, lost=[5], default=1)
    add(n=1, p=16, w=2, lost=[1], free=1)
    add(n=2, p=12, w=3, lost=[2], default=1)
    for n, p, w, lost in ((12, 40, 2, [0]), (9, 64, 2, [33, 60]), (20, 100, 1, [99])) + (() if q else ((40, 160, 2, [17]), (33, 64, 1, [0, 40]))):
        out.append(Cfg('wide', dict(n=n, p=p, w=w, lost=lost), max_conc=300))
    if not q:
        for lost in range(16):
            add(n=2, p=16, w=2, lost=[lost])
            add(n=1, p=16, w=2, lost=[lost, (lost * 3 + 1) % 16])
        for n, p, w, lost in ((4, 16, 2, [2]), (4, 64, 2, [33]), (3, 64, 2, [1, 2]), (4, 20, 5, [6]), (3, 9, 7, [8]),
                              (1, 8, 4, [7, 3]), (1, 16, 2, [1, 2, 3])):
            add(n=n, p=p, w=w, lost=lost)
    for n, lost in ((1, [0, 4, 9, 20, 30]), (1, [27, 3, 11, 5, 8, 16]), (2, [1, 2, 3, 4, 5])):
        out.append(Cfg('heavy', dict(n=n, lost=lost), max_conc=300, max_decisions=60000))
    out.append(Cfg('twice', dict(first=[3], second=[4]), max_conc=300))
    out.append(Cfg('twice', dict(first=[3], second=[3]), max_conc=300))
    out.append(Cfg('refuses', {}))
    return out


def _program(h, n):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    addr = [4 * h.int('addr%d' % k, 0, 0x3fffffff) for k in range(n)]
    for i in range(n):
        for j in range(i):
            h.assume(addr[i] != addr[j])
    enc = [h.int('enc%d' % k, 0, 0xffffffff) for k in range(n)]
    return {addr[k]: [CAPSInstruction(enc[k], addr[k])] for k in range(n)}, addr, enc


def _masks(h, n, p, w, positions):
    """Lost bits of each word, by the definition of interleaving."""
    m = [0] * (n + 2)
    for c in range((32 * n + w - 1) // w):
        if c % p not in positions:
            continue
        b = c * w
        if h.known(KEND) and b % 32 + w >= 32:
            x = (b // 32) * 32
            ks = list(range(b, x + 31)) + list(range(x + 32, x + 32 + (w - 31 + b % 32)))
        else:
            ks = range(b, min(b + w, 32 * n))
        for k in ks:
            m[k // 32] |= 1 << (k % 32)
    return m[:n]


def _subsets(mask):
    out = [0]
    for b in range(32):
        if mask >> b & 1:
            out = out + [x | (1 << b) for x in out]
    return out


def _inspect(h, prog, addr, enc, masks):
    n = len(addr)
    h.check(len(prog) == n, 'no address appears or disappears')
    for k in range(n):
        rank = h.concrete(sum([h.ite(addr[j] < addr[k], 1, 0) for j in range(n)]))
        v = prog[addr[k]]
        mask = masks[rank]
        h.check(len(v) == len(_subsets(mask)), 'one candidate per combination of the lost bits')
        for c in v:
            h.check(c.address == addr[k], 'candidates stay at the address')
            h.check(((c.encoding ^ enc[k]) & (0xffffffff ^ mask)) == 0, 'bits that arrived are not changed')
        for a, b in zip(v, v[1:]):
            h.check(a.encoding < b.encoding, 'candidates are distinct and sorted by encoding')
        h.check(h.any([c.encoding == enc[k] for c in v]), 'the original is among the candidates')


def corrupt(h, n, p, w, lost, default, free):
    from semantic_codec.corruption.corruptors import PacketCorruptor
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    prog, addr, enc = _program(h, n)
    if default:
        order = [int(x) for x in build_2d_interleave_sp(p, True)]
        given = None
    else:
        k = h.int('rot', 0, p - 1) if free else 3
        order = [(i * 5 + k) % p if p % 5 else i for i in range(p)]
        given = list(order)
    pos = [h.concrete(sum([h.ite(o == l, i, 0) for i, o in enumerate(order)])) for l in lost]
    res = PacketCorruptor(p if p % 3 else p - 0.5, n, given, list(lost), w).corrupt(prog)
    h.check(res is prog, 'the corrupted program is returned')
    _inspect(h, prog, addr, enc, _masks(h, n, p, w, pos))


def _order(p):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    return [int(x) for x in build_2d_interleave_sp(p, True)]


def wide(h, n, p, w, lost):
    """Larger programs at fixed addresses, given in any of a few orders."""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.corruption.corruptors import PacketCorruptor
    step = h.concrete(h.pick('order', [1, n - 1, 7]))
    addr = [0x10000 + 4 * k + (64 if k > n // 2 else 0) for k in range(n)]
    masks = _masks(h, n, p, w, [_order(p).index(l) for l in lost])
    free = [k for k in range(n) if masks[k]][-2:] + [n // 2]
    enc = [h.int('enc%d' % k, 0, 0xffffffff) if k in free else 0xe1a00000 + 0x01003007 * k for k in range(n)]
    prog = {}
    for k in range(n):
        k = k * step % n
        prog[addr[k]] = [CAPSInstruction(enc[k], addr[k])]
    PacketCorruptor(p, n, None, list(lost), w).corrupt(prog)
    h.check(len(prog) == n, 'no address appears or disappears')
    for k in range(n):
        v = prog[addr[k]]
        h.check(len(v) == len(_subsets(masks[k])), 'one candidate per combination of the lost bits')
        h.check(h.all([c.address == addr[k] for c in v]), 'candidates stay at the address')
        h.check(h.all([((c.encoding ^ enc[k]) & (0xffffffff ^ masks[k])) == 0 for c in v]), 'bits that arrived are not changed')
        h.check(h.all([a.encoding < b.encoding for a, b in zip(v, v[1:])]), 'candidates are distinct and sorted by encoding')
        h.check(h.any([c.encoding == enc[k] for c in v]), 'the original is among the candidates')


def heavy(h, n, lost):
    """Many lost bits in each word; the bits that arrive are free."""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.corruption.corruptors import PacketCorruptor
    p = 32
    order = [(5 * i + 3) % p for i in range(p)]
    masks = _masks(h, n, p, 1, [order.index(l) for l in lost])
    value = h.concrete(h.pick('value', [0, 0xffffffff, 0x5a5a5a5a]))
    x = [h.int('x%d' % k, 0, 0xffffffff) for k in range(n)]
    enc = [(x[k] & (0xffffffff ^ masks[k])) | (value & masks[k]) for k in range(n)]
    prog = {64 + 4 * k: [CAPSInstruction(enc[k], 64 + 4 * k)] for k in range(n)}
    PacketCorruptor(p, n, list(order), list(lost), 1).corrupt(prog)
    h.check(sorted(prog) == [64 + 4 * k for k in range(n)], 'no address appears or disappears')
    for k in range(n):
        got = [h.concrete(i.encoding ^ enc[k]) ^ (value & masks[k]) for i in prog[64 + 4 * k]]
        h.check(all([g & ~masks[k] == 0 for g in got]), 'bits that arrived are not changed')
        h.check(got == sorted(_subsets(masks[k])), 'one candidate per combination of the lost bits, sorted')
        h.check(all([i.address == 64 + 4 * k for i in prog[64 + 4 * k]]), 'candidates stay at the address')


def twice(h, first, second):
    from semantic_codec.corruption.corruptors import PacketCorruptor
    prog, addr, enc = _program(h, 1)
    order = list(range(16))
    PacketCorruptor(16, 1, list(order), first, 2).corrupt(prog)
    PacketCorruptor(16, 1, list(order), second, 2).corrupt(prog)
    a, b = _masks(h, 1, 16, 2, first), _masks(h, 1, 16, 2, second)
    _inspect(h, prog, addr, enc, [x | y for x, y in zip(a, b)])


def refuses(h):
    from semantic_codec.corruption.corruptors import PacketCorruptor
    prog, addr, enc = _program(h, 1)
    for lost in (None, []):
        try:
            PacketCorruptor(4, 1, [0, 1, 2, 3], lost, 2).corrupt(prog)
            h.check(False, 'without lost packets it refuses to run')
        except RuntimeError:
            h.check(len(prog[addr[0]]) == 1, 'a refused program is not touched')
