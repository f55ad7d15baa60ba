"""corrupt_program: the requested share, within the allowed errors, everything else untouched."""
BOUNDS = ('programs of 1..4 instructions (5 thorough) at any distinct addresses with any encodings; every percentage 0..100 (whole '
          'and half), up to 2 errors per instruction (3 thorough), every outcome of the draws with at most 3 repeated ones; '
          'programs of 25 to 60 instructions, and up to 5 errors per instruction, with fixed draws')
OUTSIDE = 'larger programs with free draws; programs that already have candidates; empty programs; more repeated draws'
ASSUMES = ['every random draw is an arbitrary value of the range asked for']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []
    for n in range(1, 4 if q else 5):
        for a in (0, 1) if n > 1 and q else (1, 2):
            out.append(Cfg('share', dict(n=n, a=a), rand_limit=n * (1 + a + (1 if n < 3 else 0)) + 2, max_conc=200))
    out.append(Cfg('share', dict(n=1, a=3), rand_limit=7))
    out.append(Cfg('half', dict(n=2), rand_limit=8))
    for n, pct in ((25, 28), (50, 14), (40, 0), (40, 100), (30, 50), (33, 1), (60, 34)):
        out.append(Cfg('fixed', dict(n=n, pct=pct)))
    out.append(Cfg('fixed', dict(n=30, pct=90, a=3)))
    out.append(Cfg('errors', dict(n=5, a=5), max_conc=200, max_decisions=60000))
    out.append(Cfg('rejected', {}))
    out.append(Cfg('defaults', {}))
    out.append(Cfg('default_errors', {}, rand_limit=7))
    return out


def _program(h, n):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    addr = [4 * h.int('addr%d' % k, 0, 0x3fffffff) for k in range(n)] if n < 5 else \
        [64 + 4 * k + (400 if k > n // 2 else 0) for k in range(n)]
    for i in range(n if n < 5 else 0):
        for j in range(i):
            h.assume(addr[i] != addr[j])
    enc = [h.int('enc%d' % k, 0, 0xffffffff) for k in range(n)]
    ori = [CAPSInstruction(enc[k], addr[k]) for k in range(n)]
    return {addr[k]: [ori[k]] for k in range(n)}, addr, enc, ori


def _inspect(h, prog, addr, enc, ori, amount, reach=True):
    hit = 0
    h.check(len(prog) == len(addr), 'no address appears or disappears')
    for k in range(len(addr)):
        v = prog[addr[k]]
        h.check(len(v) >= 1 and v[0] is ori[k], 'the original comes first')
        h.check(h.all([v[0].encoding == enc[k], v[0].address == addr[k]]), 'the original is not modified')
        if len(v) > 1:
            hit += 1
        union = 0
        for i in range(1, len(v)):
            h.check(v[i].address == addr[k], 'candidates stay at the address')
            d = v[i].encoding ^ enc[k]
            union = union | d
            h.check(h.all([d != 0, d >= 0, d <= 0xffffffff]), 'candidates differ from the original')
            for j in range(1, i):
                h.check(v[i].encoding != v[j].encoding, 'candidates are distinct')
        if len(v) > 1:
            pop = sum([(union >> i) & 1 for i in range(32)])
            h.check(pop <= max(1, amount), 'no more bits than allowed per instruction')
            h.check(len(v) == h.ite(pop == 1, 2, h.ite(pop == 2, 4, 8)), 'all combinations of the wrong bits')
            if amount > 0 and reach:
                h.reach(pop == amount, 'as many wrong bits as allowed')
                h.reach(pop == 1, 'a single wrong bit')
            for b in (0, 15, 31) if reach else ():
                h.reach((union >> b) & 1 == 1, 'bit %d is wrong' % b)
        if not reach:
            continue
        h.reach(len(v) > 1, 'instruction %d is corrupted' % k)
        if len(addr) > 1:
            h.reach(len(v) == 1, 'instruction %d is not corrupted' % k)
    return hit


def _expected(h, hit, n, pct100, scale):
    # ceil(max(1, n * pct / 100))
    lo = h.any([hit == 1, (hit - 1) * 100 * scale < n * pct100])
    h.check(h.all([hit >= 1, hit * 100 * scale >= n * pct100, lo]), 'exactly the requested share is corrupted')


def share(h, n, a):
    from semantic_codec.corruption.corruption import corrupt_program
    prog, addr, enc, ori = _program(h, n)
    pct = h.int('pct', 0, 100)
    corrupt_program(prog, pct, a)
    _expected(h, _inspect(h, prog, addr, enc, ori, a), n, pct, 1)


def half(h, n):
    from semantic_codec.corruption.corruptors import RandomCorruptor
    prog, addr, enc, ori = _program(h, n)
    pct = h.int('pct2', 0, 200)
    r = RandomCorruptor(pct / 2, 1, False).corrupt(prog)
    h.check(r is prog, 'the corrupted program is returned')
    _expected(h, _inspect(h, prog, addr, enc, ori, 1), n, pct, 2)


def fixed(h, n, pct, a=1):
    from semantic_codec.corruption.corruption import corrupt_program
    prog, addr, enc, ori = _program(h, n)
    h.fix_draws(n + pct)
    corrupt_program(prog, pct, a)
    h.free_draws()
    _expected(h, _inspect(h, prog, addr, enc, ori, a, reach=False), n, pct, 1)


def errors(h, n, a):
    """Many errors per instruction."""
    from semantic_codec.corruption.corruptors import RandomCorruptor
    prog, addr, enc, ori = _program(h, n)
    h.fix_draws(h.concrete(h.int('seed', 1, 24)))
    RandomCorruptor(100, a, False).corrupt(prog)
    h.free_draws()
    most = 0
    for k in range(n):
        v = prog[addr[k]]
        h.check(v[0] is ori[k] and h.all([v[0].encoding == enc[k], v[0].address == addr[k]]), 'the original is not modified')
        diff = [h.concrete(i.encoding ^ enc[k]) for i in v]
        union = 0
        for d in diff:
            union |= d
        bits = [b for b in range(32) if union >> b & 1]
        h.check(union >> 32 == 0 and 1 <= len(bits) <= a, 'no more bits than allowed per instruction')
        h.check(len(set(diff)) == len(diff) == 2 ** len(bits), 'all combinations of the wrong bits')
        most = max(most, len(bits))
    h.reach(most == a, 'as many wrong bits as allowed')
    h.reach(most == a - 1, 'less than allowed')


def defaults(h):
    # 20 percent: 21 of 105 instructions (19 percent would be 20, 21 percent 23)
    from semantic_codec.corruption.corruptors import RandomCorruptor
    prog, addr, enc, ori = _program(h, 105)
    h.fix_draws(1)
    RandomCorruptor(save_corrupted=False).corrupt(prog)
    h.free_draws()
    _expected(h, _inspect(h, prog, addr, enc, ori, 3, reach=False), 105, 20, 1)


def default_errors(h):
    from semantic_codec.corruption.corruptors import RandomCorruptor
    prog, addr, enc, ori = _program(h, 1)
    RandomCorruptor(save_corrupted=False).corrupt(prog)
    h.check(len(prog[addr[0]]) in (2, 4, 8), 'one to three errors unless asked for another amount')
    for n in (2, 4, 8):
        h.reach(len(prog[addr[0]]) == n, '%d candidates' % n)


def rejected(h):
    from semantic_codec.corruption.corruption import corrupt_program
    prog, addr, enc, ori = _program(h, 2)
    pct = h.int('pct', -1000, 1000)
    h.assume(h.any([pct < 0, pct > 100]))
    try:
        corrupt_program(prog, pct, 2)
    except RuntimeError:
        for k in range(2):
            h.check(len(prog[addr[k]]) == 1 and prog[addr[k]][0] is ori[k], 'a rejected program is not touched')
        return
    h.check(False, 'a percentage outside 0..100 is rejected')
