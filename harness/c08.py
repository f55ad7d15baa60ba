"""Candidate generators: exactly the words reachable by the allowed flips."""
import itertools
BOUNDS = ('every 32-bit original word; every range lo..hi of up to 4 bits (quick) / 6 bits (thorough) at every position and some of 6 to 10, '
          'up to eight disjoint ranges; random flips of 1..3 bits (4 thorough) over every outcome of the draws '
          '(at most 3 repeated draws), 6 and 8 bits with fixed draws; corrupt_instruction with every combination of fields and amounts 1..2; every way to share up to 3 errors among 3 fields')
OUTSIDE = 'wider ranges; more repeated draws than the bound; undefined candidates other than those of the templates'
ASSUMES = ['every random draw is an arbitrary value of the range asked for',
           'a decoder answers "undefined" arbitrarily but consistently per word']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []
    for w in range(0, 4 if q else 6):
        for lo in range(0, 33 - w, 1 if w < 3 or not q else 7):
            out.append(Cfg('bits', dict(lo=lo, hi=lo + w)))
    out.append(Cfg('bits', dict(lo=28, hi=32)))
    for lo, hi in ((3, 9), (26, 32)) if q else ((3, 9), (26, 32), (0, 7), (12, 20), (24, 32)):
        out.append(Cfg('bits', dict(lo=lo, hi=hi)))
    tl = [[(0, 2)], [(0, 2), (4, 6)], [(30, 32), (0, 1)], [(0, 1), (31, 32), (15, 17)], [(5, 5), (7, 9)], [(8, 11)],
          [(3, 4), (4, 5), (5, 6)], [], [(k, k + 1) for k in range(0, 32, 4)], [(20, 30)], [(31, 32), (0, 4), (10, 13)]]
    if not q:
        tl += [[(a, a + 2), (b, b + 2)] for a in range(0, 30, 3) for b in range(a + 2, 31, 5)] + [[(0, 3), (29, 32)]]
    for t in tl:
        out.append(Cfg('tuples', dict(t=t)))
    for lo, hi in ((-1, 2), (2, 33), (5, 3), (0, 40), (33, 35)):
        out.append(Cfg('badrange', dict(lo=lo, hi=hi)))
    for n in range(0, 4 if q else 5):
        out.append(Cfg('flips', dict(n=n), rand_limit=n + (3 if n < 3 else 1)))
    for n in (6, 8):
        out.append(Cfg('many', dict(n=n, f='flips'), max_conc=300, max_decisions=200000))
    out.append(Cfg('many', dict(n=8, f='op'), max_conc=300, max_decisions=200000))
    for f in ('cond', 'reg', 'op'):
        for n in (1, 2):
            out.append(Cfg('fields', dict(f=f, n=n), rand_limit=n + 2))
    out.append(Cfg('fields', dict(f='cond', n=4), rand_limit=5))
    for amount in (0, 1, 2, 3, 5):
        for bins in (1, 2, 3):
            out.append(Cfg('distribute', dict(amount=amount, bins=bins), rand_limit=10))
    for c in (0, 1):
        for r in (0, 1):
            for o in (0, 1):
                if c + r + o:
                    for amount in ((1, 2), (2,), (1,))[c + r + o - 1] if q else (0, 1, 2, 3):
                        out.append(Cfg('instruction', dict(c=c, r=r, o=o, amount=amount),
                                       rand_limit=amount + 3 * (c + r + o)))
    out.append(Cfg('defaults', {}, rand_limit=5))
    return out


def defaults(h):
    from semantic_codec.corruption.corruption import corrupt_instruction
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    x = h.int('x', 0, 0xffffffff)
    ori = CAPSInstruction(x, 4096)
    prog = {4096: [ori]}
    res = corrupt_instruction(prog, ori, 4096)
    h.check(res is prog[4096] and res[0] is ori and ori.encoding == x, 'the original comes first')
    h.check(len(res) <= 4, 'two errors unless asked for another amount')
    for i in range(1, len(res)):
        d = res[i].encoding ^ x
        h.check((d & 0x0fffffff) == 0, 'only the condition changes unless asked for other fields')
        for j in range(i):
            h.check(res[i].encoding != res[j].encoding, 'candidates are distinct')
    h.reach(len(res) == 4, 'two errors are possible')


def _exact(h, res, x, bits):
    n = len(bits)
    h.check(len(res) == 2 ** n, 'one candidate per combination of flips')
    mask = sum([1 << b for b in bits])
    h.check(res[0] == x, 'the original comes first')
    diffs = [h.concrete(r ^ x) for r in res]
    h.check(all([d & ~mask == 0 for d in diffs]), 'bits outside the range never change')
    h.check(len(set(diffs)) == 2 ** n, 'candidates are distinct')


def bits(h, lo, hi):
    from semantic_codec.corruption.corruption import corrupt_all_bits
    x = h.int('x', 0, 0xffffffff)
    _exact(h, corrupt_all_bits(lo, hi, x), x, range(lo, hi))


def tuples(h, t):
    from semantic_codec.corruption.corruption import corrupt_all_bits_tuples
    x = h.int('x', 0, 0xffffffff)
    t = [tuple(a) for a in t]
    keep = list(t)
    res = corrupt_all_bits_tuples(t, x)
    h.check(t == keep, 'the ranges given are not modified')
    _exact(h, res, x, [b for l, u in t for b in range(l, u)])


def badrange(h, lo, hi):
    from semantic_codec.corruption.corruption import corrupt_all_bits_tuples
    x = h.int('x', 0, 0xffffffff)
    try:
        corrupt_all_bits_tuples([(0, 1), (lo, hi)], x)
    except RuntimeError:
        return h.check(True, 'rejected')
    h.check(False, 'a range outside the word is rejected')


def _popcount(h, v, lo, hi):
    return sum([(v >> i) & 1 for i in range(lo, hi + 1)])


def _random(h, res, x, n, lo, hi):
    h.check(len(res) == 2 ** n, 'two to the number of bits candidates')
    h.check(res[0] == x, 'the original comes first')
    union = 0
    for i in range(len(res)):
        d = res[i] ^ x
        union = union | d
        for j in range(i):
            h.check(res[i] != res[j], 'candidates are distinct')
    mask = (1 << (hi + 1)) - (1 << lo)
    h.check((union & (0xffffffff ^ mask)) == 0, 'only bits of the range change')
    h.check(_popcount(h, union, lo, hi) == n, 'exactly the requested number of bits is involved')
    for b in range(lo, hi + 1) if n else ():
        h.reach((union >> b) & 1 == 1, 'bit %d is flipped' % b)


def flips(h, n):
    from semantic_codec.corruption.corruption import corrupt_bits
    x = h.int('x', 0, 0xffffffff)
    _random(h, corrupt_bits(31, 0, n, x), x, n, 0, 31)


def many(h, n, f):
    """Many flips, with draws that are always the same."""
    from semantic_codec.corruption.corruption import corrupt_bits, corrupt_opcode
    x = h.int('x', 0, 0xffffffff)
    h.fix_draws(h.concrete(h.int('seed', 1, 3 if n > 6 else 5)))
    res = corrupt_bits(31, 0, n, x) if f == 'flips' else corrupt_opcode(n, x)
    h.free_draws()
    h.check(len(res) == 2 ** n, 'two to the number of bits candidates')
    h.check(res[0] == x, 'the original comes first')
    diff = [h.concrete(r ^ x) for r in res]
    union = 0
    for d in diff:
        union |= d
    bits = [b for b in range(32) if union >> b & 1]
    h.check(union >> 32 == 0 and len(bits) == n, 'exactly the requested number of bits is involved')
    h.check(f == 'flips' or union == 0x0ff00000, 'only bits of the range change')
    h.check(len(set(diff)) == 2 ** n, 'candidates are distinct')


def fields(h, f, n):
    from semantic_codec.corruption.corruption import corrupt_conditional, corrupt_registers, corrupt_opcode
    x = h.int('x', 0, 0xffffffff)
    fn, lo, hi = dict(cond=(corrupt_conditional, 28, 31), reg=(corrupt_registers, 0, 10),
                      op=(corrupt_opcode, 20, 27))[f]
    _random(h, fn(n, x), x, n, lo, hi)


def distribute(h, amount, bins):
    from semantic_codec.corruption.corruption import distribute_random_amount
    r = distribute_random_amount(amount, bins)
    h.check(len(r) == bins, 'one share per bin')
    for v in r:
        h.check(v >= 0, 'shares are not negative')
    t = sum(r)
    h.check(t <= amount, 'the shares never exceed the amount')
    for b in range(bins):
        h.reach(r[b] == amount, 'share %d may be the whole amount' % b)
        if bins > 1:
            for v in range(amount):
                h.reach(r[b] == v, 'share %d may be %d' % (b, v))
    if bins == 1 or amount > 3:
        return
    for shares in itertools.product(range(amount + 1), repeat=bins):
        if sum(shares) <= amount:
            h.reach(h.all([r[b] == shares[b] for b in range(bins)]), 'the shares may be %r' % (shares,))


def instruction(h, c, r, o, amount):
    from semantic_codec.corruption.corruption import corrupt_instruction
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    x = h.int('x', 0, 0xffffffff)
    ori = CAPSInstruction(x, 4096)
    other = CAPSInstruction(0xe1a00000, 4100)
    prog = {4096: [ori], 4100: [other]}
    res = corrupt_instruction(prog, ori, 4096, conditional=bool(c), registers=bool(r), opcode=bool(o), amount=amount)
    h.check(res is prog[4096] and len(prog) == 2 and len(prog[4100]) == 1 and prog[4100][0] is other,
            'only the address asked for is corrupted')
    h.check(res[0] is ori and ori.encoding == x, 'the original comes first')
    h.check(len(res) <= 2 ** amount, 'no more candidates than the errors allow')
    mask = (0xf0000000 if c else 0) | (0x7ff if r else 0) | (0x0ff00000 if o else 0)
    for i in range(len(res)):
        d = res[i].encoding ^ x
        h.check((d & (0xffffffff ^ mask)) == 0, 'only the allowed fields change')
        h.check(res[i].address == 4096, 'candidates stay at the address')
        if i:
            h.check(not res[i].ignore, 'undefined candidates are not added')
        for j in range(i):
            h.check(res[i].encoding != res[j].encoding, 'candidates are distinct')
        h.check(sum([(d >> k) & 1 for k in range(32) if mask >> k & 1]) <= amount, 'no more bits than the amount')
        for k in (0, 10, 20, 27, 28, 31) if amount else ():
            if mask >> k & 1:
                h.reach((d >> k) & 1 == 1, 'bit %d is flipped' % k)
    if amount > 1:
        h.reach(len(res) == 2 ** amount, 'all the errors may be used')
