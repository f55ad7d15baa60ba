"""Huffman codes: prefix-free, one per symbol, of minimal total length; frequencies of the parts of instructions."""
import itertools

from harness.fakes import fake_class

BOUNDS = ('1..4 symbols (5 thorough), and 5 (6) in ascending order, with symbolic frequencies (any real number of 0..1000); compared with every assignment of code lengths that a prefix-free '
          'code can have; 8 and 20 symbols (60 thorough) of which one has any frequency, compared with merging the two least again and again; frequency counts of 1..3 instructions with 0..2 symbolic registers each, or symbolic opcodes, or symbolic conditions')
OUTSIDE = 'more symbols; programs without any symbol; changing the registers of instructions (needs the darm library, which is not shipped)'
ASSUMES = ['frequencies are not negative']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = [Cfg('codes', dict(n=n, order=o)) for n in range(1, 5 if q else 6) for o in ('up', 'down') if n < 5 or o == 'up']
    out += [Cfg('codes', dict(n=5 if q else 6, order='sorted'))]
    out += [Cfg('many', dict(n=n, free=f), max_conc=100) for n in ((8, 20) if q else (8, 20, 60)) for f in (0, n // 2, n - 1)]
    out += [Cfg('strings', dict(n=n)) for n in (2, 3)]
    for shape in ([(0,), (0, 0), (0, 0, 0), (1,), (2,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (2, 2)] if q else
                  [(0,), (0, 0), (0, 0, 0), (0, 0, 0, 0), (1,), (2,), (3,), (1, 1), (2, 1), (2, 2), (1, 1, 1), (2, 1, 1), (0, 2, 1)]):
        for what in ('registers', 'opcodes', 'conditions'):
            if what == 'registers' or max(shape) == 0:
                out.append(Cfg('count', dict(shape=shape, what=what)))
    return out


def _check_codes(h, freq, huff, size):
    n = len(freq)
    h.check(sorted([p[0] for p in huff]) == sorted(freq), 'one code per symbol')
    codes = [p[1] for p in huff]
    for c in codes:
        h.check(len(c) == len([x for x in c if x in '01']), 'codes are made of zeros and ones')
    for i in range(n):
        for j in range(n):
            if i != j:
                h.check(not codes[j].startswith(codes[i]), 'no code is the start of another')
    others = []
    total = 0
    for s, c in huff:
        total = total + freq[s] * len(c)
    h.check(size == total, 'the size is the total length of the codes of the text')
    # The lengths of the codes of any prefix-free code satisfy the inequality of Kraft and McMillan; the shortest ones with equality
    for lens in _lengths(n):
        other = 0
        for s, l in zip(sorted(freq), lens):
            other = other + freq[s] * l
        others.append(size <= other)
    h.check(h.all(others), 'no prefix-free code is shorter')


def _lengths(n):
    """All assignments of lengths to n symbols in full binary trees"""
    if n == 1:
        return [(0,)]
    return [p for p in itertools.product(range(1, n), repeat=n) if sum([2 ** (n - l) for l in p]) == 2 ** n]


def codes(h, n, order):
    from semantic_codec.compressor.huffman import encode, huffman_size
    names = list(range(n))
    if order == 'down':
        names.reverse()
    freq = dict([(s, h.real('f%d' % s, 0, 1000)) for s in names])
    if order == 'sorted':
        for a, b in zip(names, names[1:]):
            h.assume(freq[a] <= freq[b])
    before = dict(freq)
    huff = encode(freq)
    _check_codes(h, before, huff, huffman_size(freq))
    h.check(huffman_size(freq, huff) == huffman_size(freq), 'the size does not depend on giving the codes')
    h.check(len(freq) == n and h.all([freq[s] == before[s] for s in names]), 'the frequencies are left alone')


def many(h, n, free):
    """Many symbols: the least total is the sum of the weights got by merging the two least frequent again and again"""
    from semantic_codec.compressor.huffman import encode, huffman_size
    x = h.real('f', 0, 100000)
    freq = dict([(s, x if s == free else 1 + (s * 37) % 101 * (1 + s % 3)) for s in range(n)])
    huff = encode(freq)
    h.check(sorted([p[0] for p in huff]) == list(range(n)), 'one code per symbol')
    codes = [p[1] for p in huff]
    h.check(all([set(c) <= set('01') for c in codes]), 'codes are made of zeros and ones')
    h.check(not any([j != i and codes[j].startswith(codes[i]) for i in range(n) for j in range(n)]), 'no code is the start of another')
    left, best = list(freq.values()), 0
    while len(left) > 1:
        left.sort()
        both = left.pop(0) + left.pop(0)
        left.append(both)
        best = best + both
    total = sum([freq[s] * len(c) for s, c in huff])
    h.check(h.approx(total, best), 'no prefix-free code is shorter')
    h.check(h.approx(huffman_size(freq), total), 'the size is the total length of the codes of the text')


def strings(h, n):
    """Symbols of a text instead of numbers"""
    from semantic_codec.compressor.huffman import encode, huffman_size
    names = ['e', 'a', 'x'][:n]
    freq = dict([(s, h.int('f_' + s, 1, 1000)) for s in names])
    _check_codes(h, freq, encode(freq), huffman_size(freq))


def count(h, shape, what):
    from semantic_codec.compressor.huffman import InstructionPartFrequencyCounter
    F = fake_class()
    program, regs, conds, ops = [], [], [], []
    for k, n in enumerate(shape):
        r = [h.int('r%d_%d' % (k, j), 0, 16) for j in range(n)]
        i = F(4 * k, h.int('enc%d' % k, 0, 0xffffffff), h.int('cond%d' % k, 0, 14) if what == 'conditions' else k,
              h.int('op%d' % k, 0, 31) if what == 'opcodes' else k, used=r)
        i.registers_used = lambda r=r: list(r)
        program.append(i)
        regs.append(r)
        conds.append([i.cond])
        ops.append([i.op])
    c = InstructionPartFrequencyCounter()
    c.count(program)
    for name, freq, having, parts, top in (('registers', c.reg_frequency, c.reg_with, regs, 16),
                                           ('opcodes', c.opcode_frequency, c.opcode_with, ops, 31),
                                           ('conditions', c.cond_frequency, c.cond_with, conds, 14)):
        if name != what:
            continue
        v = h.int('value_' + what, 0, top)
        uses = [[h.ite(x == v, 1, 0) for x in p] for p in parts]
        total = sum([sum(u) for u in uses])
        if v in freq:
            h.check(h.all([freq[v] == total, total > 0]), 'the frequency of %s counts every occurrence' % what)
            h.check(v in having, 'the instructions are known of every value counted')
            for k, u in enumerate(uses):
                times = len([x for x in having[v] if x is program[k]])
                h.check(times <= 1, 'an instruction is listed once per value')
                h.check(h.iff(times == 1, sum(u) > 0), 'exactly the instructions with the value are listed')
            h.check(len(having[v]) <= len(shape), 'nothing else is listed')
        else:
            h.check(h.all([total == 0, v not in having]), 'every value that occurs is counted (%s)' % what)
