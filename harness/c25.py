"""Solution files: written and read back."""
BOUNDS = ('programs of 0..3 addresses with up to 4 candidates each (4 thorough), every 32-bit address and encoding, the original anywhere, '
          'given as list or as map; 40 addresses (300 thorough) and 300 candidates (1100) at one; every 64-bit first word of the file')
OUTSIDE = 'larger programs; truncated files'
ASSUMES = ['a stand-in file system keeps what is written to it']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []
    for shape in ([], [1], [2], [4], [1, 1], [2, 1], [3, 2], [2, 2, 2]) + (() if q else ([4, 3, 2], [5, 5], [2, 1, 1, 2])):
        out.append(Cfg('roundtrip', dict(shape=shape, form='list')))
        out.append(Cfg('roundtrip', dict(shape=shape, form='dict')))
    for n in (0, 1, 2, 3):
        out.append(Cfg('lost', dict(n=n)))
    out.append(Cfg('wide', dict(n=40, m=2), max_conc=800))
    out.append(Cfg('wide', dict(n=2, m=300), max_conc=800))
    if not q:
        out.append(Cfg('wide', dict(n=300, m=2), max_conc=800))
        out.append(Cfg('wide', dict(n=2, m=1100), max_conc=1200))
    out.append(Cfg('magic', {}))
    out.append(Cfg('layout', {}))
    out.append(Cfg('twice', {}))
    return out


def _program(h, shape, tag=''):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    addr = [h.int('%saddr%d' % (tag, k), 0, 0xffffffff) for k in range(len(shape))]
    for i in range(len(shape)):
        for j in range(i):
            h.assume(addr[i] != addr[j])
    enc = [[h.int('%se%d_%d' % (tag, k, j), 0, 0xffffffff) for j in range(n)] for k, n in enumerate(shape)]
    for es in enc:
        for i in range(len(es)):
            for j in range(i):
                h.assume(es[i] != es[j])
    program = {}
    for k in range(len(shape)):
        program[addr[k]] = [CAPSInstruction(e, addr[k]) for e in enc[k]]
    return addr, enc, program


def _check(h, name, addr, enc, pos):
    from semantic_codec.solution.solution_io import SolutionReader
    original, program = SolutionReader().read(name)
    h.check(len(program) == len(addr) and len(original) == len(addr), 'as many addresses as written')
    for k, a in enumerate(addr):
        h.check(a in program and a in original, 'every address is read')
        v = program[a]
        h.check(len(v) == pos[k] + 1, 'the candidates up to the original')
        for j in range(len(v)):
            h.check(v[j].encoding == enc[k][j], 'in their order')
            h.check(v[j].address == a, 'at their address')
        o = original[a]
        h.check(len(o) == 1 and o[0].encoding == enc[k][pos[k]] and o[0].address == a, 'and the original')


def roundtrip(h, shape, form):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.solution.solution_io import SolutionWriter
    addr, enc, program = _program(h, shape)
    pos = [h.pick('pos%d' % k, list(range(n))) for k, n in enumerate(shape)]
    ori = [CAPSInstruction(enc[k][pos[k]], addr[k]) for k in range(len(shape))]
    if form == 'dict':
        ori = {a: [i] for a, i in zip(addr, ori)}
    f = h.path('x.sol')
    SolutionWriter().write_binary(f, ori, program)
    for k, a in enumerate(addr):
        h.check(len(program[a]) == shape[k], 'writing does not change the program')
    _check(h, f, addr, enc, pos)


def wide(h, n, m):
    """Many addresses or candidates."""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.solution.solution_io import SolutionReader, SolutionWriter
    k = h.concrete(h.int('k', 0, n - 1) if n < 10 else h.pick('k', [0, 1, n // 2, n - 1]))
    p = h.concrete(h.pick('p', sorted(set([0, m // 2, m - 2, m - 1] + [x for x in (255, 256) if x < m]))))
    a, x, y = h.int('a', 0x1000000, 0xffffffff), h.int('x', 0x1000000, 0xffffffff), h.int('y', 0x1000000, 0xffffffff)
    h.assume(x != y)
    addr = [a if j == k else 4 * j for j in range(n)]
    enc = [[x if j == k and i == p else y if j == k and i == 0 else 1000 * j + i for i in range(m)] for j in range(n)]
    program = {addr[j]: [CAPSInstruction(e, addr[j]) for e in enc[j]] for j in range(n)}
    pos = [p if j == k else m - 1 for j in range(n)]
    ori = [CAPSInstruction(enc[j][pos[j]], addr[j]) for j in range(n)]
    f = h.path('x.sol')
    SolutionWriter().write_binary(f, ori, program)
    original, got = SolutionReader().read(f)
    h.check(len(got) == n and len(original) == n, 'as many addresses as written')
    for j, b in enumerate(addr):
        h.check(b in got and b in original, 'every address is read')
        v, o = got[b], original[b]
        h.check(len(v) == pos[j] + 1 and len(o) == 1, 'the candidates up to the original')
        h.check(h.all([h.all([g.encoding == e, g.address == b]) for g, e in zip(v, enc[j])]), 'in their order, at their address')
        h.check(h.all([o[0].encoding == enc[j][pos[j]], o[0].address == b]), 'and the original')


def lost(h, n):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.solution.solution_io import SolutionWriter
    addr, enc, program = _program(h, [1, n])
    x = h.int('x', 0, 0xffffffff)
    ori = {addr[0]: [CAPSInstruction(enc[0][0], addr[0])], addr[1]: [CAPSInstruction(x, addr[1])]}
    there = h.any([x == e for e in enc[1]])
    try:
        SolutionWriter().write_binary(h.path('x.sol'), ori, program)
        h.check(there, 'a program without its original is rejected')
    except RuntimeError:
        h.check(there == False, 'a program with its originals is written')


def magic(h):
    from semantic_codec.solution.solution_io import SolutionReader
    codes = [h.int('b%d' % k, 0, 255) for k in range(8)]
    word = 0
    for k in range(8):
        word = word + codes[k] * (1 << 8 * k)
    f = h.write_bytes('x.sol', codes + [0, 0, 0, 0])
    try:
        o, p = SolutionReader().read(f)
        h.check(word == 0xA0C1E2F3A4C5E6F7, 'a file without the magic word is rejected')
        h.check(len(o) == 0 and len(p) == 0, 'an empty file has no addresses')
    except RuntimeError:
        h.check(word != 0xA0C1E2F3A4C5E6F7, 'a file with the magic word is read')


def layout(h):
    """Files written elsewhere: magic word, number of addresses, then address, count and candidates, little endian."""
    from semantic_codec.solution.solution_io import SolutionReader
    a, e1, e2 = h.int('a', 0, 0xffffffff), h.int('e1', 0, 0xffffffff), h.int('e2', 0, 0xffffffff)
    codes = [(0xA0C1E2F3A4C5E6F7 >> 8 * k) & 255 for k in range(8)]
    for w in (1, a, 2, e1, e2):
        codes += [(w >> 8 * k) & 255 for k in range(4)]
    f = h.write_bytes('x.sol', codes)
    _check(h, f, [a], [[e1, e2]], [1])


def twice(h):
    """A second file, and a file overwritten."""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.solution.solution_io import SolutionWriter
    a1, e1, p1 = _program(h, [2], 'p')
    a2, e2, p2 = _program(h, [1, 1], 'q')
    w = SolutionWriter()
    f, g = h.path('x.sol'), h.path('y.sol')
    w.write_binary(f, [CAPSInstruction(e1[0][1], a1[0])], p1)
    w.write_binary(g, [CAPSInstruction(e1[0][0], a1[0])], p1)
    w.write_binary(f, [CAPSInstruction(e2[0][0], a2[0]), CAPSInstruction(e2[1][0], a2[1])], p2)
    _check(h, f, a2, e2, [0, 0])
    _check(h, g, a1, e1, [0])
