"""Disassembly readers: every instruction, its address, its function."""
BOUNDS = ('4 instruction lines (6 thorough) with every 32-bit encoding and symbolic address digits, 2 declared functions '
          'at every pair of addresses, every section name the reader accepts, blank and foreign lines between them; files of 40 lines (300 thorough) and 10 functions with any start moved; a file that changes between two reads, and two readers')
OUTSIDE = 'longer files, other line formats, THUMB files'
ASSUMES = ['the text follows the format of the sample files']
SECTIONS = ['.init', '.plt', '.text', '.fini']


def configs(tier):
    from sx.driver import Cfg
    out = []
    n = 4 if tier == 'quick' else 6
    for sec in range(4):
        out.append(Cfg('elfio', dict(n=n, sec=sec, digits=8)))
    out.append(Cfg('elfio', dict(n=n, sec=0, digits=5)))
    out.append(Cfg('elfio', dict(n=n, sec=2, digits=1)))
    for j in range(2):
        out.append(Cfg('elfio_other', dict(n=3, junk=j)))
    for lay in range(3):
        out.append(Cfg('asm', dict(n=n, lay=lay)))
    out.append(Cfg('wide', dict(n=40 if tier == 'quick' else 300, m=10), max_conc=400))
    out.append(Cfg('asm_set'))
    out.append(Cfg('twice'))
    out.append(Cfg('changed', dict(fmt='elfio')))
    out.append(Cfg('changed', dict(fmt='asm')))
    return out


def _enc(h, k, digits=8):
    return h.int('e%d' % k, 0, (1 << (4 * digits)) - 1)


def elfio(h, n, sec, digits):
    from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader
    base = 0x10000 + 0x100 * h.int('base', 0, 255)
    slots = [h.int('f%d' % k, 0, n) for k in range(2)]
    h.assume(slots[0] != slots[1])
    lines = ['.functions\n']
    for k in range(2):
        lines.append(h.text(['0x', h.hex(base + 4 * slots[k], 5), ';fun%d\n' % k]))
    lines += ['\n', '  \n', SECTIONS[sec] + '\n']
    encs = [_enc(h, k, digits) for k in range(n)]
    for k in range(n):
        if k == 2:
            lines += ['\n', SECTIONS[(sec + 1) % 4] + '\n']
        lines.append(h.text(['0x', h.hex(base + 4 * k, 5), ';', h.hex(encs[k], digits), ';mov;r1, r2\n']))
    p = h.write_text('prog.disam', lines)
    r = ElfioTextDisassembleReader(p)
    fns, insts = r.read()
    h.check(len(insts) == n, 'every instruction line gives one instruction')
    for k in range(n):
        h.check(h.all([insts[k].encoding == encs[k], insts[k].address == base + 4 * k]),
                'instructions keep file order, encoding and address')
    h.check(sorted([f.name for f in fns]) == ['fun0', 'fun1'], 'every declared function is returned')
    for f in fns:
        i = 0 if f.name == 'fun0' else 1
        mine, other = slots[i], slots[1 - i]
        # membership: from the start of the function to the start of the next one
        got = [h.any([x is insts[k] for x in f.instructions]) for k in range(n)]
        want = [h.all([mine <= k, h.any([other <= mine, other > k])]) for k in range(n)]
        h.check(h.all([h.iff(a, b) for a, b in zip(got, want)]),
                'a function holds the instructions from its address up to the next function')
        h.check(len(f.instructions) == sum([1 for g in got if g]), 'no instruction is listed twice in a function')
        h.check(f.length_in_bytes() == 4 * len(f.instructions), 'length of a function')
        if len(f.instructions) > 0:
            h.check(f.start_addr() == base + 4 * mine, 'start of a function')
            h.check(f.final_addr() == f.instructions[-1].address, 'last address of a function')


def elfio_other(h, n, junk):
    """Foreign sections and lines that cannot be parsed are skipped."""
    from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader
    encs = [_enc(h, k) for k in range(n)]
    lines = ['.functions\n', '0x10000;main\n', '.data\n', '0x20000;00000000;x;y\n', '.text\n']
    for k in range(n):
        lines.append(h.text(['0x', h.hex(0x10000 + 4 * k, 5), ';', h.hex(encs[k], 8), ';a;b\n']))
        if k == junk:
            lines.append('0x10fff\n')
    p = h.write_text('prog.disam', lines)
    insts = ElfioTextDisassembleReader(p).read_instructions()
    h.check(len(insts) == n, 'only instruction lines of code sections are read')
    for k in range(n):
        h.check(h.all([insts[k].encoding == encs[k], insts[k].address == 0x10000 + 4 * k]), 'instructions are kept')
    fns = ElfioTextDisassembleReader(p).read_functions()
    h.check(len(fns) == 1 and fns[0].name == 'main' and len(fns[0].instructions) == n, 'functions are kept')


def asm(h, n, lay):
    from semantic_codec.architecture.disassembler_readers import TextDisassembleReader
    pre = ['                           .text:', ' .init:', '  .plt:'][lay]
    base = 4 * h.int('base', 0, 0xffff)
    heads = [h.bool('head%d' % k) for k in range(n)]
    encs = [_enc(h, k) for k in range(n)]
    lines = []
    exp, cur = [], []
    for k in range(n):
        if heads[k]:
            lines.append(h.text(['.text:', h.hex(base + 4 * k, 8), ' <fun%d>:\n' % k]))
            exp.append(cur)
            cur = []
        v = encs[k]
        bs = [h.hex((v >> (8 * j)) & 0xff, 2) for j in range(4)]
        lines.append(h.text([pre, h.hex(base + 4 * k, 8), ' ', bs[0], ' ', bs[1], ' ', bs[2], ' ', bs[3],
                             '                      mov\tr8, r1\t; x  y\n']))
        cur.append(k)
        if k == 1:
            lines.append('\n')
            if lay:
                lines.append('Disassembly of section .text\n')
    exp.append(cur)
    p = h.write_text('prog.armasm', lines)
    insts = TextDisassembleReader(p).read_instructions()
    h.check(len(insts) == n, 'every instruction line gives one instruction')
    for k in range(min(n, len(insts))):
        h.check(h.all([insts[k].encoding == encs[k], insts[k].address == base + 4 * k]),
                'instructions keep file order, encoding (stored little endian in the text) and address')
    fns = TextDisassembleReader(p).read_functions()
    h.check(len(fns) == len(exp), 'every function header starts a function')
    for f, e in zip(fns, exp):
        h.check(len(f.instructions) == len(e), 'a function holds the instructions that follow its header')
        for x, k in zip(f.instructions, e):
            h.check(h.all([x.encoding == encs[k], x.address == base + 4 * k]),
                    'a function holds the instructions that follow its header, in order')


def wide(h, n, m):
    """Longer files of either format."""
    from semantic_codec.architecture.disassembler_readers import TextDisassembleReader, ElfioTextDisassembleReader
    k = h.concrete(h.int('k', 0, n - 1))            # a line with any encoding
    f = h.concrete(h.int('f', 0, m - 1))            # a function that starts one instruction later
    e = _enc(h, 0)
    enc = [e if j == k else 0xe1a00000 + j for j in range(n)]
    step = n // m
    start = [step * j + (1 if j == f else 0) for j in range(m)]
    lines = ['.functions\n'] + ['0x%05x;fun%d\n' % (0x10000 + 4 * s, j) for j, s in enumerate(start)] + ['\n', '.text\n']
    for j in range(n):
        lines.append(h.text(['0x%05x;' % (0x10000 + 4 * j), h.hex(enc[j], 8), ';mov;r1, r2\n']))
    fns, insts = ElfioTextDisassembleReader(h.write_text('p.disam', lines)).read()
    h.check(len(insts) == n and all([x.address == 0x10000 + 4 * j for j, x in enumerate(insts)]), 'every instruction line gives one instruction')
    h.check(h.all([x.encoding == enc[j] for j, x in enumerate(insts)]), 'instructions keep their encoding')
    h.check(len(fns) == m, 'every declared function is returned')
    for x in fns:
        j = int(x.name[3:])
        last = start[j + 1] if j + 1 < m else n
        h.check([i.address for i in x.instructions] == [0x10000 + 4 * i for i in range(start[j], last)],
                'a function holds the instructions from its address up to the next function')
    lines = []
    for j in range(n):
        if j in start:
            lines.append('.text:%08x <fun%d>:\n' % (4 * j, j))
        v = enc[j]
        bs = [h.hex((v >> (8 * i)) & 0xff, 2) for i in range(4)]
        lines.append(h.text(['   .text:%08x ' % (4 * j), bs[0], ' ', bs[1], ' ', bs[2], ' ', bs[3], '      mov\tr8, r1\n']))
    p = h.write_text('p.armasm', lines)
    insts = TextDisassembleReader(p).read_instructions()
    h.check(len(insts) == n and all([x.address == 4 * j for j, x in enumerate(insts)]), 'every instruction line gives one instruction')
    h.check(h.all([x.encoding == enc[j] for j, x in enumerate(insts)]), 'instructions keep their encoding')
    fns = TextDisassembleReader(p).read_functions()
    h.check(len(fns) == m + 1, 'every function header starts a function')
    got = [[i.address // 4 for i in x.instructions] for x in fns]
    h.check(got == [list(range(0, start[0]))] + [list(range(start[j], start[j + 1] if j + 1 < m else n)) for j in range(m)],
            'a function holds the instructions that follow its header')


def asm_set(h):
    from semantic_codec.architecture.disassembler_readers import TextDisassembleReader, DisassembleReader
    v = _enc(h, 0)
    p = h.write_text('prog.armasm', [h.text(['   .text:00001000 ', h.hex(v & 0xff, 2), ' ', h.hex((v >> 8) & 0xff, 2), ' ',
                                             h.hex((v >> 16) & 0xff, 2), ' ', h.hex(v >> 24, 2), '       nop\n'])])
    for m in ('read_instructions', 'read_functions'):
        try:
            getattr(TextDisassembleReader(p, DisassembleReader.THUMB_SET), m)()
            ok = False
        except RuntimeError:
            ok = True
        h.check(ok, 'only the ARM set is read')
    h.check(TextDisassembleReader(p).read_instructions()[0].encoding == v, 'the ARM set is read')


def twice(h):
    """Reading again, or another file, is not affected by an earlier read."""
    from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader
    a, b = _enc(h, 0), _enc(h, 1)
    pa = h.write_text('a.disam', [h.text(['.functions\n0x10000;main\n.text\n0x10000;', h.hex(a, 8), ';x;y\n'])])
    pb = h.write_text('b.disam', [h.text(['.functions\n0x20000;other\n.text\n0x20000;', h.hex(b, 8), ';x;y\n'])])
    ra, rb = ElfioTextDisassembleReader(pa), ElfioTextDisassembleReader(pb)
    ra.read()
    rb.read()
    for k in range(2):
        fns, insts = ra.read()
        h.check(len(insts) == 1 and len(fns) == 1 and len(fns[0].instructions) == 1, 'a second read gives the same')
        h.check(h.all([insts[0].encoding == a, insts[0].address == 0x10000]), 'a second read gives the same')
    fns, insts = rb.read()
    h.check(len(insts) == 1 and len(fns) == 1 and fns[0].name == 'other', 'readers are independent')
    h.check(insts[0].encoding == b, 'readers are independent')


def changed(h, fmt):
    """A reader reads the file as it is at that time, with other functions, other addresses and other instructions than before."""
    from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader, TextDisassembleReader
    e = [_enc(h, k) for k in range(6)]
    swap = h.bool('swap')
    one = ([0x10000, 0x10008], [0x10000 + 4 * k for k in range(4)], e[:4])
    two = ([0x10004], [0x10000 + 4 * k for k in ((1, 2, 4) if swap else (1, 2, 3, 4))], [e[4], e[5], e[0], e[1]])

    def write(v):
        starts, addr, enc = v
        lines = []
        if fmt == 'elfio':
            lines = ['.functions\n'] + ['0x%x;f%d\n' % (a, k) for k, a in enumerate(starts)] + ['.text\n']
        for k, a in enumerate(addr):
            if fmt == 'elfio':
                lines.append(h.text(['0x%x;' % a, h.hex(enc[k], 8), ';x;y\n']))
            else:
                if a in starts:
                    lines.append('.text:%08x <f%d>:\n' % (a, starts.index(a)))
                lines.append(h.text(['   .text:%08x ' % a] + [x for j in range(4) for x in (h.hex((enc[k] >> (8 * j)) & 0xff, 2), ' ')] + ['     mov\tr8, r1\n']))
        return h.write_text('p', lines)

    def judge(v, fns, insts):
        starts, addr, enc = v
        h.check(len(insts) == len(addr) and all([i.address == a for i, a in zip(insts, addr)]) and
                h.all([i.encoding == x for i, x in zip(insts, enc)]), 'the instructions are those in the file now')
        want = [[a for a in addr if a >= s and not [t for t in starts if s < t <= a]] for s in starts]
        if fmt == 'asm':
            want = [[a for a in addr if a < starts[0]]] + want
        h.check([[i.address for i in f.instructions] for f in fns] == want, 'the functions are those in the file now')
        h.check(h.all([i.encoding == enc[addr.index(i.address)] for f in fns for i in f.instructions]), 'the functions hold the instructions of the file')
    reader = ElfioTextDisassembleReader if fmt == 'elfio' else TextDisassembleReader
    path = write(one)
    r, other = reader(path), reader(path)
    judge(one, r.read_functions(), r.read_instructions())
    judge(one, other.read_functions(), other.read_instructions())
    write(two)
    judge(two, r.read_functions(), r.read_instructions())
    judge(two, reader(path).read_functions(), other.read_instructions())
    write(one)
    judge(one, other.read_functions(), r.read_instructions())
