"""Instruction words from text, and the byte-order conversion."""
BOUNDS = 'every 32-bit word; text of 8 hexadecimal digits (both cases) with 4 layouts of blanks; decimal text of 9 digits'
OUTSIDE = 'words wider than 32 bits, malformed text'
ASSUMES = []
LAYOUTS = [('', '', ''), (' ', ' ', ' '), ('  ', '', ' '), ('', '\t', '')]


def configs(tier):
    from sx.driver import Cfg
    out = [Cfg('ints'), Cfg('decimal'), Cfg('plain')]
    for i in range(len(LAYOUTS)):
        for up in (0, 1):
            out.append(Cfg('text', dict(layout=i, up=up)))
    return out


def _word(h):
    return h.int('word', 0, 0xffffffff)


def _swap(v):
    return ((v & 0xff) << 24) | (((v >> 8) & 0xff) << 16) | (((v >> 16) & 0xff) << 8) | ((v >> 24) & 0xff)


def _hex(h, v, up):
    if not up:
        return h.hex(v, 8)
    return h.text([h.char_of('0123456789ABCDEF', (v >> (28 - 4 * k)) & 15) for k in range(8)])


def ints(h):
    from semantic_codec.architecture.instruction import Instruction
    v = _word(h)
    r = Instruction.reverse_endianess(v)
    h.check(r == _swap(v), 'byte order of an integer is reversed')
    h.check(Instruction.reverse_endianess(r) == v, 'reversing twice gives the word back')


def text(h, layout, up):
    from semantic_codec.architecture.instruction import Instruction
    v = _word(h)
    d = _hex(h, v, up)
    s = LAYOUTS[layout]
    t = h.text([d[0:2], s[0], d[2:4], s[1], d[4:6], s[2], d[6:8]])
    r = Instruction.reverse_endianess(t)
    h.check(Instruction(r, 0).encoding == _swap(v), 'byte order of a text word is reversed')
    h.check(Instruction(t, 4).encoding == v, 'the text of a word, blanks or not, gives the word')
    h.check(Instruction(Instruction.reverse_endianess(r), 4).encoding == v, 'reversing twice gives the word back')
    i = Instruction(Instruction.reverse_endianess(v), 12)
    h.check(i.encoding == Instruction(r, 12).encoding, 'text and integer conversions agree')
    h.check(i.address == 12, 'the address is kept')


def decimal(h):
    from semantic_codec.architecture.instruction import Instruction
    v, parts = 0, []
    for k in range(9):
        d = h.int('d%d' % k, 0, 9)
        v = v * 10 + d
        parts.append(h.char_of('0123456789', d))
    i = Instruction(h.text(parts), 8, Instruction.DEC_STR)
    h.check(i.encoding == v, 'decimal text gives the word')


def plain(h):
    from semantic_codec.architecture.instruction import Instruction
    v, a = _word(h), h.int('addr', 0, 0xffffffff)
    i = Instruction(v, a)
    h.check(h.all([i.encoding == v, i.address == a]), 'an integer word and its address are kept')
    try:
        Instruction([v], a)
        ok = False
    except RuntimeError:
        ok = True
    h.check(ok, 'a word that is neither text nor integer is rejected')
