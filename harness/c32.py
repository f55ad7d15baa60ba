"""InstructionModifier: each operation replaces exactly one field of the instruction word."""
BOUNDS = ('every instruction word and every value of the field; two edits of different fields in both orders; condition, registers and '
          'immediates also against the words of the manual in 7 forms of instruction')
OUTSIDE = 'modify_register and modify_register_list (they need the darm library, which is not shipped)'
ASSUMES = ['a value fits in its field; for values that do not, only the low bits are used']
FIELDS = [('cond', 28, 4), ('opcode', 21, 4), ('rn', 16, 4), ('rd', 12, 4), ('rs', 8, 4), ('rm', 0, 4)]


def configs(tier):
    from sx.driver import Cfg
    out = [Cfg('field', dict(name=n, lo=lo, bits=b, wide=w)) for n, lo, b in FIELDS for w in (False, True)]
    out += [Cfg('immediate', dict(wide=w)) for w in (False, True)]
    out += [Cfg('pair', dict(a=i, b=j)) for i in range(6) for j in range(6) if i != j]
    out += [Cfg('accessors', dict(name=n)) for n in ('rn', 'rd', 'rs', 'rm', 'cond')]
    out += [Cfg('forms', dict(kind=k, name=n)) for k, ns in FORMS for n in ns + ('cond',)]
    return out


def _modifier():
    from semantic_codec.architecture.instruction_modifier import InstructionModifier
    return InstructionModifier()


def _expect(h, word, value, lo, bits, got, what):
    mask = ((1 << bits) - 1) << lo
    h.check(((got >> lo) & ((1 << bits) - 1)) == (value & ((1 << bits) - 1)), 'the %s has the new value' % what)
    h.check((got & (0xffffffff & ~mask)) == (word & (0xffffffff & ~mask)), 'the bits outside the %s stay' % what)
    h.check(h.all([got >= 0, got <= 0xffffffff]), 'the result is an instruction word')


def field(h, name, lo, bits, wide):
    m = _modifier()
    edit = getattr(m, 'modify_' + name)
    word, value = h.int('word', 0, 0xffffffff), h.int('value', 0, 0xffffffff if wide else (1 << bits) - 1)
    got = edit(word, value)
    _expect(h, word, value, lo, bits, got, name)
    h.check(edit(got, (word >> lo) & ((1 << bits) - 1)) == word, 'setting the old value restores the instruction')
    h.check(edit(got, value) == got, 'setting a value twice is setting it once')


def immediate(h, wide):
    m = _modifier()
    word = h.int('word', 0, 0xffffffff)
    load = ((word >> 25) & 7) == 2
    value = h.int('value', 0, 0xffffffff if wide else 0xfff)
    got = m.modify_immediate(word, value)
    bits = 12 if load else 8
    _expect(h, word, value, 0, bits, got, 'immediate')
    h.check(m.modify_immediate(got, word) == word, 'setting the old value restores the instruction')


def pair(h, a, b):
    m = _modifier()
    word = h.int('word', 0, 0xffffffff)
    (n1, l1, _), (n2, l2, _) = FIELDS[a], FIELDS[b]
    v1, v2 = h.int('v1', 0, 15), h.int('v2', 0, 15)
    e1, e2 = getattr(m, 'modify_' + n1), getattr(m, 'modify_' + n2)
    got = e2(e1(word, v1), v2)
    h.check(got == e1(e2(word, v2), v1), 'edits of different fields do not depend on their order')
    h.check(h.all([((got >> l1) & 15) == v1, ((got >> l2) & 15) == v2]), 'both fields have their new values')


def accessors(h, name):
    from semantic_codec.architecture.arm_instruction import ARMInstruction
    m = _modifier()
    word, value = h.int('word', 0, 0xffffffff), h.int('value', 0, 15)
    i = ARMInstruction(getattr(m, 'modify_' + name)(word, value), 0)
    if name == 'cond':
        h.check((i.conditional_field() >> 28) == value, 'the instruction has the new condition')
    else:
        h.check(getattr(i, '_%s_field_' % name)() == value, 'the instruction has the new register')


FORMS = [('add_r', ('rn', 'rd', 'rm')), ('sub_i', ('rn', 'rd', 'imm8')), ('ldr_i', ('rn', 'rt', 'imm12')), ('strb_r', ('rn', 'rt', 'rm')),
         ('cmp_i', ('rn', 'imm8')), ('mov_i', ('rd', 'imm8')), ('mvn_r', ('rd', 'rm'))]


def forms(h, kind, name):
    """The edited word is the word that the manual gives for the instruction with the other register, immediate or condition"""
    m = _modifier()
    regs = {'rn': 16, 'rd': 12, 'rt': 12, 'rm': 0}
    f = dict([(n, h.int('f_' + n, 0, 14)) for n in dict(FORMS)[kind] if n in regs])
    f.update(dict([('imm', h.int('f_imm', 0, 255 if n == 'imm8' else 4095)) for n in dict(FORMS)[kind] if n[:3] == 'imm']))
    old = h.template('old', kind, 0, **f)
    if name == 'cond':
        value = h.int('value', 0, 14)
        f['cond'] = value
        got = m.modify_cond(old.enc, value)
    elif name[:3] == 'imm':
        value = h.int('value', 0, 255 if name == 'imm8' else 4095)
        f['imm'] = value
        got = m.modify_immediate(old.enc, value)
    else:
        value = h.int('value', 0, 14)
        f[name] = value
        got = getattr(m, 'modify_' + ('rd' if name == 'rt' else name))(old.enc, value)
    h.check(got == encode(kind, f), 'the edited instruction is the one with the new field')


def encode(kind, f):
    """Words from the tables of the ARM manual"""
    c = f.get('cond', 14) << 28
    if kind == 'add_r':
        return c | 0x00800000 | (f['rn'] << 16) | (f['rd'] << 12) | f['rm']
    if kind == 'sub_i':
        return c | 0x02400000 | (f['rn'] << 16) | (f['rd'] << 12) | f['imm']
    if kind == 'ldr_i':
        return c | 0x05900000 | (f['rn'] << 16) | (f['rt'] << 12) | f['imm']
    if kind == 'strb_r':
        return c | 0x07c00000 | (f['rn'] << 16) | (f['rt'] << 12) | f['rm']
    if kind == 'cmp_i':
        return c | 0x03500000 | (f['rn'] << 16) | f['imm']
    if kind == 'mov_i':
        return c | 0x03a00000 | (f['rd'] << 12) | f['imm']
    return c | 0x01e00000 | (f['rd'] << 12) | f['rm']
