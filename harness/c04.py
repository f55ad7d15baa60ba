"""Branch targets."""
BOUNDS = ('every 24-bit offset, every word-aligned 32-bit address, conditions always/eq/ne (quick) or all 15 (thorough); '
          'B, BL, BX, BLX (also with an offset) and PC-writing data processing / load encodings with every register')
OUTSIDE = 'other encodings that write the program counter'
ASSUMES = ['the decoder is the capstone encoding templates of sx/armtpl.py, checked against capstone']


def configs(tier):
    from sx.driver import Cfg
    conds = (14, 0, 1) if tier == 'quick' else range(15)
    out = [Cfg('base'), Cfg('base_none'), Cfg('find')]
    for c in conds:
        for k in ('b', 'bl'):
            out.append(Cfg('direct', dict(kind=k, cond=c)))
    out.append(Cfg('direct', dict(kind='blxi', cond=14)))
    for k in ('bx', 'blx', 'add_i', 'mov_i', 'ldr_i', 'pop2', 'mov_r', 'sub_i', 'str_i', 'cmp_i', 'pop1', 'pop3', 'add_s', 'ldr_p', 'ldr_r',
              'bic_r', 'svc', 'push3', 'tst_r'):
        for c in conds[:1] if tier == 'quick' else conds:
            out.append(Cfg('indirect', dict(kind=k, cond=c)))
    return out


def _target(h, imm, addr):
    off = h.ite(imm >= 0x800000, imm - 0x1000000, imm)
    return (addr + 8 + 4 * off) & 0xffffffff


def _addr(h):
    return 4 * h.int('addr4', 0, 0x3fffffff)


def base(h):
    from semantic_codec.architecture.instruction import Instruction

    class Branch(Instruction):
        is_branch = True
    imm, top, a = h.int('imm', 0, 0xffffff), h.int('top', 0, 0xff), _addr(h)
    b = Branch(imm | (top << 24), a)
    want = _target(h, imm, a)
    h.check(b.jumping_address == want, 'the target is address + 8 + 4 * signed offset, modulo 2^32')
    h.check(b.jumping_address == want, 'asking again gives the same target')


def base_none(h):
    from semantic_codec.architecture.instruction import Instruction

    class Other(Instruction):
        is_branch = False
    i = Other(h.int('enc', 0, 0xffffffff), _addr(h))
    h.check(i.jumping_address is None, 'an instruction that is not a branch has no target')


def direct(h, kind, cond):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    a = _addr(h)
    t = h.template('i', kind, 0, cond=cond)
    i = CAPSInstruction(t.enc, a)
    h.check(i.is_branch, 'a branch is a branch')
    want = _target(h, t.f['imm'], a)
    if kind == 'blxi':
        want = (want + 2 * t.f['hb']) & 0xffffffff
    h.check(i.jumping_address == want, 'the target is address + 8 + 4 * signed offset, modulo 2^32')
    h.check(i.jumping_address == want, 'asking again gives the same target')
    h.check(bool(i.is_branch_with_link) == (kind in ('bl', 'blxi')), 'branch with link')


def indirect(h, kind, cond):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    a = 0x10550
    t = h.template('i', kind, 0, cond=cond)
    i = CAPSInstruction(t.enc, a)
    f = t.f
    if kind in ('bx', 'blx'):
        h.check(i.is_branch, 'a branch is a branch')
    elif kind in ('add_i', 'sub_i', 'mov_i', 'mov_r', 'add_s', 'bic_r'):
        h.check(h.iff(i.is_branch, f['rd'] == 15), 'writing the program counter is a branch')
    elif kind.startswith('ldr'):
        h.check(h.iff(i.is_branch, f['rt'] == 15), 'loading the program counter is a branch')
    elif kind == 'pop2':
        h.check(h.iff(i.is_branch, f['b'] == 15), 'popping the program counter is a branch')
    elif kind in ('pop1', 'pop3'):
        h.check(h.iff(i.is_branch, f['a' if kind == 'pop1' else 'c'] == 15), 'popping the program counter is a branch')
    elif kind in ('svc', 'push3'):
        h.check(not i.is_branch, 'any other instruction is not a branch')
    h.check(i.jumping_address is None, 'only a direct branch has a known target')


def find(h):
    from semantic_codec.architecture.instruction import Instruction

    class Branch(Instruction):
        is_branch = True
    addrs = [0x1000 + 4 * k for k in range(4)]
    pos = h.int('pos', 0, 3)
    imm = h.int('imm', 0, 0xffffff)
    prog = [Branch(0xea000000 | imm, x) for x in addrs]
    k = h.concrete(pos)
    want = _target(h, imm, addrs[k])
    r = prog[k].branch_to(prog)
    if r is None:
        h.check(h.all([want != x for x in addrs]), 'no instruction is found only when none is at the target')
    else:
        h.check(r.address == want, 'the instruction found is the one at the target')
