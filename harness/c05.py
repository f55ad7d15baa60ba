"""Register and storage usage reported for an instruction."""
BOUNDS = ('every register choice of 73 encoding shapes: loads and stores (immediate, negative, post-indexed and register offset, word, byte, half, double, signed, exclusive, unprivileged), '
          'data processing (also with shifted operands, by constants and by registers), multiply, compare, moves, branches, '
          'push/pop/ldm/stm of one to five registers; condition always '
          '(quick) or always/eq/le and flag setting (thorough)')
OUTSIDE = 'coprocessor, SIMD and other encodings; longer register lists'
ASSUMES = ['the decoder is the capstone encoding templates of sx/armtpl.py, checked against capstone']
STORE, NOREG, PC, SP = 16, 18, 15, 13


def configs(tier):
    from sx.driver import Cfg
    from sx.armtpl import KINDS
    out = []
    for k in KINDS:
        for c in (14,) if tier == 'quick' else (14, 0, 13):
            out.append(Cfg('usage', dict(kind=k, cond=c, s=0, order=0)))
        if tier != 'quick':
            for o in (1, 2):
                out.append(Cfg('usage', dict(kind=k, cond=14, s=0, order=o)))
    for k in ('add_r', 'sub_i', 'str_r', 'ldr_i', 'b', 'pop2'):
        out.append(Cfg('usage', dict(kind=k, cond=14, s=0, order=1)))
    for k in ('add_r', 'sub_r', 'and_i', 'eor_r'):
        out.append(Cfg('usage', dict(kind=k, cond=14, s=1, order=2)))
    out.append(Cfg('fields'))
    return out


def same_set(h, got, want, what):
    """got and want hold the same registers, and got names none twice."""
    got, want = list(got), list(want)
    cs = []
    for g in got:
        cs.append(h.any([g == w for w in want]))
    for w in want:
        cs.append(h.any([g == w for g in got]))
    for i in range(len(got)):
        for j in range(i):
            cs.append(got[i] != got[j])
    h.check(h.all(cs), what)


def usage(h, kind, cond, s, order):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    t = h.template('i', kind, 0, cond=cond, s=s)
    i = CAPSInstruction(t.enc, 0x10550)
    ops = []
    for o in t.ops:
        if o[0] in ('r', 's'):
            ops.append(o[1])
        elif o[0] == 'h':
            ops.extend(o[1:])
        elif o[0] == 'm':
            ops.append(o[1])
            if o[2] is not None:
                ops.append(o[2])
    push, pop = kind.startswith('push'), kind.startswith('pop')
    stack = push or pop
    used = ops + [SP] if stack else ops
    if pop:
        written, read = used, [SP]
    elif push:
        written, read = [], used
    elif ops:
        written = ops[:1]
        read = ops[1:]
    else:
        written = read = []
    load, store = kind.startswith('ldr'), kind.startswith('str')

    def registers():
        same_set(h, i.registers_used(), used, 'registers used are the registers the operands name')
        same_set(h, i.registers_written(), written, 'registers written: the destination, every popped one, none pushed')
        got = list(i.registers_read())
        if push:
            same_set(h, got, used, 'registers read by a push: the pushed ones and the stack pointer')
        elif pop:
            same_set(h, got, [SP], 'registers read by a pop: the stack pointer')
        else:
            # a register that is also the destination is reported once, as written
            cs = [h.any([g == w for w in read]) for g in got]
            cs += [h.any([w == written[0]] + [g == w for g in got]) for w in read]
            h.check(h.all(cs), 'registers read are the other registers of the operands')

    def storages():
        ru, rw, rr = list(i.registers_used()), list(i.registers_written()), list(i.registers_read())
        mem = [STORE] if load or store else []
        same_set(h, i.storages_used(), ru + mem if ru or mem else [NOREG], 'storages used: registers, memory, or none')
        w = rw + ([STORE] if store else [])
        isb = i.is_branch
        if isb:
            if not h.any([x == PC for x in rw]):
                w = w + [PC]
        same_set(h, i.storages_written(), w, 'storages written: registers written, memory for a store, PC for a branch')
        same_set(h, i.storages_read(), rr + ([STORE] if load else []), 'storages read: registers read, memory for a load')
    if order == 0:
        registers()
        storages()
    elif order == 1:
        i.storages_read()
        i.storages_written()
        storages()
        registers()
        storages()
    else:
        i.storages_used()
        storages()
        registers()
    h.check(h.iff(i.is_push_pop, stack), 'push and pop are recognized')
    h.check(bool(i.modifies_flags()) == bool(t.flags), 'flag setting is recognized')
    h.check(i.conditional_field == t.cond, 'condition field')
    h.check(h.iff(i.is_branch, h.any([kind in ('b', 'bl', 'bx', 'blx')] + [x == PC for x in i.registers_written()])),
            'a branch is a branch opcode or a write to the program counter')
    h.check(h.all([i.encoding == t.enc, i.address == 0x10550, not i.is_undefined]), 'encoding and address are kept')


def fields(h):
    """Two instructions do not share usage lists."""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    a = h.template('a', 'add_r', 0)
    b = h.template('b', 'ldr_i', 0)
    i, j = CAPSInstruction(a.enc, 0x1000), CAPSInstruction(b.enc, 0x1004)
    i.storages_used()
    i.storages_written()
    i.storages_read()
    same_set(h, j.storages_used(), [b.f['rt'], b.f['rn'], STORE], 'usage belongs to one instruction')
    same_set(h, j.registers_used(), [b.f['rt'], b.f['rn']], 'usage belongs to one instruction')
    same_set(h, i.registers_used(), [a.f['rd'], a.f['rn'], a.f['rm']], 'usage belongs to one instruction')
