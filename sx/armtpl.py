"""Instruction encoding templates: symbolic fields, the encoding they make, and the record capstone decodes from it.
tools/validate_templates.py compares the records with the real decoder over every register value."""
from capstone.arm_const import (ARM_OP_REG, ARM_OP_IMM, ARM_OP_MEM, ARM_INS_LDR, ARM_INS_STR, ARM_INS_LDRB,
                                ARM_INS_STRB, ARM_INS_LDRH, ARM_INS_STRH, ARM_INS_ADD, ARM_INS_SUB, ARM_INS_AND,
                                ARM_INS_ORR, ARM_INS_EOR, ARM_INS_MUL, ARM_INS_CMP, ARM_INS_MOV, ARM_INS_MVN,
                                ARM_INS_B, ARM_INS_BL, ARM_INS_BX, ARM_INS_BLX, ARM_INS_PUSH, ARM_INS_POP,
                                ARM_INS_LDM, ARM_INS_STM, ARM_INS_BIC, ARM_INS_RSB, ARM_INS_TST, ARM_INS_TEQ,
                                ARM_INS_CMN, ARM_INS_MLA, ARM_INS_UXTB, ARM_INS_CLZ, ARM_INS_LSL, ARM_INS_SVC,
                                ARM_SFT_LSL, ARM_SFT_LSL_REG, ARM_INS_STRD, ARM_INS_LDRD, ARM_INS_STREX,
                                ARM_INS_STREXB, ARM_INS_STREXH, ARM_INS_LDREX, ARM_INS_STRT, ARM_INS_STRBT, ARM_INS_STRHT,
                                ARM_INS_LDRT, ARM_INS_LDRSB, ARM_INS_LDRSH)

REGS = [66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 12, 10, 11]
CONDS = ['eq', 'ne', 'hs', 'lo', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt', 'gt', 'le', '']
DP = {'and': (0, ARM_INS_AND), 'eor': (1, ARM_INS_EOR), 'sub': (2, ARM_INS_SUB), 'add': (4, ARM_INS_ADD),
      'orr': (12, ARM_INS_ORR), 'bic': (14, ARM_INS_BIC), 'rsb': (3, ARM_INS_RSB)}
CMP = {'cmp': (0b1010, ARM_INS_CMP), 'tst': (0b1000, ARM_INS_TST), 'teq': (0b1001, ARM_INS_TEQ), 'cmn': (0b1011, ARM_INS_CMN)}
LISTS = ('push', 'pop', 'ldm', 'stm')
MEMI = {'str': (0, 0, ARM_INS_STR), 'ldr': (1, 0, ARM_INS_LDR), 'strb': (0, 1, ARM_INS_STRB),
        'ldrb': (1, 1, ARM_INS_LDRB)}
# load and store of halves and signed values: the bits besides the operands (an offset in two halves)
MEMH = {'ldrsb': (0x015000d0 | 1 << 23, ARM_INS_LDRSB), 'ldrsh': (0x015000f0 | 1 << 23, ARM_INS_LDRSH),
        'strht': (0x006000b0 | 1 << 23, ARM_INS_STRHT), 'strd': (0x014000f0 | 1 << 23, ARM_INS_STRD), 'ldrd': (0x014000d0 | 1 << 23, ARM_INS_LDRD)}
MEMT = {'strt': (0x04a00000, ARM_INS_STRT), 'strbt': (0x04e00000, ARM_INS_STRBT), 'ldrt': (0x04b00000, ARM_INS_LDRT)}
STREX = {'strex': (0x01800f90, ARM_INS_STREX), 'strexb': (0x01c00f90, ARM_INS_STREXB), 'strexh': (0x01e00f90, ARM_INS_STREXH)}
KINDS = ['str_i', 'ldr_i', 'strb_i', 'ldrb_i', 'str_r', 'ldr_r', 'strb_r', 'ldrb_r', 'strh_i', 'ldrh_i',
         'add_r', 'sub_r', 'and_r', 'orr_r', 'eor_r', 'add_i', 'sub_i', 'and_i', 'orr_i', 'mul', 'cmp_r', 'cmp_i',
         'mov_i', 'mvn_r', 'mov_r', 'b', 'bl', 'bx', 'blx', 'push2', 'pop2', 'ldm2', 'stm2',
         'push3', 'pop1', 'pop3', 'pop4', 'push5', 'ldm1', 'ldm3', 'stm3', 'ldr_n', 'str_n', 'ldr_p', 'str_p', 'bic_r', 'rsb_r', 'tst_r', 'teq_i', 'cmn_r',
         'add_s', 'sub_s', 'add_h', 'orr_h', 'cmp_h', 'mla', 'uxtb', 'clz', 'lsl_i', 'lsl_h', 'svc',
         'strd', 'ldrd', 'strex', 'strexb', 'strexh', 'ldrex', 'strt', 'strbt', 'strht', 'ldrt', 'ldrsb', 'ldrsh']


class Tpl(object):
    def __init__(self, kind):
        self.kind = kind


def build(h, name, kind, pos, fix):
    """-> Tpl with .enc (encoding), .f (fields), .cond, .s, and in symbolic mode a registered decoding."""
    t = Tpl(kind)
    f = {}

    def fld(n, lo, hi):
        if n in fix:
            f[n] = fix[n]
        else:
            f[n] = h.int('%s_%s' % (name, n), lo, hi)
        return f[n]
    cond = fix.get('cond', 14)
    s = fix.get('s', 0)
    base = cond << 28
    op, _, form = kind.partition('_')
    ops, flags = None, 0
    R, I, M = (lambda r: ('r', r)), (lambda v: ('i', v)), (lambda b, x, d: ('m', b, x, d))
    mn = op
    if op in MEMI:
        L, B, iid = MEMI[op]
        rt, rn = fld('rt', 0, 15), fld('rn', 0, 15)
        if B:
            h.assume(rt != 15)
        if form == 'i':
            imm = fld('imm', 0, 4095)
            enc = base | (0b010 << 25) | (1 << 24) | (1 << 23) | (B << 22) | (L << 20) | (rn << 16) | (rt << 12) | imm
            ops = [R(rt), M(rn, None, imm)]
        elif form in ('n', 'p'):
            # a negative offset, or the offset added afterwards
            imm = fld('imm', 1, 4095)
            if form == 'p':
                h.assume(h.all([rn != 15, h.any([rn != 13, imm != 4])]))
            enc = base | (0b010 << 25) | ((1 << 24) if form == 'n' else (1 << 23)) | (L << 20) | (rn << 16) | (rt << 12) | imm
            ops = [R(rt), M(rn, None, -imm)] if form == 'n' else [R(rt), M(rn, None, 0), I(imm)]
        else:
            rm = fld('rm', 0, 15)
            h.assume(rm != 15)
            enc = base | (0b011 << 25) | (1 << 24) | (1 << 23) | (B << 22) | (L << 20) | (rn << 16) | (rt << 12) | rm
            ops = [R(rt), M(rn, rm, 0)]
    elif op in ('strh', 'ldrh'):
        L, iid = (1, ARM_INS_LDRH) if op == 'ldrh' else (0, ARM_INS_STRH)
        rt, rn, imm = fld('rt', 0, 14), fld('rn', 0, 15), fld('imm', 0, 15)
        enc = base | (1 << 24) | (1 << 23) | (1 << 22) | (L << 20) | (rn << 16) | (rt << 12) | 0xb0 | imm
        ops = [R(rt), M(rn, None, imm)]
    elif op in MEMH:
        x, iid = MEMH[op]
        two = op in ('strd', 'ldrd')
        rt, rn, lo, hi = fld('rt', 0, 6 if two else 14), fld('rn', 0, 14), fld('imm', 0, 15), fld('immh', 0, 15)
        if two:
            rt = 2 * rt
        if op == 'strht':
            h.assume(rt != rn)
        enc = base | x | (rn << 16) | (rt << 12) | (hi << 8) | lo
        imm = 16 * hi + lo
        ops = [R(rt)] + ([R(rt + 1)] if two else []) + ([M(rn, None, 0), I(imm)] if op == 'strht' else [M(rn, None, imm)])
    elif op in MEMT:
        x, iid = MEMT[op]
        rt, rn, imm = fld('rt', 0, 14), fld('rn', 0, 14), fld('imm', 1, 4095)
        h.assume(rt != rn)
        enc = base | x | (rn << 16) | (rt << 12) | imm
        ops = [R(rt), M(rn, None, 0), I(imm)]
    elif op in STREX:
        x, iid = STREX[op]
        rd, rt, rn = fld('rd', 0, 14), fld('rt', 0, 14), fld('rn', 0, 14)
        h.assume(h.all([rd != rt, rd != rn]))
        enc = base | x | (rn << 16) | (rd << 12) | rt
        ops = [R(rd), R(rt), M(rn, None, 0)]
    elif op == 'ldrex':
        iid = ARM_INS_LDREX
        rt, rn = fld('rt', 0, 14), fld('rn', 0, 14)
        enc = base | 0x01900f9f | (rn << 16) | (rt << 12)
        ops = [R(rt), M(rn, None, 0)]
    elif op in DP:
        code, iid = DP[op]
        rd, rn = fld('rd', 0, 15), fld('rn', 0, 15)
        if s:
            h.assume(rd != 15)
        enc = base | (code << 21) | (s << 20) | (rn << 16) | (rd << 12)
        flags = s
        if form == 'r':
            rm = fld('rm', 0, 15)
            enc = enc | rm
            ops = [R(rd), R(rn), R(rm)]
        elif form == 's':
            rm, imm = fld('rm', 0, 15), fld('imm', 1, 31)
            enc = enc | (imm << 7) | rm
            ops = [R(rd), R(rn), ('s', rm, imm)]
        elif form == 'h':
            rm, rs = fld('rm', 0, 14), fld('rs', 0, 14)
            h.assume(h.all([rd != 15, rn != 15]))
            enc = enc | (rs << 8) | 0x10 | rm
            ops = [R(rd), R(rn), ('h', rm, rs)]
        else:
            imm = fld('imm', 0, 255)
            if op in ('add', 'sub'):
                h.assume(rn != 15)
            enc = enc | (1 << 25) | imm
            ops = [R(rd), R(rn), I(imm)]
    elif kind == 'mul':
        iid = ARM_INS_MUL
        rd, rm, rs = fld('rd', 0, 14), fld('rm', 0, 14), fld('rs', 0, 14)
        enc = base | (rd << 16) | (rs << 8) | 0x90 | rm
        ops = [R(rd), R(rm), R(rs)]
    elif kind == 'mla':
        iid = ARM_INS_MLA
        rd, rm, rs, ra = fld('rd', 0, 14), fld('rm', 0, 14), fld('rs', 0, 14), fld('ra', 0, 14)
        enc = base | (1 << 21) | (rd << 16) | (ra << 12) | (rs << 8) | 0x90 | rm
        ops = [R(rd), R(rm), R(rs), R(ra)]
    elif kind in ('uxtb', 'clz'):
        iid, x = (ARM_INS_UXTB, 0x06ef0070) if kind == 'uxtb' else (ARM_INS_CLZ, 0x016f0f10)
        rd, rm = fld('rd', 0, 14), fld('rm', 0, 14)
        enc = base | x | (rd << 12) | rm
        ops = [R(rd), R(rm)]
    elif op == 'lsl':
        iid = ARM_INS_LSL
        rd, rm = fld('rd', 0, 14), fld('rm', 0, 14)
        enc = base | (0b1101 << 21) | (rd << 12) | rm
        if form == 'i':
            imm = fld('imm', 1, 31)
            enc = enc | (imm << 7)
            ops = [R(rd), ('s', rm, imm)]
        else:
            rs = fld('rs', 0, 14)
            enc = enc | (rs << 8) | 0x10
            ops = [R(rd), R(rm), R(rs)]
    elif kind == 'svc':
        iid = ARM_INS_SVC
        imm = fld('imm', 0, 0xffffff)
        enc = base | 0x0f000000 | imm
        ops = [I(imm)]
    elif op in CMP:
        code, iid = CMP[op]
        rn = fld('rn', 0, 15)
        flags = 1
        enc = base | (code << 21) | (1 << 20) | (rn << 16)
        if form == 'r':
            rm = fld('rm', 0, 15)
            enc = enc | rm
            ops = [R(rn), R(rm)]
        elif form == 'h':
            rm, rs = fld('rm', 0, 14), fld('rs', 0, 14)
            h.assume(rn != 15)
            enc = enc | (rs << 8) | 0x10 | rm
            ops = [R(rn), ('h', rm, rs)]
        else:
            imm = fld('imm', 0, 255)
            enc = enc | (1 << 25) | imm
            ops = [R(rn), I(imm)]
    elif kind == 'mov_i':
        iid = ARM_INS_MOV
        rd, imm = fld('rd', 0, 15), fld('imm', 0, 255)
        enc = base | (1 << 25) | (0b1101 << 21) | (rd << 12) | imm
        ops = [R(rd), I(imm)]
    elif kind in ('mvn_r', 'mov_r'):
        iid, code = (ARM_INS_MVN, 0b1111) if op == 'mvn' else (ARM_INS_MOV, 0b1101)
        rd, rm = fld('rd', 0, 15), fld('rm', 0, 15)
        if kind == 'mov_r':
            h.assume(h.any([rd != 0, rm != 0]))      # mov r0, r0 is printed as nop
        enc = base | (code << 21) | (rd << 12) | rm
        ops = [R(rd), R(rm)]
    elif kind in ('b', 'bl'):
        iid = ARM_INS_B if kind == 'b' else ARM_INS_BL
        imm = fld('imm', 0, 0xffffff)
        enc = base | (0b101 << 25) | ((1 if kind == 'bl' else 0) << 24) | imm
        off = h.ite(imm >= 0x800000, imm - 0x1000000, imm)
        ops = [('b', off)]
    elif kind == 'blxi':
        # to Thumb code: the top byte has no condition, and a half-word bit
        iid, mn, cond = ARM_INS_BLX, 'blx', 14
        hb, imm = fld('hb', 0, 1), fld('imm', 0, 0xffffff)
        enc = 0xfa000000 | (hb << 24) | imm
        off = h.ite(imm >= 0x800000, imm - 0x1000000, imm)
        ops = [('b', off, 2 * hb)]
    elif kind in ('bx', 'blx'):
        iid = ARM_INS_BX if kind == 'bx' else ARM_INS_BLX
        rm = fld('rm', 0, 14)
        enc = base | 0x012fff10 | (0x20 if kind == 'blx' else 0) | rm
        ops = [R(rm)]
    elif kind[:-1] in LISTS:
        mn, n = kind[:-1], int(kind[-1])
        regs = [fld('abcdefgh'[k], 0, 15) for k in range(n)]
        lst = 0
        for k in range(n):
            if k:
                h.assume(regs[k - 1] < regs[k])
            lst = lst | (1 << regs[k])
        ops = [R(r) for r in regs]
        if kind == 'pop1':
            iid, enc = ARM_INS_POP, base | 0x049d0004 | (regs[0] << 12)
        elif mn == 'push':
            iid, enc = ARM_INS_PUSH, base | 0x092d0000 | lst
        elif mn == 'pop':
            iid, enc = ARM_INS_POP, base | 0x08bd0000 | lst
        else:
            rn = fld('rn', 0, 14)
            L, iid = (1, ARM_INS_LDM) if mn == 'ldm' else (0, ARM_INS_STM)
            enc = base | (0b100 << 25) | (1 << 23) | (L << 20) | (rn << 16) | lst
            ops = [R(rn)] + ops
    else:
        raise ValueError(kind)
    t.enc, t.f, t.cond, t.s, t.id, t.ops, t.flags = enc, f, cond, s, iid, ops, flags
    t.mnemonic = mn + ('s' if s and op in DP else '') + (CONDS[cond] if cond < 15 else '')
    if h.symbolic:
        from . import rt

        def reg(r):
            return 0 if r is None else rt.r_get(REGS, r)

        def mk(addr):
            from .capstub import TplInsn, Rec
            out = []
            for o in ops:
                no = Rec(type=0, value=0)
                if o[0] in 'rsh':
                    v = Rec(reg=reg(o[1]))
                    sh = no if o[0] == 'r' else Rec(type=ARM_SFT_LSL, value=o[2]) if o[0] == 's' else \
                        Rec(type=ARM_SFT_LSL_REG, value=reg(o[2]))
                    out.append(Rec(type=ARM_OP_REG, value=v, reg=v.reg, shift=sh))
                elif o[0] == 'i':
                    v = Rec(imm=o[1])
                    out.append(Rec(type=ARM_OP_IMM, value=v, imm=o[1], shift=no))
                elif o[0] == 'b':
                    # capstone: 32-bit wrap of address + 8 + 4*offset, read back as a signed immediate
                    x = (addr + 8 + 4 * o[1] + (o[2] if len(o) > 2 else 0)) & 0xffffffff
                    x = h.ite(x >= 0x80000000, x - 0x100000000, x)
                    v = Rec(imm=x)
                    out.append(Rec(type=ARM_OP_IMM, value=v, imm=x, shift=no))
                else:
                    mem = Rec(base=reg(o[1]), index=reg(o[2]), disp=o[3], scale=1, lshift=0)
                    out.append(Rec(type=ARM_OP_MEM, value=Rec(mem=mem), mem=mem, shift=no))
            return TplInsn(enc_=enc, id=iid, mnemonic=t.mnemonic, op_str='<operands>', operands=out, cc=cond + 1,
                           update_flags=bool(flags), address=addr, size=4)
        h.templates.append((enc, mk))
    return t
