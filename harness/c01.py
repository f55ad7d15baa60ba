"""Bits: exact bit-field primitives."""
BOUNDS = 'values: every 32-bit word; bit indexes: every integer in [-3, 40]; loop-free code, so no unrolling'
OUTSIDE = 'words wider than 32 bits, indexes further outside the range'
ASSUMES = []


def configs(tier):
    from sx.driver import Cfg
    return [Cfg('copy_exact'), Cfg('copy_rejects'), Cfg('set_exact'), Cfg('set_rejects'), Cfg('queries'),
            Cfg('range_check')]


def copy_exact(h):
    from semantic_codec.architecture.bits import Bits
    a = h.int('value_from', 0, 0xffffffff)
    b = h.int('value_to', 0, 0xffffffff)
    lo = h.int('src_from', 0, 31)
    hi = h.int('src_to', 0, 31)
    d = h.int('dest_from', 0, 31)
    h.assume(lo <= hi)
    h.assume(d + hi - lo <= 31)
    r = Bits.copy_bits(a, b, lo, hi, d)
    k = h.int('bit', 0, 31)
    inside = h.all([k >= d, k <= d + hi - lo])
    src = h.ite(inside, k - d + lo, 0)
    src = h.ite(h.any([src < 0, src > 31]), 0, src)
    want = h.ite(inside, (a >> src) & 1, (b >> k) & 1)
    h.check(((r >> k) & 1) == want, 'copy_bits moves exactly the requested bits')
    h.check(h.all([r >= 0, r <= 0xffffffff]), 'copy_bits result is a 32-bit word')


def copy_rejects(h):
    from semantic_codec.architecture.bits import Bits
    lo = h.int('src_from', -3, 40)
    hi = h.int('src_to', -3, 40)
    d = h.int('dest_from', -3, 40)
    bad = h.any([lo < 0, hi > 31, lo > hi, d < 0, d + hi - lo > 31])
    h.assume(bad)
    try:
        Bits.copy_bits(0xdeadbeef, 0, lo, hi, d)
    except RuntimeError:
        h.cover('rejected')
        h.check(True, '')
        return
    h.check(False, 'copy_bits accepts an invalid range')


def set_exact(h):
    from semantic_codec.architecture.bits import Bits
    hi = h.int('higher', 0, 31)
    lo = h.int('lower', 0, 31)
    h.assume(lo <= hi)
    r = Bits.set(hi, lo)
    k = h.int('bit', 0, 40)
    h.check(((r >> k) & 1) == h.ite(h.all([k >= lo, k <= hi]), 1, 0), 'Bits.set sets exactly bits lower..higher')


def set_rejects(h):
    from semantic_codec.architecture.bits import Bits
    hi = h.int('higher', -3, 40)
    lo = h.int('lower', -3, 40)
    h.assume(h.any([lo < 0, hi > 31, lo > hi]))
    try:
        Bits.set(hi, lo)
    except RuntimeError:
        h.check(True, '')
        return
    h.check(False, 'Bits.set accepts an invalid range')


def queries(h):
    from semantic_codec.architecture.bits import Bits
    v = h.int('value', 0, 0xffffffff)
    k = h.int('bit', 0, 31)
    lo = h.int('lower', 0, 31)
    hi = h.int('higher', 0, 31)
    h.assume(lo <= hi)
    h.check(Bits.is_on(v, k) == (((v >> k) & 1) == 1), 'is_on reads the bit')
    h.check(Bits.on(k) == (1 << k), 'on is a single bit')
    field = (v >> lo) & ((1 << (hi - lo + 1)) - 1)
    h.check(Bits.are_on(v, hi, lo) == (field != 0), 'are_on sees any set bit of the field')
    try:
        Bits.are_on(v, lo - 1, hi + 1)
        ok = False
    except RuntimeError:
        ok = True
    h.check(ok, 'are_on accepts an invalid range')


def range_check(h):
    from semantic_codec.architecture.bits import Bits
    lo = h.int('lo', -3, 40)
    hi = h.int('hi', -3, 40)
    try:
        Bits.check_range(lo, hi)
        ok = True
    except RuntimeError:
        ok = False
    h.check(h.all([lo >= 0, hi <= 31, lo <= hi]) == ok, 'check_range accepts exactly the sub-ranges of 0..31')
