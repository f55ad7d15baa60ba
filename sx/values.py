"""Symbolic values. SymInt is an exact (unbounded) integer: a signed bit-vector whose width always covers the
tracked interval [lo, hi], so no operation wraps. SymReal is an exact rational (z3 Real)."""
import z3
from fractions import Fraction
from . import core
from .core import MergeAbort, PathCut

MAXW = 700


def sw(lo, hi):
    n = hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()
    m = (-lo - 1).bit_length() if lo < 0 else lo.bit_length()
    return max(n, m) + 1


def fitw(e, w):
    k = e.size()
    if k == w:
        return e
    if k < w:
        return z3.SignExt(w - k, e)
    return z3.Extract(w - 1, 0, e)


def is_intlike(x):
    return isinstance(x, (int, SymInt, SymBool))


def lo_hi(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    if isinstance(x, SymBool):
        return 0, 1
    x = int(x)
    return x, x


def bv(x, w):
    if isinstance(x, SymInt):
        return fitw(x.e, w)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return z3.BitVecVal(int(x), w)


def mkint(e, lo, hi):
    if lo == hi:
        return lo
    w = sw(lo, hi)
    if w > MAXW:
        raise PathCut('integer wider than %d bits' % MAXW)
    return SymInt(fitw(e, w), lo, hi)


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zbool(x):
    """z3 Bool for a truth value (no forking)."""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymInt):
        if x.lo > 0 or x.hi < 0:
            return core.TRUE
        return x.e != z3.BitVecVal(0, x.e.size())
    if isinstance(x, SymReal):
        return x.e != 0
    return core.TRUE if x else core.FALSE


class Sym(object):
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return core.CTX.branch(self.e)

    def as_int(self):
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else mkbool(z3.Not(self.e))
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        return self.as_int() == o

    def __ne__(self, o):
        return bnot(self == o)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.And(self.e, zbool(o)))
        return self.as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Or(self.e, zbool(o)))
        return self.as_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self.e, zbool(o)))
        return self.as_int() ^ o
    __rxor__ = __xor__

    def __str__(self):
        return str(bool(self))
    __repr__ = __str__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'lshift', 'rshift', 'pow', 'radd', 'rsub', 'rmul',
           'rtruediv', 'rfloordiv', 'rmod', 'rlshift', 'rrshift', 'rpow', 'lt', 'le', 'gt', 'ge', 'divmod'):
    def _mk(nm):
        def f(self, o):
            return getattr(self.as_int(), nm)(o)
        return f
    setattr(SymBool, '__%s__' % _n, _mk('__%s__' % _n))
for _n in ('neg', 'pos', 'invert', 'abs'):
    def _mk(nm):
        def f(self):
            return getattr(self.as_int(), nm)()
        return f
    setattr(SymBool, '__%s__' % _n, _mk('__%s__' % _n))


def bnot(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    if isinstance(x, (SymInt, SymReal)):
        return mkbool(z3.Not(zbool(x)))
    return not x


def _cmp(op, a, b):
    al, ah = lo_hi(a)
    bl, bh = lo_hi(b)
    if op == 'lt':
        if ah < bl:
            return True
        if al >= bh:
            return False
        w = max(sw(al, ah), sw(bl, bh))
        return mkbool(bv(a, w) < bv(b, w))
    if op == 'le':
        if ah <= bl:
            return True
        if al > bh:
            return False
        w = max(sw(al, ah), sw(bl, bh))
        return mkbool(bv(a, w) <= bv(b, w))
    if ah < bl or al > bh:
        return False
    if al == ah == bl == bh:
        return True
    w = max(sw(al, ah), sw(bl, bh))
    return mkbool(bv(a, w) == bv(b, w))


class SymInt(Sym):
    __slots__ = ('e', 'lo', 'hi', 'tok', 'hexv')

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.tok = None

    # ---- realization
    def realize(self):
        if self.lo == self.hi:
            return self.lo
        w = self.e.size()
        return core.CTX.concretize(self.e, lambda v: z3.BitVecVal(v, w))

    def __bool__(self):
        return core.CTX.branch(zbool(self))

    def __index__(self):
        return self.realize()

    __int__ = __index__
    __trunc__ = __index__

    def __hash__(self):
        return hash(self.realize())

    def __float__(self):
        return float(self.realize())

    def __str__(self):
        c = core.CTX
        if self.tok is None:
            self.tok = '7777777%011d' % len(c.tokens)
            c.tokens[self.tok] = self
        return self.tok
    __repr__ = __str__

    def __format__(self, spec):
        return self.__str__()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # ---- int API
    def bit_length(self):
        return self.realize().bit_length()

    def bit_count(self):
        r = 0
        for i in range(sw(self.lo, self.hi)):
            r = ((self >> i) & 1) + r
        return r

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        length = length.__index__()
        if signed:
            ok = andb(self >= -(1 << (8 * length - 1)), self < (1 << (8 * length - 1)))
        else:
            ok = andb(self >= 0, self < (1 << (8 * length)))
        if not ok:
            raise OverflowError('int too big to convert')
        from .strs import SymBytes
        b = [(self >> (8 * i)) & 0xff for i in range(length)]
        if byteorder == 'big':
            b.reverse()
        return SymBytes.make(b)

    def is_integer(self):
        return True

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, float) or isinstance(o, SymReal):
            return toreal(self) + o
        if not is_intlike(o):
            return NotImplemented
        bl, bh = lo_hi(o)
        lo, hi = self.lo + bl, self.hi + bh
        w = max(sw(lo, hi), 1)
        return mkint(bv(self, w) + bv(o, w), lo, hi)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float) or isinstance(o, SymReal):
            return toreal(self) - o
        if not is_intlike(o):
            return NotImplemented
        bl, bh = lo_hi(o)
        lo, hi = self.lo - bh, self.hi - bl
        w = sw(lo, hi)
        return mkint(bv(self, w) - bv(o, w), lo, hi)

    def __rsub__(self, o):
        if isinstance(o, float):
            return toreal(o) - toreal(self)
        if not is_intlike(o):
            return NotImplemented
        al, ah = lo_hi(o)
        lo, hi = al - self.hi, ah - self.lo
        w = sw(lo, hi)
        return mkint(bv(o, w) - bv(self, w), lo, hi)

    def __mul__(self, o):
        if isinstance(o, float) or isinstance(o, SymReal):
            return toreal(self) * o
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.realize()
        if not is_intlike(o):
            return NotImplemented
        bl, bh = lo_hi(o)
        c = [self.lo * bl, self.lo * bh, self.hi * bl, self.hi * bh]
        lo, hi = min(c), max(c)
        w = sw(lo, hi)
        return mkint(bv(self, w) * bv(o, w), lo, hi)
    __rmul__ = __mul__

    def __neg__(self):
        w = sw(-self.hi, -self.lo)
        return mkint(-bv(self, w), -self.hi, -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return ite(self >= 0, self, -self)

    def __invert__(self):
        w = sw(-self.hi - 1, -self.lo - 1)
        return mkint(~bv(self, w), -self.hi - 1, -self.lo - 1)

    def _bit(self, o, op):
        if not is_intlike(o):
            return NotImplemented
        al, ah = self.lo, self.hi
        bl, bh = lo_hi(o)
        w = max(sw(al, ah), sw(bl, bh))
        x, y = bv(self, w), bv(o, w)
        full = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if op == '&':
            e = x & y
            if al >= 0 and bl >= 0:
                r = (0, min(ah, bh))
            elif al >= 0:
                r = (0, ah)
            elif bl >= 0:
                r = (0, bh)
            else:
                r = full
        elif op == '|':
            e = x | y
            if al >= 0 and bl >= 0:
                r = (max(al, bl), (1 << max(ah.bit_length(), bh.bit_length())) - 1)
            else:
                r = full
        else:
            e = x ^ y
            if al >= 0 and bl >= 0:
                r = (0, (1 << max(ah.bit_length(), bh.bit_length())) - 1)
            else:
                r = full
        return mkint(e, *r)

    def __and__(self, o):
        return self._bit(o, '&')
    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, '|')
    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, '^')
    __rxor__ = __xor__

    def __lshift__(self, o):
        return lshift(self, o)

    def __rlshift__(self, o):
        return lshift(o, self)

    def __rshift__(self, o):
        return rshift(self, o)

    def __rrshift__(self, o):
        return rshift(o, self)

    def __truediv__(self, o):
        return truediv(self, o)

    def __rtruediv__(self, o):
        return truediv(o, self)

    def __floordiv__(self, o):
        return intdiv(self, o)[0] if is_intlike(o) else realfloordiv(self, o)

    def __rfloordiv__(self, o):
        return intdiv(o, self)[0] if is_intlike(o) else realfloordiv(o, self)

    def __mod__(self, o):
        if not is_intlike(o):
            return toreal(self) % o
        return intdiv(self, o)[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            return str.__mod__(o, (str(self),))
        if not is_intlike(o):
            return toreal(o) % self
        return intdiv(o, self)[1]

    def __divmod__(self, o):
        return intdiv(self, o)

    def __rdivmod__(self, o):
        return intdiv(o, self)

    def __pow__(self, o, m=None):
        if m is None and isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.realize(), o.__index__(), m)

    def __rpow__(self, o, m=None):
        if isinstance(o, int) and o == 2 and m is None:
            if self.lo < 0:
                if self < 0:
                    return 2.0 ** self.realize()
                return lshift(1, clampnn(self))
            return lshift(1, self)
        return pow(o, self.realize(), m)

    # ---- comparison
    def __eq__(self, o):
        if isinstance(o, float):
            if o != o or o in (float('inf'), float('-inf')) or not float(o).is_integer():
                return False
            o = int(o)
        if isinstance(o, SymReal):
            return toreal(self) == o
        if not is_intlike(o):
            return False
        return _cmp('eq', self, o)

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def __lt__(self, o):
        if isinstance(o, (float, SymReal)):
            return toreal(self) < o
        if not is_intlike(o):
            return NotImplemented
        return _cmp('lt', self, o)

    def __le__(self, o):
        if isinstance(o, (float, SymReal)):
            return toreal(self) <= o
        if not is_intlike(o):
            return NotImplemented
        return _cmp('le', self, o)

    def __gt__(self, o):
        if isinstance(o, (float, SymReal)):
            return toreal(self) > o
        if not is_intlike(o):
            return NotImplemented
        return _cmp('lt', o, self)

    def __ge__(self, o):
        if isinstance(o, (float, SymReal)):
            return toreal(self) >= o
        if not is_intlike(o):
            return NotImplemented
        return _cmp('le', o, self)

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self


def clampnn(s):
    """A value known (by the path condition) to be non-negative."""
    return mkint(fitw(s.e, sw(0, s.hi)), 0, s.hi) if s.lo < 0 else s


def lshift(a, b):
    if not (is_intlike(a) and is_intlike(b)):
        return NotImplemented
    bl, bh = lo_hi(b)
    if bl < 0:
        if b < 0:
            raise ValueError('negative shift count')
        b = clampnn(b) if isinstance(b, SymInt) else b
        bl, bh = lo_hi(b)
    if bh > 300:
        b = b.realize() if isinstance(b, SymInt) else b
        bl, bh = lo_hi(b)
    al, ah = lo_hi(a)
    lo = (al << bh) if al < 0 else (al << bl)
    hi = (ah << bh) if ah >= 0 else (ah << bl)
    w = max(sw(lo, hi), sw(bl, bh))
    return mkint(bv(a, w) << bv(b, w), lo, hi)


def rshift(a, b):
    if not (is_intlike(a) and is_intlike(b)):
        return NotImplemented
    bl, bh = lo_hi(b)
    if bl < 0:
        if b < 0:
            raise ValueError('negative shift count')
        b = clampnn(b) if isinstance(b, SymInt) else b
        bl, bh = lo_hi(b)
    al, ah = lo_hi(a)
    lo = (al >> bl) if al < 0 else (al >> bh)
    hi = (ah >> bl) if ah >= 0 else (ah >> bh)
    if not isinstance(b, Sym) and bl >= sw(al, ah):
        e = bv(a, sw(al, ah)) >> z3.BitVecVal(sw(al, ah) - 1, sw(al, ah))
        return mkint(e, lo, hi)
    w = max(sw(al, ah), sw(bl, bh))
    return mkint(bv(a, w) >> bv(b, w), lo, hi)


def intdiv(a, b):
    bl, bh = lo_hi(b)
    if bl <= 0 <= bh:
        if isinstance(b, Sym):
            if b == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if bl < 0 and bh > 0:
                if b > 0:
                    b = mkint(b.e, 1, bh)
                else:
                    b = mkint(b.e, bl, -1)
            elif bl == 0:
                b = mkint(bv(b, sw(0, bh)), 1, bh)
            else:
                b = mkint(b.e, bl, -1)
            bl, bh = lo_hi(b)
        else:
            raise ZeroDivisionError('integer division or modulo by zero')
    al, ah = lo_hi(a)
    if not isinstance(b, Sym) and bl > 0 and (bl & (bl - 1)) == 0:
        k = bl.bit_length() - 1
        return rshift(a, k), (a & (bl - 1) if isinstance(a, Sym) else a & (bl - 1))
    c = [al // bl, al // bh, ah // bl, ah // bh]
    qlo, qhi = min(c), max(c)
    if al < 0 < ah:
        qlo, qhi = min(qlo, 0), max(qhi, 0)
    rlo, rhi = (0, bh - 1) if bl > 0 else (bl + 1, 0)
    if al >= 0 and bl > 0:
        rhi = min(rhi, ah)
        w = max(sw(al, ah), sw(bl, bh))
        x, y = bv(a, w), bv(b, w)
        return mkint(z3.UDiv(x, y), qlo, qhi), mkint(z3.URem(x, y), rlo, rhi)
    w = max(sw(al, ah), sw(bl, bh), sw(qlo, qhi)) + 1
    x, y = bv(a, w), bv(b, w)
    q, r = x / y, z3.SRem(x, y)
    adj = z3.And(r != 0, (r < 0) != (y < 0))
    q2 = z3.If(adj, q - 1, q)
    r2 = z3.If(adj, r + y, r)
    return mkint(q2, qlo, qhi), mkint(r2, rlo, rhi)


def truediv(a, b):
    if isinstance(b, Sym):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        if isinstance(b, SymInt) and (b.hi - b.lo) <= 64:
            b = b.realize()
            if not isinstance(a, Sym):
                return a / b
    elif b == 0:
        raise ZeroDivisionError('division by zero')
    r = toreal(a) / toreal(b)
    if isinstance(a, SymInt) and isinstance(b, int) and b > 0:
        r.rat = (a, b)
    return r


def realfloordiv(a, b):
    return (toreal(a) / toreal(b)).floor()


def int2real(x):
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if x.hi - x.lo <= 16:
        w = x.e.size()
        e = z3.RealVal(x.hi)
        for v in range(x.lo, x.hi):
            e = z3.If(x.e == z3.BitVecVal(v, w), z3.RealVal(v), e)
        return e
    w = x.e.size()
    terms = []
    for i in range(w):
        c = -(1 << i) if i == w - 1 else (1 << i)
        if i == w - 1 and x.lo >= 0:
            continue
        terms.append(z3.If(z3.Extract(i, i, x.e) == 1, z3.RealVal(c), z3.RealVal(0)))
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


def toreal(x):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, (SymInt, SymBool)):
        l, h = lo_hi(x)
        return SymReal(int2real(x), Fraction(l), Fraction(h))
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return SymReal(z3.RealVal(x), Fraction(x), Fraction(x))
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise PathCut('non-finite float meets a symbolic number')
        x = Fraction(repr(x))
    if isinstance(x, Fraction):
        return SymReal(z3.RealVal(x), x, x)
    try:
        return toreal(float(x))
    except (TypeError, ValueError):
        return None


class SymReal(Sym):
    """Exact rational; Python floats entering it are read as their decimal literal."""
    __slots__ = ('e', 'lo', 'hi', 'rat')

    def __init__(self, e, lo, hi, rat=None):
        self.e, self.lo, self.hi = e, lo, hi
        if core.CTX is not None and core.CTX.bv_only and not z3.is_rational_value(e):
            core.CTX.use_reals()
        self.rat = rat              # (symbolic integer, positive int) when the value is their quotient

    def _mk(self, e, lo, hi):
        return SymReal(e, lo, hi)

    def realize(self):
        if self.lo is not None and self.lo == self.hi:
            return float(self.lo)
        v = core.CTX.concretize(self.e, lambda v: z3.RealVal(Fraction(*v)))
        return float(Fraction(*v))

    def __bool__(self):
        return core.CTX.branch(zbool(self))

    def __float__(self):
        return self.realize()

    def __int__(self):
        return int(self.realize())

    def __hash__(self):
        return hash(self.realize())

    def __str__(self):
        return '<real>'
    __repr__ = __str__

    def __format__(self, spec):
        return '<real>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def floor(self):
        if self.rat is not None:
            return intdiv(*self.rat)[0]
        return self._toint(z3.ToInt(self.e))

    def _toint(self, e):
        v = core.CTX.concretize(e, lambda v: z3.IntVal(v))
        return v

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        if self.rat is not None:
            return -(intdiv(-self.rat[0], self.rat[1])[0])
        return -((-self).floor())

    def __trunc__(self):
        if self.lo >= 0:
            return self.floor()
        if self >= 0:
            return self.floor()
        return self.__ceil__()

    def __round__(self, n=None):
        return round(self.realize(), n) if n is not None else round(self.realize())

    def __add__(self, o):
        o = toreal(o)
        if o is None:
            return NotImplemented
        return SymReal(self.e + o.e, self.lo + o.lo, self.hi + o.hi)
    __radd__ = __add__

    def __neg__(self):
        return SymReal(-self.e, -self.hi, -self.lo)

    def __sub__(self, o):
        o = toreal(o)
        if o is None:
            return NotImplemented
        return SymReal(self.e - o.e, self.lo - o.hi, self.hi - o.lo)

    def __rsub__(self, o):
        o = toreal(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        o = toreal(o)
        if o is None:
            return NotImplemented
        c = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        return SymReal(self.e * o.e, min(c), max(c))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = toreal(o)
        if o is None:
            return NotImplemented
        if o.lo <= 0 <= o.hi:
            if o.lo == o.hi or o == 0:
                raise ZeroDivisionError('division by zero')
            lo, hi = Fraction(-10 ** 30), Fraction(10 ** 30)
        else:
            c = [self.lo / o.lo, self.lo / o.hi, self.hi / o.lo, self.hi / o.hi]
            lo, hi = min(c), max(c)
        return SymReal(self.e / o.e, lo, hi)

    def __rtruediv__(self, o):
        o = toreal(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 6:
            r = toreal(1)
            for _ in range(o):
                r = r * self
            return r
        return self.realize() ** o

    def __rpow__(self, o):
        return o ** self.realize()

    def __mod__(self, o):
        o = toreal(o)
        return self - o * (self / o).floor()

    def __rmod__(self, o):
        return toreal(o) % self

    def __floordiv__(self, o):
        return toreal((self / toreal(o)).floor())

    def __abs__(self):
        return ite(self >= 0, self, -self)

    def __eq__(self, o):
        o = toreal(o) if not (o is None or isinstance(o, (str, list, tuple, dict))) else None
        if o is None:
            return False
        if self.hi < o.lo or self.lo > o.hi:
            return False
        return mkbool(z3.simplify(self.e == o.e))

    def __ne__(self, o):
        return bnot(self == o)

    def _c(self, o, f):
        if isinstance(o, float) and (o in (float('inf'), float('-inf')) or o != o):
            return f(0.0, o)
        o = toreal(o)
        if o is None:
            return NotImplemented
        return mkbool(z3.simplify(f(self.e, o.e)))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)


def is_sym(x):
    return isinstance(x, Sym)


def merge(c, a, b):
    """If(c, a, b) without forking, or MergeAbort."""
    if a is b:
        return a
    if isinstance(c, bool):
        return a if c else b
    ta, tb = type(a), type(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym) and ta is tb and ta in (int, bool, str, float):
        if a == b:
            return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.simplify(z3.If(c.e, zbool(a), zbool(b))) if not (is_sym(a) and is_sym(b))
                      else z3.If(c.e, a.e, b.e))
    if is_intlike(a) and is_intlike(b):
        al, ah = lo_hi(a)
        bl, bh = lo_hi(b)
        lo, hi = min(al, bl), max(ah, bh)
        if lo == hi:
            return lo
        w = sw(lo, hi)
        return mkint(z3.If(c.e, bv(a, w), bv(b, w)), lo, hi)
    if isinstance(a, (int, float, Sym, Fraction)) and isinstance(b, (int, float, Sym, Fraction)):
        x, y = toreal(a), toreal(b)
        return SymReal(z3.If(c.e, x.e, y.e), min(x.lo, y.lo), max(x.hi, y.hi))
    if ta is tuple and tb is tuple and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    raise MergeAbort()


def ite(c, a, b):
    """If-then-else; forks when the arms cannot be merged."""
    if isinstance(c, SymInt):
        c = mkbool(zbool(c))
    if not isinstance(c, SymBool):
        return a if c else b
    try:
        return merge(c, a, b)
    except MergeAbort:
        if core.CTX.spec:
            raise
        return a if bool(c) else b


def andb(*xs):
    es = []
    for x in xs:
        e = zbool(x)
        if z3.is_false(e):
            return False
        if not z3.is_true(e):
            es.append(e)
    if not es:
        return True
    return mkbool(z3.And(es) if len(es) > 1 else es[0])


def orb(*xs):
    es = []
    for x in xs:
        e = zbool(x)
        if z3.is_true(e):
            return True
        if not z3.is_false(e):
            es.append(e)
    if not es:
        return False
    return mkbool(z3.Or(es) if len(es) > 1 else es[0])
