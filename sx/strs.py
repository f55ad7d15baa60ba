"""Strings and byte strings with symbolic characters (concrete lengths)."""
import z3
from . import core
from .values import SymInt, Sym, SymBool, andb, orb, bnot, ite, is_sym, mkbool, lo_hi

WS = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0)


def code(c):
    return ord(c) if isinstance(c, str) else c


class SymStr(Sym):
    """cs: list of character codes, int or SymInt."""
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = list(cs)

    @staticmethod
    def make(cs):
        if all(isinstance(c, int) for c in cs):
            return ''.join(map(chr, cs))
        return SymStr(cs)

    @staticmethod
    def codes(s):
        if isinstance(s, SymStr):
            return s.cs
        return [ord(c) for c in s]

    def realize(self):
        return ''.join(chr(c if isinstance(c, int) else c.realize()) for c in self.cs)

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __iter__(self):
        return iter([SymStr.make([c]) for c in self.cs])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr.make(self.cs[i])
        return SymStr.make([self.cs[i]])

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr.make(self.cs + SymStr.codes(o))

    def __radd__(self, o):
        return SymStr.make(SymStr.codes(o) + self.cs)

    def __mul__(self, n):
        return SymStr.make(self.cs * n)

    def __mod__(self, o):
        return self.realize() % o

    def __rmod__(self, o):
        return o % self.realize()

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)) or len(o) != len(self.cs):
            return False
        return andb(*[a == b for a, b in zip(self.cs, SymStr.codes(o))])

    def __ne__(self, o):
        return bnot(self == o)

    def _lt(self, o, orequal):
        oc = SymStr.codes(o)
        for a, b in zip(self.cs, oc):
            if a == b:
                continue
            return a < b
        return len(self.cs) <= len(oc) if orequal else len(self.cs) < len(oc)

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        return bnot(self._lt(o, True))

    def __ge__(self, o):
        return bnot(self._lt(o, False))

    def __hash__(self):
        return hash(self.realize())

    def __str__(self):
        return self.realize()
    __repr__ = __str__

    def __format__(self, spec):
        return format(self.realize(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # --- predicates
    @staticmethod
    def _isws(c):
        return orb(*[c == w for w in WS])

    def isspace(self):
        return andb(*[self._isws(c) for c in self.cs]) if self.cs else False

    def _all(self, ranges):
        if not self.cs:
            return False
        return andb(*[orb(*[andb(c >= ord(a), c <= ord(b)) for a, b in ranges]) for c in self.cs])

    def isdigit(self):
        return self._all(['09'])
    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(['az', 'AZ'])

    def isalnum(self):
        return self._all(['az', 'AZ', '09'])

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return orb(*[self.startswith(q, start, end) for q in p])
        cs = self.cs[start:end]
        pc = SymStr.codes(p)
        if len(pc) > len(cs):
            return False
        return andb(*[a == b for a, b in zip(cs, pc)])

    def endswith(self, p):
        if isinstance(p, tuple):
            return orb(*[self.endswith(q) for q in p])
        pc = SymStr.codes(p)
        if len(pc) > len(self.cs):
            return False
        return andb(*[a == b for a, b in zip(self.cs[len(self.cs) - len(pc):], pc)])

    def _at(self, i, pc):
        return andb(*[self.cs[i + j] == pc[j] for j in range(len(pc))])

    def contains(self, p):
        pc = SymStr.codes(p)
        return orb(*[self._at(i, pc) for i in range(len(self.cs) - len(pc) + 1)])

    def __contains__(self, p):
        return bool(self.contains(p))

    def find(self, p, start=0, end=None):
        pc = SymStr.codes(p)
        stop = len(self.cs) if end is None else min(end, len(self.cs))
        for i in range(start, stop - len(pc) + 1):
            if self._at(i, pc):
                return i
        return -1

    def rfind(self, p):
        pc = SymStr.codes(p)
        for i in range(len(self.cs) - len(pc), -1, -1):
            if self._at(i, pc):
                return i
        return -1

    def index(self, p, start=0):
        i = self.find(p, start)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, p):
        n, i = 0, 0
        while True:
            i = self.find(p, i)
            if i < 0:
                return n
            n += 1
            i += len(p)

    # --- transformations
    def lower(self):
        return SymStr.make([c + 32 if isinstance(c, int) and 65 <= c <= 90 else
                            (c if isinstance(c, int) else ite(andb(c >= 65, c <= 90), c + 32, c)) for c in self.cs])
    casefold = lower

    def upper(self):
        return SymStr.make([c - 32 if isinstance(c, int) and 97 <= c <= 122 else
                            (c if isinstance(c, int) else ite(andb(c >= 97, c <= 122), c - 32, c)) for c in self.cs])

    def _strip(self, chars, left, right):
        test = self._isws if chars is None else (lambda c: orb(*[c == k for k in SymStr.codes(chars)]))
        i, j = 0, len(self.cs)
        if left:
            while i < j and test(self.cs[i]):
                i += 1
        if right:
            while j > i and test(self.cs[j - 1]):
                j -= 1
        return SymStr.make(self.cs[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        out, cur = [], []
        if sep is None:
            i, n = 0, len(self.cs)
            while i < n:
                while i < n and self._isws(self.cs[i]):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(SymStr.make(self.cs[i:])._strip(None, False, True)
                               if isinstance(SymStr.make(self.cs[i:]), SymStr)
                               else SymStr.make(self.cs[i:]).rstrip())
                    return out
                j = i
                while j < n and not self._isws(self.cs[j]):
                    j += 1
                out.append(SymStr.make(self.cs[i:j]))
                i = j
            return out
        pc = SymStr.codes(sep)
        if not pc:
            raise ValueError('empty separator')
        i = 0
        while i < len(self.cs):
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(pc) <= len(self.cs) and self._at(i, pc):
                out.append(SymStr.make(cur))
                cur = []
                i += len(pc)
            else:
                cur.append(self.cs[i])
                i += 1
        out.append(SymStr.make(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None or maxsplit != 1:
            return self.realize().rsplit(sep, maxsplit)
        i = self.rfind(sep)
        if i < 0:
            return [self]
        return [SymStr.make(self.cs[:i]), SymStr.make(self.cs[i + len(sep):])]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return SymStr.make(self.cs[:i]), sep, SymStr.make(self.cs[i + len(sep):])

    def splitlines(self, keepends=False):
        parts = self.split('\n')
        if len(parts[-1]) == 0:
            parts.pop()
        return parts

    def replace(self, a, b, count=-1):
        parts = self.split(a, count)
        return join(b, parts)

    def join(self, it):
        return join(self, it)

    def zfill(self, n):
        return SymStr.make([48] * max(0, n - len(self.cs)) + self.cs)

    def encode(self, *a):
        return SymBytes.make(self.cs)

    def rjust(self, n, f=' '):
        return SymStr.make([ord(f)] * max(0, n - len(self.cs)) + self.cs)

    def ljust(self, n, f=' '):
        return SymStr.make(self.cs + [ord(f)] * max(0, n - len(self.cs)))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.realize(), name)


def join(sep, it):
    parts = list(it)
    if not isinstance(sep, SymStr) and not any(isinstance(p, SymStr) for p in parts):
        return sep.join(parts)
    out, sc = [], SymStr.codes(sep)
    for k, p in enumerate(parts):
        if not isinstance(p, (str, SymStr)):
            raise TypeError('sequence item %d: expected str instance' % k)
        if k:
            out.extend(sc)
        out.extend(SymStr.codes(p))
    return SymStr.make(out)


def parse_int(s, base=10):
    """int(SymStr, base)."""
    cs = s._strip(None, True, True)
    if not isinstance(cs, SymStr):
        return int(cs, base)
    cs = list(cs.cs)
    neg = False
    if isinstance(cs[0], int) and cs[0] in (43, 45):
        neg = cs[0] == 45
        cs = cs[1:]
    if base in (16, 0) and len(cs) > 2 and andb(cs[0] == 48, orb(cs[1] == 120, cs[1] == 88)):
        cs, base = cs[2:], 16
    if base == 0:
        base = 10
    if not cs:
        raise ValueError('invalid literal for int()')
    val = 0
    for c in cs:
        if isinstance(c, int):
            d = int(chr(c), base)
        elif getattr(c, 'hexv', None) is not None and base >= 10 and (base >= 16 or c.hexv.hi < base):
            d = c.hexv
        else:
            dig = andb(c >= 48, c <= 47 + min(base, 10))
            lowc = andb(c >= 97, c < 97 + base - 10) if base > 10 else False
            upc = andb(c >= 65, c < 65 + base - 10) if base > 10 else False
            if not orb(dig, lowc, upc):
                raise ValueError('invalid literal for int() with base %d' % base)
            d = ite(dig, c - 48, ite(lowc, c - 87, c - 55)) if base > 10 else c - 48
            if isinstance(d, SymInt):
                d = d & (15 if base > 8 else 7) if base in (16, 8) else d
                if base == 10 and (d.lo < 0 or d.hi > 9):
                    from .values import mkint, fitw, sw
                    d = mkint(fitw(d.e, 5), 0, 9) if d.e.size() >= 5 else d
        if base & (base - 1) == 0:
            val = (val << (base.bit_length() - 1)) | d
        else:
            val = val * base + d
    return -val if neg else val


class SymBytes(Sym):
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = list(cs)

    @staticmethod
    def make(cs):
        if all(isinstance(c, int) for c in cs):
            return bytes(cs)
        return SymBytes(cs)

    def realize(self):
        return bytes(c if isinstance(c, int) else c.realize() for c in self.cs)

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __iter__(self):
        return iter(self.cs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes.make(self.cs[i])
        return self.cs[i]

    def __add__(self, o):
        return SymBytes.make(self.cs + list(o))

    def __radd__(self, o):
        return SymBytes.make(list(o) + self.cs)

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)) or len(o) != len(self.cs):
            return False
        return andb(*[a == b for a, b in zip(self.cs, list(o))])

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        return hash(self.realize())

    def hex(self):
        h = []
        for c in self.cs:
            for n in ((c >> 4) & 15, c & 15):
                h.append(hexdigit(n))
        return SymStr.make(h)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.realize(), name)


def hexdigit(n):
    if isinstance(n, int):
        return ord('0123456789abcdef'[n])
    from .values import ite as _ite
    r = _ite(n < 10, n + 48, n + 87)
    r.lo, r.hi = max(r.lo, 48), min(r.hi, 102)
    r.hexv = n
    return r


def int_from_bytes(b, byteorder='big', signed=False):
    cs = list(b)
    if byteorder == 'little':
        cs.reverse()
    v = 0
    for c in cs:
        v = (v << 8) | c
    if signed and cs:
        n = 8 * len(cs)
        v = ite(v >= (1 << (n - 1)), v - (1 << n), v)
    return v
