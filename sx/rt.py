"""Runtime helpers the rewritten code calls, and the shadow builtins."""
import builtins
import operator
import z3
from . import core
from .core import Control, MergeAbort, PathCut
from .values import (Sym, SymBool, SymInt, SymReal, bnot, andb, orb, ite, merge, zbool, mkbool, is_sym, toreal,
                     is_intlike, lo_hi, mkint, bv, sw)
from .cont import SDict, SSet, View, eq, contains, has_sym
from .strs import SymStr, SymBytes, join, parse_int, int_from_bytes, hexdigit

UNB = object()


class Opaque(Sym):
    """An object whose truth value is symbolic (decoder output of an encoding outside the templates)."""


def symtruth(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (SymInt, SymReal)):
        return mkbool(zbool(x))
    d = getattr(type(x), '_sx_truth', None)
    if d is not None:
        return d(x)
    return None


# ------------------------------------------------------------------ operators
def r_eq(a, b):
    return eq(a, b)


def r_ne(a, b):
    if is_sym(a) or is_sym(b) or type(a) in (list, tuple) or isinstance(a, (SDict, SSet)):
        return bnot(eq(a, b))
    return a != b


def r_in(a, c):
    return contains(a, c)


def r_notin(a, c):
    return bnot(contains(a, c))


def r_is(a, b):
    if a is b:
        return True
    if a is None or b is None:
        o = b if a is None else a
        d = getattr(type(o), '_sx_truth', None)
        if d is not None:
            return bnot(d(o))
        return False
    if is_sym(a) or is_sym(b):
        if isinstance(a, bool) or isinstance(b, bool):
            o = b if isinstance(a, bool) else a
            if not isinstance(o, SymBool):
                return False
        return eq(a, b)
    return False


def r_isnot(a, b):
    return bnot(r_is(a, b))


def r_not(x):
    t = symtruth(x)
    if t is not None:
        return bnot(t)
    return not x


class _Spec(object):
    def __enter__(self):
        core.CTX.spec += 1

    def __exit__(self, *a):
        core.CTX.spec -= 1


def speculate(thunk):
    """Evaluate thunk without letting it fork; raises MergeAbort when that is impossible."""
    c = core.CTX
    c.spec += 1
    try:
        return thunk()
    except MergeAbort:
        raise
    except Control:
        raise
    except Exception:
        raise MergeAbort()
    finally:
        c.spec -= 1


def _bool_chain(first, rest, is_and):
    acc = first
    i = 0
    while i < len(rest):
        t = symtruth(acc)
        if t is None or isinstance(t, bool):
            tv = bool(acc) if t is None else t
            if tv != is_and:
                return acc
            acc = rest[i][1]()
            i += 1
            continue
        # symbolic so far
        pure, thunk = rest[i]
        if pure and isinstance(acc, SymBool):
            try:
                v = speculate(thunk)
                if isinstance(v, (bool, SymBool)):
                    acc = andb(acc, v) if is_and else orb(acc, v)
                    i += 1
                    continue
            except MergeAbort:
                if core.CTX.spec:
                    raise
        if bool(t) != is_and:
            return acc if not isinstance(acc, SymBool) else (not is_and)
        acc = thunk()
        i += 1
    return acc


def r_and(first, *rest):
    return _bool_chain(first, rest, True)


def r_or(first, *rest):
    return _bool_chain(first, rest, False)


_OPF = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge, 'eq': r_eq, 'ne': r_ne,
        'in': r_in, 'notin': r_notin, 'is': r_is, 'isnot': r_isnot}


def r_chain(left, *items):
    acc = True
    for op, pure, thunk in items:
        if isinstance(acc, SymBool):
            if pure:
                try:
                    right = speculate(thunk)
                    r = speculate(lambda: _OPF[op](left, right))
                    if isinstance(r, (bool, SymBool)):
                        acc = andb(acc, r)
                        left = right
                        continue
                except MergeAbort:
                    if core.CTX.spec:
                        raise
            if not bool(acc):
                return False
        elif not acc:
            return acc
        right = thunk()
        acc = _OPF[op](left, right)
        left = right
    return acc


DEEP = 60


def deep(c):
    """Conditions that hold many merged values in each other: the solver does better with paths."""
    return isinstance(c, SymBool) and z3.Z3_get_depth(c.e.ctx_ref(), c.e.as_ast()) > DEEP


def r_ifexp(c, a, b, pure):
    t = symtruth(c)
    if t is None or isinstance(t, bool):
        return a() if (c if t is None else t) else b()
    if pure and (core.CTX.spec or not deep(t)):
        try:
            return merge(t, speculate(a), speculate(b))
        except MergeAbort:
            if core.CTX.spec:
                raise
    return a() if bool(t) else b()


class Merge(object):
    def __init__(self, c, loc, names):
        self.c = c
        self.names = names
        self.s0 = [loc.get(n, UNB) for n in names]
        self.ended = False
        core.CTX.spec += 1

    def then(self, loc):
        self.s1 = [loc.get(n, UNB) for n in self.names]

    def start(self):
        return tuple(self.s0)

    def end(self, loc):
        s2 = [loc.get(n, UNB) for n in self.names]
        out = []
        for a, b in zip(self.s1, s2):
            if a is UNB or b is UNB:
                raise MergeAbort()
            if a is not b and core.CTX.spec == 1 and deep(self.c):
                raise MergeAbort()
            out.append(merge(self.c, a, b))
        core.CTX.spec -= 1
        self.ended = True
        return tuple(out)

    def abort(self, exc):
        if not self.ended:
            core.CTX.spec -= 1
        if isinstance(exc, Control) and not isinstance(exc, MergeAbort):
            raise exc
        if core.CTX.spec:
            raise MergeAbort()
        return tuple(self.s0)


def r_ism(c):
    return isinstance(c, (SymBool, SymInt))


def r_mb(c, loc, names):
    t = symtruth(c)
    if isinstance(t, bool):
        return None
    return Merge(t, loc, names)


# ------------------------------------------------------------------ containers
def _idx_chain(o, i):
    """[(cond, element)] of the possible elements, forking on the bound."""
    n = len(o)
    if not andb(i >= -n, i < n):
        raise IndexError('list index out of range')
    lo, hi = lo_hi(i)
    out = []
    for k in range(max(lo, -n), min(hi, n - 1) + 1):
        out.append((eq(i, k), k))
    return out


def r_get(o, i):
    if isinstance(i, (SymInt, SymBool)) and isinstance(o, (list, tuple, str, SymStr, bytes, SymBytes, range)):
        if isinstance(o, range):
            if not andb(i >= -len(o), i < len(o)):
                raise IndexError('range object index out of range')
            j = ite(i < 0, i + len(o), i)
            return o.start + j * o.step
        ch = _idx_chain(o, i)
        if isinstance(o, (str, SymStr)):
            cs = SymStr.codes(o)
            val = cs[ch[-1][1]]
            for c, k in reversed(ch[:-1]):
                val = ite(c, cs[k], val)
            return SymStr.make([val])
        if isinstance(o, SymBytes):
            o = o.cs
        try:
            val = o[ch[-1][1]]
            for c, k in reversed(ch[:-1]):
                val = merge(mkc(c), o[k], val)
            return val
        except MergeAbort:
            if core.CTX.spec:
                raise
            return o[i.__index__()]
    return o[i]


def mkc(c):
    return c


def r_set(v, o, i):
    if isinstance(i, (SymInt, SymBool)) and type(o) is list:
        if core.CTX.spec:
            raise MergeAbort()
        ch = _idx_chain(o, i)
        try:
            new = list(o)
            for c, k in ch:
                new[k] = merge(c, v, o[k])
            o[:] = new
            return
        except MergeAbort:
            o[i.__index__()] = v
            return
    if core.CTX.spec:
        raise MergeAbort()
    o[i] = v


_AUG = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv,
        'FloorDiv': operator.ifloordiv, 'Mod': operator.imod, 'Pow': operator.ipow, 'LShift': operator.ilshift,
        'RShift': operator.irshift, 'BitOr': operator.ior, 'BitXor': operator.ixor, 'BitAnd': operator.iand,
        'MatMult': operator.imatmul}


def r_aug(o, i, op, v):
    r_set(_AUG[op](r_get(o, i), v), o, i)


def r_dict(items):
    d = SDict()
    for it in items:
        if len(it) == 1:
            d.update(it[0])
        else:
            d[it[0]] = it[1]
    return d


def r_dictc(pairs):
    d = SDict()
    for k, v in pairs:
        d[k] = v
    return d


def r_mkset(items):
    return SSet(items)


# ------------------------------------------------------------------ strings
def r_join(recv):
    if isinstance(recv, (str, SymStr)):
        return lambda it: join(recv, it)
    return recv.join


def fmt1(v, conv, spec):
    if isinstance(spec, SymStr):
        spec = spec.realize()
    if isinstance(v, SymStr) and spec in ('', 's'):
        return v
    if isinstance(v, SymBool):
        v = bool(v) if spec == '' else v.as_int()
    if isinstance(v, SymInt):
        m = spec
        if m and m[-1] in 'xX' and v.lo >= 0:
            w = m[:-1].lstrip('#')
            if w.startswith('0') and w[1:].isdigit() and '#' not in m:
                n = int(w[1:])
                if v.hi < (1 << (4 * n)):
                    ds = [hexdigit((v >> (4 * (n - 1 - k))) & 15) for k in range(n)]
                    s = SymStr.make(ds)
                    return s.upper() if m[-1] == 'X' else s
        if m in ('', 'd'):
            return str(v)
        if m in ('x', 'X', '#x'):
            return ('0x' if '#' in m else '') + str(v)
        return format(v.realize(), spec)
    if isinstance(v, (list, tuple, SDict, SSet)):
        return str(v) if spec == '' else format(v, spec)
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = r_str(v)
        if isinstance(v, SymStr):
            return v
    if spec == '' and not isinstance(v, str):
        return r_str(v)
    return format(v, spec)


def r_fstr(parts):
    out = []
    for p in parts:
        out.append(p if isinstance(p, (str, SymStr)) else fmt1(*p))
    return join('', out)


def r_format(recv):
    if not isinstance(recv, str):
        return recv.format

    def f(*args, **kw):
        import string
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(recv):
            out.append(lit)
            if field is None:
                continue
            base = field
            rest = ''
            for k, ch in enumerate(field):
                if ch in '.[':
                    base, rest = field[:k], field[k:]
                    break
            if base == '':
                v = args[auto]
                auto += 1
            elif base.isdigit():
                v = args[int(base)]
            else:
                v = kw[base]
            if rest:
                v = string.Formatter().get_field('0' + rest, (v,), {})[0]
            if spec and '{' in spec:
                spec = recv_spec(spec, args, kw, auto)
            out.append(fmt1(v, ord(conv) if conv else -1, spec))
        return join('', out)
    return f


def recv_spec(spec, args, kw, auto):
    return spec.format(*args[auto:], **kw)


def r_str(x=''):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymBool):
        return str(bool(x))
    m = getattr(type(x), '__str__', None)
    if m is not None and not isinstance(x, (Sym, str, int, float, list, tuple, dict)) and \
            m is not object.__str__:
        r = m(x)          # may legally be a SymStr
        return r
    return str(x)


def r_type(x):
    if isinstance(x, (SymBool, bool)):
        return SxBool
    if isinstance(x, SymInt) or type(x) is int:
        return SxInt
    if isinstance(x, SymReal) or type(x) is float:
        return SxFloat
    if isinstance(x, SymStr) or type(x) is str:
        return SxStr
    if isinstance(x, SymBytes) or type(x) is bytes:
        return SxBytes
    if type(x) in (dict, SDict):
        return SxDict
    if type(x) in (set, SSet):
        return SxSet
    return type(x)


# ------------------------------------------------------------------ shadow builtins
def _shadow(name, kinds, conv, attrs=(), ns=None):
    def inst(cls, x):
        return isinstance(x, kinds)

    def sub(cls, c):
        try:
            return builtins.issubclass(c, kinds)
        except TypeError:
            return False

    def cl(cls, *a, **k):
        if cls is not S:
            return type.__call__(cls, *a, **k)
        return conv(*a, **k)
    meta = type('_Meta_' + name, (type,), {'__instancecheck__': inst, '__subclasscheck__': sub, '__call__': cl,
                                           '__or__': lambda a, b: (a, b), '__ror__': lambda a, b: (b, a)})
    d = {'__slots__': ()}
    d.update(ns or {})
    S = meta(name, (), d)
    for a in attrs:
        setattr(S, a, getattr(getattr(builtins, name), a))
    return S


def _int(x=0, base=None):
    if isinstance(x, (str, SymStr)):
        if isinstance(x, SymStr):
            return parse_int(x, 10 if base is None else base)
        t = x.strip()
        tok = core.CTX.tokens.get(t) or core.CTX.tokens.get(t[2:] if t[:2] in ('0x', '0X') else t)
        if tok is not None:
            return tok
        return int(x, base) if base is not None else int(x)
    if base is not None:
        return int(x, base)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, SymReal):
        return x.__trunc__()
    return int(x)


def _float(x=0.0):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return toreal(x)
    if isinstance(x, SymStr):
        return float(x.realize())
    return float(x)


def _bool(x=False):
    t = symtruth(x)
    return bool(x) if t is None else t


def _bytes(x=b'', *a):
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, SymStr):
        return x.encode()
    if isinstance(x, (list, tuple)):
        return SymBytes.make(list(x))
    return bytes(x, *a)


def _set(it=()):
    return SSet(it)


def _dict(*a, **k):
    return SDict(*a, **k)


SxInt = _shadow('int', (int, SymInt, SymBool), _int, ns={'from_bytes': staticmethod(int_from_bytes)})
SxFloat = _shadow('float', (float, SymReal), _float, ('fromhex',))
SxBool = _shadow('bool', (bool, SymBool), _bool)
SxStr = _shadow('str', (str, SymStr), lambda *a: r_str(*a), ('join', 'lower', 'upper', 'strip', 'maketrans', 'format'))
SxBytes = _shadow('bytes', (bytes, SymBytes), _bytes, ('fromhex',))
SxDict = _shadow('dict', (dict, SDict), _dict, ns={'fromkeys': staticmethod(SDict.fromkeys)})
SxSet = _shadow('set', (set, SSet), _set)
SxFrozen = _shadow('frozenset', (frozenset, SSet), _set)


def _range(*a):
    if not any(isinstance(x, Sym) for x in a):
        return range(*a)
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop = a[0], a[1]
        step = a[2] if len(a) > 2 else 1
    if isinstance(step, Sym):
        step = step.__index__()
    return _SymRange(start, stop, step)


class _SymRange(object):
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        i = self.a
        while (i < self.b) if self.s > 0 else (i > self.b):
            yield i
            i = i + self.s

    def _real(self):
        f = lambda x: x.__index__()
        return range(f(self.a), f(self.b), self.s)

    def __len__(self):
        return len(self._real())

    def __getitem__(self, i):
        return self._real()[i]

    def contains(self, x):
        r = andb(x >= self.a, x < self.b) if self.s > 0 else andb(x <= self.a, x > self.b)
        if abs(self.s) != 1:
            r = andb(r, (x - self.a) % abs(self.s) == 0)
        return r

    def __contains__(self, x):
        return bool(self.contains(x))

    def __reversed__(self):
        return reversed(self._real())


def _minmax(is_min):
    def f(*args, **kw):
        key = kw.get('key')
        if len(args) == 1:
            items = list(args[0])
            if not items:
                if 'default' in kw:
                    return kw['default']
                raise ValueError('%s() arg is an empty sequence' % ('min' if is_min else 'max'))
        else:
            items = list(args)
        best = items[0]
        bk = key(best) if key else best
        for x in items[1:]:
            xk = key(x) if key else x
            c = (xk < bk) if is_min else (xk > bk)
            if isinstance(c, SymBool):
                try:
                    if key is None:
                        best = bk = merge(c, x, best)
                        continue
                    nk = merge(c, xk, bk)
                    best, bk = merge(c, x, best), nk
                    continue
                except MergeAbort:
                    if core.CTX.spec:
                        raise
            if c:
                best, bk = x, xk
        return best
    return f


def _sum(it, start=0):
    acc = start
    for x in it:
        acc = acc + x
    return acc


def _abs(x):
    return abs(x)


def _pow(a, b, m=None):
    if m is None:
        return a ** b
    return pow(a, b, m)


def _any(it):
    if isinstance(it, (list, tuple)):
        if all(isinstance(x, (bool, SymBool)) for x in it):
            return orb(*it)
    for x in it:
        if x:
            return True
    return False


def _all(it):
    if isinstance(it, (list, tuple)):
        if all(isinstance(x, (bool, SymBool)) for x in it):
            return andb(*it)
    for x in it:
        if not x:
            return False
    return True


def _hex(x):
    if isinstance(x, SymInt):
        return '0x' + str(x)
    return hex(x)


def _bin(x):
    if isinstance(x, SymInt):
        return bin(x.realize())
    return bin(x)


def _chr(x):
    return SymStr.make([x]) if isinstance(x, SymInt) else chr(x)


def _ord(x):
    return x.cs[0] if isinstance(x, SymStr) else ord(x)


def _round(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


def _hash(x):
    return hash(x)


def _callable(x):
    return callable(x)


def r_enter(name):
    core.CTX.funcs.add(name)


HELPERS = {
    '_sx_eq_': r_eq, '_sx_ne_': r_ne, '_sx_in_': r_in, '_sx_notin_': r_notin, '_sx_is_': r_is,
    '_sx_isnot_': r_isnot, '_sx_not_': r_not, '_sx_and_': r_and, '_sx_or_': r_or, '_sx_chain_': r_chain,
    '_sx_ifexp_': r_ifexp, '_sx_ism_': r_ism, '_sx_mb_': r_mb, '_sx_get_': r_get, '_sx_set_': r_set,
    '_sx_aug_': r_aug, '_sx_dict_': r_dict, '_sx_dictc_': r_dictc, '_sx_mkset_': r_mkset, '_sx_join_': r_join,
    '_sx_format_': r_format, '_sx_fstr_': r_fstr, '_sx_type_': r_type, '_sx_enter_': r_enter,
    '_sx_Control_': Control, '_sx_Base_': BaseException,
}

SHADOWS = {
    'int': SxInt, 'float': SxFloat, 'bool': SxBool, 'str': SxStr, 'bytes': SxBytes, 'dict': SxDict, 'set': SxSet,
    'frozenset': SxFrozen, 'range': _range, 'min': _minmax(True), 'max': _minmax(False), 'sum': _sum,
    'any': _any, 'all': _all, 'hex': _hex, 'bin': _bin, 'chr': _chr, 'ord': _ord, 'round': _round, 'pow': _pow,
    'print': lambda *a, **k: None,
}
