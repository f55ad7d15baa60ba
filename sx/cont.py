"""Dictionaries and sets that accept symbolic keys without hashing them."""
from . import core
from .core import MergeAbort
from .values import Sym, SymBool, SymInt, SymReal, orb, andb, bnot, merge, is_sym, is_intlike


def has_sym(k):
    if isinstance(k, Sym):
        return True
    if isinstance(k, tuple):
        return any(has_sym(x) for x in k)
    return False


def eq(a, b):
    """Non-forking deep equality."""
    if a is b:
        return True
    if isinstance(a, Sym):
        r = a == b
        return False if r is NotImplemented else r
    if isinstance(b, Sym):
        r = b == a
        return False if r is NotImplemented else r
    ta, tb = type(a), type(b)
    if (ta is list and tb is list) or (ta is tuple and tb is tuple):
        if len(a) != len(b):
            return False
        res = []
        for x, y in zip(a, b):
            r = eq(x, y)
            if r is False:
                return False
            if r is not True:
                res.append(r)
        return andb(*res) if res else True
    if isinstance(a, (SDict, SSet)):
        return a.seq(b)
    if isinstance(b, (SDict, SSet)):
        return b.seq(a)
    return a == b


def contains(x, c):
    """Non-forking membership."""
    if isinstance(c, (SDict, SSet)):
        return c.contains(x)
    if isinstance(c, (list, tuple)):
        out = []
        for y in c:
            r = eq(x, y)
            if r is True:
                return True
            if r is not False:
                if not isinstance(r, SymBool):
                    if r:
                        return True
                else:
                    out.append(r)
        return orb(*out) if out else False
    if isinstance(c, range) and isinstance(x, SymInt):
        if len(c) == 0:
            return False
        lo, hi = min(c[0], c[-1]), max(c[0], c[-1])
        r = andb(x >= lo, x <= hi)
        if abs(c.step) != 1:
            r = andb(r, (x - c[0]) % abs(c.step) == 0)
        return r
    from .strs import SymStr
    if isinstance(c, SymStr):
        return c.contains(x)
    if isinstance(c, str) and isinstance(x, SymStr):
        return SymStr([ord(k) for k in c]).contains(x) if c else len(x) == 0
    if isinstance(x, Sym) and isinstance(c, (dict, set, frozenset)):
        return contains(x, list(c))
    if has_sym(x) and isinstance(c, (dict, set, frozenset)):
        return contains(x, list(c))
    return x in c


class _Assoc(object):
    """Insertion-ordered keys; _idx maps hashable concrete keys to slots, _nsym counts symbolic ones."""

    def _init(self):
        self._k = []
        self._idx = {}
        self._nsym = 0

    def _find(self, key):
        """Slot of key or -1; forks when that is not decided."""
        ks = has_sym(key)
        if not ks:
            p = self._idx.get(key, -1)
            if p >= 0 or self._nsym == 0:
                return p
        for i, k in enumerate(self._k):
            if not ks and not has_sym(k):
                continue
            r = eq(k, key)
            if r is True or (r is not False and bool(r)):
                return i
        return -1

    def contains(self, key):
        ks = has_sym(key)
        if not ks:
            if key in self._idx:
                return True
            if self._nsym == 0:
                return False
        return contains(key, self._k)

    def __contains__(self, key):
        return bool(self.contains(key))

    def _append(self, key):
        if has_sym(key):
            self._nsym += 1
        else:
            self._idx[key] = len(self._k)
        self._k.append(key)

    def _del(self, i):
        key = self._k.pop(i)
        if has_sym(key):
            self._nsym -= 1
        self._idx = {k: j for j, k in enumerate(self._k) if not has_sym(k)}
        return key

    def __len__(self):
        return len(self._k)

    def __iter__(self):
        n = len(self._k)
        i = 0
        while i < len(self._k):
            yield self._k[i]
            if len(self._k) != n:
                raise RuntimeError('%s changed size during iteration' % self._kind)
            i += 1

    def __bool__(self):
        return len(self._k) > 0


_MISS = object()


class SDict(_Assoc):
    _kind = 'dictionary'

    def __init__(self, *args, **kw):
        self._init()
        self._v = []
        self.update(*args, **kw)

    def update(self, *args, **kw):
        if args:
            src = args[0]
            if hasattr(src, 'keys'):
                for k in list(src.keys()):
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def _missing(self, key):
        m = getattr(self, '__missing__', None)
        if m is not None:
            return m(key)
        raise KeyError(key if not has_sym(key) else '<symbolic key>')

    def __getitem__(self, key):
        if is_sym(key) and self._k and self._nsym == 0:
            r = self._merged_get(key)
            if r is not _MISS:
                return r
        i = self._find(key)
        if i < 0:
            return self._missing(key)
        return self._v[i]

    def _merged_get(self, key):
        cand = []
        for i, k in enumerate(self._k):
            r = eq(k, key)
            if r is True:
                return self._v[i]
            if r is not False:
                cand.append((r, self._v[i]))
        if not cand:
            return _MISS
        try:
            val = cand[-1][1]
            if not isinstance(val, (int, float, Sym)) or isinstance(val, str):
                return _MISS
            for r, v in reversed(cand[:-1]):
                val = merge(r, v, val)
        except MergeAbort:
            return _MISS
        if core.CTX.branch(_z(orb(*[r for r, _ in cand]))):
            return val
        return _MISS if False else self._missing(key)

    def __setitem__(self, key, v):
        i = self._find(key)
        if i < 0:
            self._append(key)
            self._v.append(v)
        else:
            self._v[i] = v

    def __delitem__(self, key):
        i = self._find(key)
        if i < 0:
            raise KeyError(key)
        self._del(i)
        self._v.pop(i)

    def get(self, key, default=None):
        if is_sym(key) and self._nsym == 0 and self._k:
            try:
                rs = [eq(k, key) for k in self._k]
                val = default
                for r, v in reversed(list(zip(rs, self._v))):
                    if r is True:
                        val = v
                    elif r is not False:
                        val = merge(r, v, val)
                return val
            except MergeAbort:
                pass
        i = self._find(key)
        return default if i < 0 else self._v[i]

    def setdefault(self, key, default=None):
        i = self._find(key)
        if i < 0:
            self._append(key)
            self._v.append(default)
            return default
        return self._v[i]

    def pop(self, key, default=_MISS):
        i = self._find(key)
        if i < 0:
            if default is _MISS:
                raise KeyError(key)
            return default
        self._del(i)
        return self._v.pop(i)

    def popitem(self):
        if not self._k:
            raise KeyError('popitem(): dictionary is empty')
        k = self._del(len(self._k) - 1)
        return k, self._v.pop()

    def clear(self):
        self._init()
        self._v = []

    def keys(self):
        return View(self, lambda: self._k)

    def values(self):
        return View(self, lambda: self._v)

    def items(self):
        return View(self, lambda: [(k, v) for k, v in zip(self._k, self._v)])

    def copy(self):
        return self.__copy__()

    def __copy__(self):
        r = self.__class__.__new__(self.__class__)
        r.__dict__.update(self.__dict__)
        r._k, r._v, r._idx = list(self._k), list(self._v), dict(self._idx)
        return r

    def __deepcopy__(self, memo):
        import copy
        r = self.__copy__()
        memo[id(self)] = r
        r._v = [copy.deepcopy(v, memo) for v in self._v]
        return r

    def __or__(self, o):
        r = self.__copy__()
        r.update(o)
        return r

    def __reversed__(self):
        return reversed(list(self._k))

    def seq(self, o):
        if not isinstance(o, (SDict, dict)) or len(o) != len(self):
            return False
        out = []
        for k, v in zip(self._k, self._v):
            if not (k in o):
                return False
            out.append(eq(v, o[k]))
        return andb(*out)

    def __eq__(self, o):
        return self.seq(o)

    def __ne__(self, o):
        return bnot(self.seq(o))

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join('%r: %r' % (k, v) for k, v in zip(self._k, self._v)) + '}'

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r


def _z(x):
    from .values import zbool
    return zbool(x)


class View(object):
    def __init__(self, owner, f):
        self._o, self._f = owner, f

    def __iter__(self):
        n = len(self._o._k)
        i = 0
        while i < len(self._o._k):
            yield self._f()[i]
            if len(self._o._k) != n:
                raise RuntimeError('dictionary changed size during iteration')
            i += 1

    def __len__(self):
        return len(self._o._k)

    def __contains__(self, x):
        return bool(contains(x, list(self._f())))

    def __reversed__(self):
        return reversed(list(self._f()))

    def _set(self):
        return SSet(self)

    def __and__(self, o):
        return self._set() & SSet(o)

    def __or__(self, o):
        return self._set() | SSet(o)

    def __sub__(self, o):
        return self._set() - SSet(o)

    def __rsub__(self, o):
        return SSet(o) - self._set()

    def isdisjoint(self, o):
        return len(self & o) == 0

    def __eq__(self, o):
        return SSet(self) == (SSet(o) if not isinstance(o, SSet) else o)

    def __repr__(self):
        return repr(list(self._f()))


class SSet(_Assoc):
    _kind = 'Set'

    def __init__(self, it=()):
        self._init()
        for x in it:
            self.add(x)

    def add(self, x):
        if not has_sym(x):
            hash(x)
        if self._find(x) < 0:
            self._append(x)

    def discard(self, x):
        i = self._find(x)
        if i >= 0:
            self._del(i)

    def remove(self, x):
        i = self._find(x)
        if i < 0:
            raise KeyError(x)
        self._del(i)

    def pop(self):
        if not self._k:
            raise KeyError('pop from an empty set')
        return self._del(0)

    def clear(self):
        self._init()

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def copy(self):
        return SSet(self._k)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return SSet([copy.deepcopy(x, memo) for x in self._k])

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    def intersection(self, *its):
        r = self
        for it in its:
            it = it if isinstance(it, SSet) else SSet(it)
            r = SSet([x for x in r._k if x in it])
        return r.copy()

    def difference(self, *its):
        r = self
        for it in its:
            it = it if isinstance(it, SSet) else SSet(it)
            r = SSet([x for x in r._k if x not in it])
        return r.copy()

    def symmetric_difference(self, it):
        it = SSet(it)
        return (self - it) | (it - self)

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def intersection_update(self, *its):
        r = self.intersection(*its)
        self._k, self._idx, self._nsym = r._k, r._idx, r._nsym

    def __or__(self, o):
        return self.union(o)
    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o)
    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SSet(o) - self

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def issubset(self, o):
        return all(contains(x, o if isinstance(o, SSet) else SSet(o)) for x in self._k)

    def issuperset(self, o):
        return all(self.contains(x) for x in o)

    def isdisjoint(self, o):
        return not any(self.contains(x) for x in o)

    __le__ = issubset
    __ge__ = issuperset

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def seq(self, o):
        if not isinstance(o, (SSet, set, frozenset)) or len(o) != len(self):
            return False
        return andb(*[contains(x, o) for x in self._k])

    def __eq__(self, o):
        return self.seq(o)

    def __ne__(self, o):
        return bnot(self.seq(o))

    def __hash__(self):
        return hash(frozenset(self._k))

    def __repr__(self):
        return '{' + ', '.join(map(repr, self._k)) + '}'


class SDefaultDict(SDict):
    def __init__(self, default_factory=None, *a, **kw):
        self.default_factory = default_factory
        SDict.__init__(self, *a, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v

    def _merged_get(self, key):
        return _MISS


class SCounter(SDict):
    def __init__(self, it=None, **kw):
        SDict.__init__(self)
        if it is not None:
            self.update(it)

    def update(self, it=(), **kw):
        if hasattr(it, 'keys'):
            for k in list(it.keys()):
                self[k] = self.get(k, 0) + it[k]
        else:
            for k in it:
                self[k] = self.get(k, 0) + 1

    def __missing__(self, key):
        return 0

    def _merged_get(self, key):
        return _MISS

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]

    def elements(self):
        for k, v in list(self.items()):
            for _ in range(v):
                yield k

    def subtract(self, it):
        for k in it:
            self[k] = self.get(k, 0) - 1
