"""Module loader for the code under test and the environment stubs (struct, math, random, json, re, files, capstone).
Every path executes freshly created module objects; the source is read from the repository on every run."""
import builtins
import importlib
import importlib.util
import io
import os
import re as _re
import sys
import types
from fractions import Fraction

from . import core, rt
from .core import PathCut, Control
from .values import (Sym, SymBool, SymInt, SymReal, toreal, is_intlike, intdiv, ite, bnot, andb, orb, lo_hi, mkint)
from .strs import SymStr, SymBytes, int_from_bytes, join as strs_join
from .cont import SDict, SSet, SCounter, SDefaultDict
from .transform import compile_source

REPO = os.environ.get('SX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOTS = ('semantic_codec', 'libs', 'recover_program')
HARN = ('harness',)

_code = {}


def find(name):
    base = VERIF if name.split('.')[0] in HARN else REPO
    p = os.path.join(base, *name.split('.'))
    if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
        return os.path.join(p, '__init__.py'), True
    if os.path.exists(p + '.py'):
        return p + '.py', False
    return None, False


def code_for(name):
    if name not in _code:
        path, pkg = find(name)
        if path is None:
            raise ImportError('No module named %r' % name)
        with io.open(path, encoding='utf-8') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _code[name] = (compile_source(src, path, name), path, pkg)
    return _code[name]


# --------------------------------------------------------------------- files
class MemFile(object):
    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        fs = core.CTX.files
        self.binary = 'b' in mode
        if 'w' in mode or 'x' in mode:
            fs[path] = []
        elif 'a' in mode:
            fs.setdefault(path, [])
        elif path not in fs:
            raise FileNotFoundError(2, 'No such file or directory', path)
        self.data = fs[path]
        self.pos = len(self.data) if 'a' in mode else 0
        self.closed = False
        self.name = path

    def _mk(self, cs):
        return (SymBytes if self.binary else SymStr).make(cs)

    def write(self, s):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if 'r' in self.mode and '+' not in self.mode:
            raise io.UnsupportedOperation('not writable')
        if self.binary:
            if not isinstance(s, (bytes, bytearray, SymBytes)):
                raise TypeError('a bytes-like object is required')
            cs = list(s)
        else:
            if not isinstance(s, (str, SymStr)):
                raise TypeError('write() argument must be str')
            cs = SymStr.codes(s)
        self.data[self.pos:self.pos + len(cs)] = cs
        self.pos += len(cs)
        return len(cs)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def read(self, n=-1):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if 'w' in self.mode and '+' not in self.mode:
            raise io.UnsupportedOperation('not readable')
        end = len(self.data) if n is None or n < 0 else min(len(self.data), self.pos + n)
        r = self._mk(self.data[self.pos:end])
        self.pos = end
        return r

    def readline(self):
        i = self.pos
        while i < len(self.data):
            c = self.data[i]
            i += 1
            if isinstance(c, int) and c == 10:
                break
        r = self._mk(self.data[self.pos:i])
        self.pos = i
        return r

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if len(l) == 0:
                return
            yield l

    def seek(self, p, w=0):
        self.pos = p if w == 0 else (self.pos + p if w == 1 else len(self.data) + p)

    def tell(self):
        return self.pos

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def mem_open(path, mode='r', *a, **k):
    return MemFile(str(path), mode)


# --------------------------------------------------------------------- struct
import struct as _struct
_SZ = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8}


def _parse_fmt(fmt):
    order = 'little'
    if fmt[:1] in '<>!=@':
        order = 'big' if fmt[0] in '>!' else 'little'
        native = fmt[0] == '@'
        fmt = fmt[1:]
    else:
        native = True
    codes = []
    for n, c in _re.findall(r'(\d*)([a-zA-Z?])', fmt):
        codes.extend([c] * (int(n) if n else 1))
    if any(c not in _SZ for c in codes):
        raise PathCut('struct format %r' % fmt)
    sz = dict(_SZ)
    if native:
        sz['l'] = sz['L'] = 8
    return order, codes, sz


def s_pack(fmt, *args):
    if not any(isinstance(a, Sym) for a in args):
        return _struct.pack(fmt, *args)
    order, codes, sz = _parse_fmt(fmt)
    if len(codes) != len(args):
        raise _struct.error('pack expected %d items for packing (got %d)' % (len(codes), len(args)))
    out = []
    for c, a in zip(codes, args):
        n = sz[c]
        if not is_intlike(a):
            raise _struct.error('required argument is not an integer')
        if isinstance(a, SymBool):
            a = a.as_int()
        lo, hi = (0, (1 << 8 * n) - 1) if c.isupper() else (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1)
        if not andb(a >= lo, a <= hi):
            raise _struct.error('argument out of range')
        b = [(a >> (8 * i)) & 0xff for i in range(n)]
        if order == 'big':
            b.reverse()
        out.extend(b)
    return SymBytes.make(out)


def s_unpack(fmt, data):
    if not isinstance(data, SymBytes):
        return _struct.unpack(fmt, data)
    order, codes, sz = _parse_fmt(fmt)
    if sum(sz[c] for c in codes) != len(data):
        raise _struct.error('unpack requires a buffer of %d bytes' % sum(sz[c] for c in codes))
    out, p = [], 0
    for c in codes:
        out.append(int_from_bytes(data.cs[p:p + sz[c]], order, c.islower()))
        p += sz[c]
    return tuple(out)


def mk_struct():
    m = types.ModuleType('struct')
    m.pack, m.unpack, m.calcsize, m.error = s_pack, s_unpack, _struct.calcsize, _struct.error
    m.unpack_from = lambda fmt, data, off=0: s_unpack(fmt, data[off:off + _struct.calcsize(fmt)])

    class Struct(object):
        def __init__(self, f):
            self.format, self.size = f, _struct.calcsize(f)

        def pack(self, *a):
            return s_pack(self.format, *a)

        def unpack(self, d):
            return s_unpack(self.format, d)
    m.Struct = Struct
    m.iter_unpack = lambda f, d: (s_unpack(f, d[i:i + _struct.calcsize(f)]) for i in
                                  range(0, len(d), _struct.calcsize(f)))
    return m


# ----------------------------------------------------------------------- math
import math as _math


def _floor(x):
    return x.__floor__() if isinstance(x, Sym) else _math.floor(x)


def _ceil(x):
    return x.__ceil__() if isinstance(x, Sym) else _math.ceil(x)


def _fmod(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return _math.fmod(a, b)
    if is_intlike(a) and is_intlike(b) or (isinstance(b, float) and b.is_integer() and is_intlike(a)):
        b = int(b) if isinstance(b, float) else b
        if lo_hi(a)[0] >= 0 and lo_hi(b)[0] >= 0:
            return intdiv(a, b)[1]
        neg = a < 0
        r = intdiv(abs(a), abs(b))[1]
        return ite(neg, -r, r)
    return _math.fmod(float(a), float(b))


def _conc(f):
    def g(*args):
        out = []
        for a in args:
            out.append(a.realize() if isinstance(a, Sym) else a)
        return f(*out)
    return g


def mk_math():
    m = types.ModuleType('math')
    for k in dir(_math):
        if not k.startswith('_'):
            v = getattr(_math, k)
            setattr(m, k, _conc(v) if callable(v) else v)
    m.floor, m.ceil, m.fmod = _floor, _ceil, _fmod
    m.trunc = lambda x: x.__trunc__() if isinstance(x, Sym) else _math.trunc(x)
    m.fabs = lambda x: toreal(abs(x)) if isinstance(x, Sym) else _math.fabs(x)

    def prod(it, start=1):
        for x in it:
            start = start * x
        return start
    m.prod = prod
    m.fsum = lambda it: rt._sum(it)

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = abs(a - b)
        return orb(d <= rel_tol * abs(a), d <= rel_tol * abs(b), d <= abs_tol)
    m.isclose = isclose
    return m


# --------------------------------------------------------------------- random
from .rndmodel import RandomModel, RANDOM_NAMES


def mk_random(h):
    m = types.ModuleType('random')
    r = RandomModel(h)
    for n in RANDOM_NAMES + ['getstate', 'setstate']:
        setattr(m, n, getattr(r, n))
    m.Random = lambda *a: r
    m.SystemRandom = lambda *a: r
    return m


# ----------------------------------------------------------------------- json
import json as _json


def _plain(o, default, skipkeys=False, sort_keys=False):
    if o is None or isinstance(o, (bool, float)) or type(o) is str:
        return o
    if isinstance(o, SymBool):
        return bool(o)
    if isinstance(o, SymInt):
        return int(str(o))
    if isinstance(o, SymStr):
        return o.realize()
    if isinstance(o, SymReal):
        return o.realize()
    if isinstance(o, int):
        return o
    if isinstance(o, (list, tuple)):
        return [_plain(x, default, skipkeys, sort_keys) for x in o]
    if isinstance(o, (dict, SDict)):
        out = {}
        items = list(o.items())
        if sort_keys:
            items.sort(key=lambda kv: kv[0])
        for k, v in items:
            if isinstance(k, (SymInt,)):
                k = str(k)
            elif isinstance(k, bool):
                k = 'true' if k else 'false'
            elif k is None:
                k = 'null'
            elif isinstance(k, (int, float)):
                k = str(k)
            elif isinstance(k, SymStr):
                k = k.realize()
            elif not isinstance(k, str):
                if skipkeys:
                    continue
                raise TypeError('keys must be str, int, float, bool or None, not ' + type(k).__name__)
            out[k] = _plain(v, default, skipkeys, sort_keys)
        return out
    return _plain(default(o), default, skipkeys, sort_keys)


def j_dumps(obj, *, cls=None, default=None, indent=None, separators=None, ensure_ascii=True, sort_keys=False,
            skipkeys=False, **kw):
    enc = (cls or _json.JSONEncoder)()
    return _json.dumps(_plain(obj, default or enc.default, skipkeys, sort_keys), indent=indent, separators=separators,
                       ensure_ascii=ensure_ascii)


def j_loads(s, *, cls=None, object_hook=None, object_pairs_hook=None, parse_int=None, **kw):
    if isinstance(s, SymStr):
        s = s.realize()
    toks = core.CTX.tokens

    def pi(t):
        v = toks[t] if t in toks else int(t)
        return parse_int(v) if parse_int else v

    def pairs(ps):
        if object_pairs_hook:
            return object_pairs_hook(ps)
        d = SDict(ps)
        return object_hook(d) if object_hook else d
    return _json.loads(s, parse_int=pi, object_pairs_hook=pairs)


def mk_json():
    m = types.ModuleType('json')
    m.JSONEncoder, m.JSONDecoder, m.JSONDecodeError = _json.JSONEncoder, _json.JSONDecoder, _json.JSONDecodeError
    m.dumps, m.loads = j_dumps, j_loads
    m.dump = lambda obj, fp, **kw: fp.write(j_dumps(obj, **kw))
    m.load = lambda fp, **kw: j_loads(fp.read(), **kw)
    return m


# ------------------------------------------------------------------------- re
try:
    from re import _parser as _sre, _constants as _sc
except ImportError:      # pragma: no cover
    import sre_parse as _sre
    import sre_constants as _sc


class MiniRe(object):
    """Backtracking matcher over symbolic strings; forks when a character class test is undecided."""

    def __init__(self, pat, flags=0):
        self.pattern, self.flags = pat, flags
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.real = _re.compile(pat, flags)
            self.tree = _sre.parse(pat, flags)

    def _cls(self, items, c):
        neg, rs = False, []
        for op, av in items:
            if op is _sc.NEGATE:
                neg = True
            elif op is _sc.LITERAL:
                rs.append(c == av)
            elif op is _sc.RANGE:
                rs.append(andb(c >= av[0], c <= av[1]))
            elif op is _sc.CATEGORY:
                rs.append(self._cat(av, c))
            else:
                raise PathCut('regex item %s' % op)
        r = orb(*rs)
        return bnot(r) if neg else r

    def _cat(self, av, c):
        d = andb(c >= 48, c <= 57)
        w = orb(d, andb(c >= 65, c <= 90), andb(c >= 97, c <= 122), c == 95)
        s = orb(*[c == k for k in (32, 9, 10, 11, 12, 13)])
        t = {_sc.CATEGORY_DIGIT: d, _sc.CATEGORY_WORD: w, _sc.CATEGORY_SPACE: s,
             _sc.CATEGORY_NOT_DIGIT: bnot(d), _sc.CATEGORY_NOT_WORD: bnot(w), _sc.CATEGORY_NOT_SPACE: bnot(s)}
        return t[av]

    def _m(self, ops, cs, i, groups, k):
        if not ops:
            return k(i, groups)
        (op, av), rest = ops[0], ops[1:]
        nxt = lambda j, g: self._m(rest, cs, j, g, k)
        if op is _sc.LITERAL or op is _sc.NOT_LITERAL or op is _sc.ANY or op is _sc.IN:
            if i >= len(cs):
                return None
            c = cs[i]
            ok = (c == av) if op is _sc.LITERAL else (c != av) if op is _sc.NOT_LITERAL else \
                (c != 10) if op is _sc.ANY else self._cls(av, c)
            return nxt(i + 1, groups) if ok else None
        if op in (_sc.MAX_REPEAT, _sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(n, j, g):
                def more():
                    if n >= hi:
                        return None
                    return self._m(sub, cs, j, g, lambda j2, g2: rep(n + 1, j2, g2) if j2 > j or n < lo else None)
                if n < lo:
                    return more()
                if op is _sc.MAX_REPEAT:
                    r = more()
                    return r if r is not None else nxt(j, g)
                r = nxt(j, g)
                return r if r is not None else more()
            return rep(0, i, groups)
        if op is _sc.SUBPATTERN:
            gid, sub = av[0], list(av[3])
            return self._m(sub, cs, i, groups,
                           lambda j, g: nxt(j, dict(g, **{str(gid): (i, j)}) if gid else g))
        if op is _sc.BRANCH:
            for b in av[1]:
                r = self._m(list(b), cs, i, groups, nxt)
                if r is not None:
                    return r
            return None
        if op is _sc.AT:
            if av in (_sc.AT_BEGINNING, _sc.AT_BEGINNING_STRING):
                return nxt(i, groups) if i == 0 else None
            if av in (_sc.AT_END, _sc.AT_END_STRING):
                return nxt(i, groups) if i == len(cs) or (i == len(cs) - 1 and cs[i] == 10) else None
        raise PathCut('regex op %s' % op)

    def _try(self, s, start, full=False):
        cs = s.cs
        r = self._m(list(self.tree), cs, start, {},
                    lambda j, g: (j, g) if (not full or j == len(cs)) else None)
        return None if r is None else MiniMatch(s, start, r[0], r[1], self)

    def match(self, s, *a):
        return self._try(s, 0) if isinstance(s, SymStr) else self.real.match(s, *a)

    def fullmatch(self, s, *a):
        return self._try(s, 0, True) if isinstance(s, SymStr) else self.real.fullmatch(s, *a)

    def search(self, s, *a):
        if not isinstance(s, SymStr):
            return self.real.search(s, *a)
        for i in range(len(s) + 1):
            r = self._try(s, i)
            if r is not None:
                return r
        return None

    def _iter(self, s):
        i = 0
        while i <= len(s):
            m = self._try(s, i)
            if m is None:
                i += 1
                continue
            yield m
            i = m.e if m.e > m.s else m.e + 1

    def finditer(self, s):
        return self._iter(s) if isinstance(s, SymStr) else self.real.finditer(s)

    def findall(self, s):
        if not isinstance(s, SymStr):
            return self.real.findall(s)
        n = self.real.groups
        return [m.group(0) if n == 0 else (m.group(1) if n == 1 else m.groups()) for m in self._iter(s)]

    def split(self, s, maxsplit=0):
        if not isinstance(s, SymStr):
            return self.real.split(s, maxsplit)
        if self.real.groups:
            return self.real.split(s.realize(), maxsplit)
        out, p = [], 0
        for m in self._iter(s):
            if m.e == m.s or (maxsplit and len(out) >= maxsplit):
                continue
            out.append(s[p:m.s])
            p = m.e
        out.append(s[p:])
        return out

    def sub(self, repl, s, count=0):
        if not isinstance(s, SymStr):
            return self.real.sub(repl, s, count)
        if callable(repl) or '\\' in repl:
            return self.real.sub(repl, s.realize(), count)
        out, p, n = '', 0, 0
        for m in self._iter(s):
            if count and n >= count:
                break
            out = out + s[p:m.s] + repl
            p = m.e
            n += 1
        return out + s[p:]


class MiniMatch(object):
    def __init__(self, s, i, e, groups, rx):
        self.string, self.s, self.e, self.g, self.re = s, i, e, groups, rx

    def group(self, *ks):
        if not ks:
            ks = (0,)
        out = []
        for k in ks:
            if isinstance(k, str):
                k = self.re.real.groupindex[k]
            if k == 0:
                out.append(self.string[self.s:self.e])
            elif str(k) in self.g:
                out.append(self.string[self.g[str(k)][0]:self.g[str(k)][1]])
            else:
                out.append(None)
        return out[0] if len(out) == 1 else tuple(out)
    __getitem__ = group

    def groups(self, default=None):
        return tuple(self.group(k) for k in range(1, self.re.real.groups + 1))

    def groupdict(self, default=None):
        return {k: self.group(v) for k, v in self.re.real.groupindex.items()}

    def start(self, k=0):
        return self.s if k == 0 else self.g[str(k)][0]

    def end(self, k=0):
        return self.e if k == 0 else self.g[str(k)][1]

    def span(self, k=0):
        return self.start(k), self.end(k)

    def __bool__(self):
        return True


def mk_re():
    m = types.ModuleType('re')
    for k in dir(_re):
        if k.isupper():
            setattr(m, k, getattr(_re, k))
    m.escape, m.error = _re.escape, _re.error
    m.compile = MiniRe
    for f in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'split'):
        setattr(m, f, (lambda f: lambda p, s, *a, **k: getattr(MiniRe(p, *( [k['flags']] if 'flags' in k else [])), f)(s, *a))(f))
    m.sub = lambda p, r, s, count=0, flags=0: MiniRe(p, flags).sub(r, s, count)
    return m


# ---------------------------------------------------------------- collections
def mk_collections():
    import collections
    m = types.ModuleType('collections')
    for k in dir(collections):
        if not k.startswith('_'):
            setattr(m, k, getattr(collections, k))
    m.OrderedDict, m.Counter, m.defaultdict = SDict, SCounter, SDefaultDict
    return m


def mk_sys():
    m = types.ModuleType('sys')
    m.maxsize, m.stdout, m.stderr, m.argv, m.version_info = sys.maxsize, io.StringIO(), io.StringIO(), ['x'], \
        sys.version_info
    m.exit = sys.exit
    m.path = []
    m.modules = {}
    m.getrecursionlimit, m.setrecursionlimit = sys.getrecursionlimit, lambda n: None
    m.byteorder = sys.byteorder
    m.getsizeof = sys.getsizeof
    return m


def mk_darm():
    m = types.ModuleType('libs.darm')
    d = types.ModuleType('libs.darm.darm')

    def no(*a, **k):
        raise PathCut('libs.darm is not available')
    d.disasm_armv7 = d.disasm_armv7s = no
    m.darm = d
    return m


# --------------------------------------------------------------------- loader
class Loader(object):
    def __init__(self, h):
        self.h = h
        h.loader = self
        self.mods = {}
        self.stubs = {}
        self.b = dict(builtins.__dict__)
        self.b.update(rt.SHADOWS)
        self.b.update(rt.HELPERS)
        self.b['open'] = mem_open
        self.b['print'] = self.out
        self.b['__import__'] = self.imp
        self.b['input'] = lambda *a: ''

    def out(self, *a, **k):
        """print: only what goes to a file matters."""
        f = k.get('file') or (self.stubs['sys'].stdout if 'sys' in self.stubs else None)
        if isinstance(f, MemFile):
            sep, end = k.get('sep', ' '), k.get('end', '\n')
            f.write(strs_join(sep if sep is not None else ' ', [rt.r_str(x) for x in a]))
            f.write(end if end is not None else '\n')

    def stub(self, name):
        if name not in self.stubs:
            mk = {'struct': mk_struct, 'math': mk_math, 'json': mk_json, 're': mk_re,
                  'collections': mk_collections, 'sys': mk_sys,
                  'random': lambda: mk_random(self.h)}.get(name)
            if mk is None:
                if name == 'capstone':
                    from . import capstub
                    self.stubs[name] = capstub.mk_capstone(self.h)
                elif name == 'capstone.arm_const':
                    self.stubs[name] = importlib.import_module('capstone.arm_const')
                elif name == 'libs.darm':
                    self.stubs[name] = mk_darm()
                elif name == 'bitarray':
                    from . import bitstub
                    self.stubs[name] = bitstub.mk_bitarray()
                else:
                    return None
            else:
                self.stubs[name] = mk()
        return self.stubs[name]

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        s = self.stub(name)
        if s is not None:
            self.mods[name] = s
            if name == 'libs.darm':
                self.mods['libs.darm.darm'] = s.darm
            return s
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        code, path, pkg = code_for(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.b
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.mods[name] = m
        exec(code, m.__dict__)
        if '.' in name:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def run_script(self, name, args):
        """Run a script of the repository as the main program."""
        code, path, _ = code_for(name)
        m = types.ModuleType('__main__')
        m.__file__ = path
        m.__dict__['__builtins__'] = self.b
        sysm = self.load('sys')
        old, sysm.argv = sysm.argv, [path] + list(args)
        try:
            exec(code, m.__dict__)
        finally:
            sysm.argv = old

    def known(self, name):
        return name.split('.')[0] in ROOTS + HARN or self.stub(name) is not None

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if not self.known(name):
            return builtins.__import__(name, None, None, fromlist or (), 0)
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    sub = name + '.' + f
                    if find(sub)[0] or self.stub(sub) is not None:
                        self.load(sub)
                        if sub in self.stubs:
                            setattr(m, f, self.stubs[sub])
            return m
        return self.mods[name.split('.')[0]] if name.split('.')[0] in self.mods else m
