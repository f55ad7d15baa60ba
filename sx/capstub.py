"""Stand-in for the capstone decoder.
 * concrete bytes: the real capstone;
 * bytes equal to a registered encoding template: a record with symbolic operands, as capstone would decode it;
 * any other symbolic bytes: an opaque record whose truth value (decodes / does not decode) is a free boolean, tied to
   the real decoder by refinement on every counterexample (Ctx.check_expr); reading anything else from it concretizes."""
import types
import z3
import capstone as _real
from . import core
from .core import PathCut
from .values import Sym, SymInt, SymBool, is_sym, mkint, bv, lo_hi
from .strs import SymBytes, int_from_bytes

_cache = {}
_md = {}


def _realmd(arch, mode):
    k = (arch, mode)
    if k not in _md:
        _md[k] = _real.Cs(arch, mode)
        _md[k].detail = True
    return _md[k]


def real_defined(v, arch=_real.CS_ARCH_ARM, mode=_real.CS_MODE_ARM):
    k = (v, arch, mode)
    if k not in _cache:
        _cache[k] = any(True for _ in _realmd(arch, mode).disasm(v.to_bytes(4, 'little'), 0x1000))
    return _cache[k]


def refine(ctx, model):
    """Constraints that make the free 'decodes' booleans of this model agree with the real decoder."""
    out = []
    for e, b in ctx.uf.get('defined', []):
        v = model.eval(e, model_completion=True).as_long()
        t = real_defined(v)
        m = z3.is_true(model.eval(b, model_completion=True))
        if m != t:
            out.append(z3.Implies(e == v, b if t else z3.Not(b)))
    return out


_UNDEF = [0xffffffff, 0xf7ffffff, 0xfe000000, 0xf0000010, 0xe7f000f0, 0x07f000f0, 0xe1e0f0f0, 0xe6000010, 0xe6ffffff, 0xec400000, 0x00000090,
          0x0e0000f0, 0x46c04778, 0x00010ec1, 0x000000f0]


def _samples(want):
    s = [v for v in _UNDEF if not real_defined(v)]
    return s if not want else [0xe1a00000, 0, 0xe92d4008, 0xeafffffe, 0xe8bd8000]


def settle(ctx, rounds=60):
    """The solver found a model in which booleans of opaque records may be wrong: look for one where they are right.
    Answers sat, unsat or unknown, the model and what was learnt (facts about the decoder)."""
    learnt = []
    m = ctx.solver.model()
    for _ in range(rounds):
        more = refine(ctx, m)
        if not more:
            return z3.sat, m, learnt
        learnt += more
        ctx.solver.add(*more)
        lst = ctx.uf.get('defined', [])
        vals = [m.eval(e, model_completion=True) for e, b in lst]
        tries = [[e == v for (e, b), v in zip(lst, vals)],
                 [z3.Or(e == v, z3.And(b, z3.Or(*[e == x for x in _samples(True)])),
                        z3.And(z3.Not(b), z3.Or(*[e == x for x in _samples(False)]))) for (e, b), v in zip(lst, vals)]]
        for t in tries:
            ctx.solver.push()
            try:
                ctx.solver.add(*t)
                if ctx._check() == z3.sat:
                    m2 = ctx.solver.model()
                    if not refine(ctx, m2):
                        return z3.sat, m2, learnt
            finally:
                ctx.solver.pop()
        r = ctx._check()
        if r != z3.sat:
            return r, None, learnt
        m = ctx.solver.model()
    return z3.unknown, None, learnt


class OpaqueInsn(Sym):
    def __init__(self, enc, addr, arch, mode):
        self._enc, self._addr, self._k = enc, addr, (arch, mode)
        self._r = None
        lst = core.CTX.uf.setdefault('defined', [])
        e = z3.simplify(bv(enc, 34))
        e = z3.simplify(z3.Extract(31, 0, e))
        for x, b in lst:
            if x.eq(e):
                self._b = b
                break
        else:
            core.CTX.fresh_n += 1
            self._b = z3.Bool('!defined%d' % core.CTX.fresh_n)
            lst.append((e, self._b))

    def _sx_truth(self):
        return SymBool(self._b)

    def __bool__(self):
        return core.CTX.branch(self._b)

    def realize(self):
        if self._r is None:
            v = self._enc.__index__() if is_sym(self._enc) else self._enc
            a = self._addr.__index__() if is_sym(self._addr) else self._addr
            arch, mode = self._k
            r = list(_realmd(arch, mode).disasm(v.to_bytes(4, 'little'), a))
            core.CTX.add(self._b if r else z3.Not(self._b))
            core.CTX._model()
            if not r:
                raise AttributeError("'NoneType' object has no attribute")
            self._r = r[0]
        return self._r

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.realize(), name)

    def __deepcopy__(self, memo):
        return self


class Rec(object):
    """A part of a decoded template; what is not modelled is asked to the same part of the real decoding."""
    _up = None

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, name):
        if name.startswith('_') or self._up is None:
            raise AttributeError(name)
        return getattr(self._up(), name)

    def _tie(self, up):
        self._up = up
        for k, v in list(self.__dict__.items()):
            if isinstance(v, Rec):
                v._tie(lambda k=k: getattr(up(), k))


class TplInsn(Rec):
    """Decoded template; anything not modelled falls back to the real decoder on a concretized encoding."""

    def __init__(self, **k):
        Rec.__init__(self, **k)
        for n, o in enumerate(self.operands):
            o._tie(lambda n=n: self._real().operands[n])

    def _real(self):
        v = self.enc_.__index__() if is_sym(self.enc_) else self.enc_
        a = self.address.__index__() if is_sym(self.address) else self.address
        return next(_realmd(_real.CS_ARCH_ARM, _real.CS_MODE_ARM).disasm(v.to_bytes(4, 'little'), a))

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        v = self.enc_.__index__() if is_sym(self.enc_) else self.enc_
        a = self.address.__index__() if is_sym(self.address) else self.address
        for i in _realmd(_real.CS_ARCH_ARM, _real.CS_MODE_ARM).disasm(v.to_bytes(4, 'little'), a):
            return getattr(i, name)
        raise AttributeError(name)


class FarInsn(object):
    """A known encoding at a symbolic address: the address matters only to some of the answers."""

    def __init__(self, code, addr, md):
        self._code, self._addr, self._md, self._r = code, addr, md, None

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        if name == 'address':
            return self._addr
        at0 = next(self._md.disasm(self._code, 0))
        if name in ('mnemonic', 'id', 'cc', 'size', 'bytes'):
            return getattr(at0, name)
        if self._r is None:
            self._r = next(self._md.disasm(self._code, self._addr.__index__()))
        return getattr(self._r, name)

    def __deepcopy__(self, memo):
        return self


def mk_capstone(h):
    m = types.ModuleType('capstone')
    for k in dir(_real):
        if not k.startswith('__'):
            setattr(m, k, getattr(_real, k))

    class Cs(object):
        def __init__(self, arch, mode):
            self.arch, self.mode = arch, mode
            self.detail = False
            self.skipdata = False

        def disasm(self, code, offset, count=0):
            if not isinstance(code, SymBytes):
                if is_sym(offset):
                    # decode is independent of the address except for pc-relative immediates
                    yield from self._far(bytes(code), offset, count)
                    return
                yield from self._conc(bytes(code), offset, count)
                return
            if self.arch != _real.CS_ARCH_ARM or self.mode not in (0, _real.CS_MODE_LITTLE_ENDIAN):
                yield from self._conc(code.realize(), offset, count)
                return
            if len(code) % 4:
                raise PathCut('partial instruction bytes')
            off = offset
            for p in range(0, len(code), 4):
                enc = int_from_bytes(code.cs[p:p + 4], 'little')
                if isinstance(enc, int):
                    if is_sym(off):
                        yield from self._far(enc.to_bytes(4, 'little'), off, count)
                    else:
                        yield from self._conc(enc.to_bytes(4, 'little'), off, count)
                else:
                    e = z3.simplify(bv(enc, 34))
                    for tenc, mk in h.templates:
                        te = z3.simplify(bv(tenc, 34))
                        if te.eq(e) or not core.CTX._feasible(te != e):
                            yield mk(off)
                            break
                    else:
                        yield OpaqueInsn(enc, off, self.arch, self.mode)
                off = off + 4

        def _far(self, code, off, count):
            if self.skipdata or len(code) != 4:
                yield from self._conc(code, off.__index__(), count)
                return
            md = _realmd(self.arch, self.mode)
            for i in md.disasm(code, 0, 1):
                yield FarInsn(code, off, md)

        def _conc(self, code, off, count):
            md = _realmd(self.arch, self.mode)
            md.skipdata = self.skipdata
            yield from md.disasm(code, off, count)

        disasm_lite = None
    m.Cs = Cs
    return m
