"""The two faces of a harness: symbolic (inputs are solver variables) and concrete (inputs come from a model)."""
import json
import os
import shutil
import tempfile
import zlib


class CheckFailed(Exception):
    pass


class AssumeFailed(BaseException):
    pass


class DrawLimit(BaseException):
    pass


class WarmEnd(BaseException):
    """A run whose only purpose is to have happened before cannot go on."""


class Fake(object):
    pass


class Warm(object):
    """Fixed arbitrary inputs, for a run of the harness before the one that is checked (code that remembers something between
    two uses must not answer the second with what it learned from the first)."""

    def __init__(self, seed):
        self.seed, self.n, self.seen = seed, 0, {}

    def int(self, name, lo, hi):
        if name not in self.seen:
            self.seen[name] = hi if self.seed == 0 else lo + zlib.crc32(('%s %d' % (name, self.seed)).encode()) % (hi - lo + 1)
        return self.seen[name]

    def draw(self, a, b):
        self.n += 1
        if self.n > 2000:
            raise WarmEnd()
        return self.int('draw%d' % self.n, a, b)


class Fixed(object):
    """Draws that are arbitrary but always the same, whatever the range asked for."""

    def __init__(self, seed):
        self.seed, self.n = seed, 0

    def draw(self, a, b):
        a, b = a.__index__(), b.__index__()
        self.n += 1
        return a + zlib.crc32(('draw%d %d' % (self.n, self.seed)).encode()) % (b - a + 1)


def warm_up(h, fn, kwargs):
    """Run the harness with fixed inputs, without checking anything; files are taken away, what the code remembers stays."""
    import sys
    out = sys.stdout
    runs = 0
    for seed in range(0, 8):
        h.warm = Warm(seed)
        ended = True
        try:
            fn(h, **kwargs)
        except WarmEnd:
            ended = False
        except Exception:
            pass
        finally:
            h.warm = None
            h.fixed = None
            sys.stdout = out
            h.forget()
        runs += ended
        if runs == 3:
            break


class ConcreteH(object):
    symbolic = False

    def __init__(self, inputs, known=()):
        self.inputs = inputs
        self.ndraw = 0
        self.tmp = None
        self.back = None
        self._known = set(known)
        self.draws_max = 2000
        self.fixed = None
        self.warm = None
        self.goal, self.hit = None, False

    def forget(self):
        """Take away the files of a run that came before."""
        if self.back:
            os.chdir(self.back)
            self.back = None
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)
            os.makedirs(self.tmp)

    def known(self, kid):
        return kid in self._known

    def int(self, name, lo, hi):
        if self.warm:
            return self.warm.int(name, lo, hi)
        v = self.inputs.get(name, lo)
        if isinstance(v, bool):
            v = int(v)
        return v

    def bool(self, name):
        if self.warm:
            return bool(self.warm.int(name, 0, 1))
        return bool(self.inputs.get(name, False))

    def real(self, name, lo=0, hi=1):
        if self.warm:
            return lo + (hi - lo) * self.warm.int(name, 0, 64) / 64.0
        v = self.inputs.get(name, [lo, 1])
        return v[0] / v[1] if isinstance(v, list) else float(v)

    def fix_draws(self, seed):
        self.fixed = Fixed(seed)

    def free_draws(self):
        self.fixed = None

    def draw(self, a, b):
        if self.fixed:
            return self.fixed.draw(a, b)
        if self.warm:
            return self.warm.draw(a, b)
        name = 'draw%d' % self.ndraw
        self.ndraw += 1
        if self.ndraw > self.draws_max:
            raise DrawLimit()
        if name in self.inputs:
            v = self.inputs[name]
            if a <= v <= b:
                return v
        return a + (self.ndraw * 7919) % (b - a + 1)

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.int(name, 0, len(seq) - 1)]

    def assume(self, c):
        if not c:
            raise WarmEnd() if self.warm else AssumeFailed()

    def check(self, c, msg):
        if not c and not self.warm:
            raise CheckFailed(msg)

    def cover(self, label):
        pass

    def reach(self, cond, label):
        """Some input must make this true."""
        if label == self.goal and cond and not self.warm:
            self.hit = True

    def approx(self, a, b, tol=1e-7):
        return abs(a - b) <= tol * max(1, abs(a), abs(b))

    def hexchar(self, n):
        return '0123456789abcdef'[n]

    def hex(self, v, digits):
        return '%0*x' % (digits, v)

    def text(self, parts):
        return ''.join(parts)

    def char(self, name, alphabet):
        return alphabet[self.int(name, 0, len(alphabet) - 1)]

    def dir(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='sxreplay')
        return self.tmp

    def path(self, name):
        return os.path.join(self.dir(), name)

    def chdir(self):
        self.back = os.getcwd()
        os.chdir(self.dir())

    def read_text(self, name):
        with open(self.path(name)) as f:
            return f.read()

    def write_text(self, name, lines):
        p = self.path(name)
        with open(p, 'w') as f:
            for l in lines:
                f.write(l)
        return p

    def write_bytes(self, name, codes):
        p = self.path(name)
        with open(p, 'wb') as f:
            f.write(bytes(codes))
        return p

    def read_bytes(self, name):
        with open(self.path(name), 'rb') as f:
            return list(f.read())

    def run_script(self, name, args):
        import runpy
        import sys
        old = sys.argv
        path = os.path.join(os.environ.get('SX_REPO', '/repo'), name + '.py')
        sys.argv = [path] + list(args)
        try:
            runpy.run_path(path, run_name='__main__')
        finally:
            sys.argv = old

    def exists(self, name):
        return os.path.exists(self.path(name))

    def concrete(self, v):
        return v

    def ite(self, c, a, b):
        return a if c else b

    def all(self, conds):
        return all(conds)

    def any(self, conds):
        return any(conds)

    def implies(self, a, b):
        return (not a) or b

    def template(self, name, kind, pos, **fix):
        from sx import armtpl
        return armtpl.build(self, name, kind, pos, fix)

    def char_of(self, alphabet, i):
        return alphabet[i]

    def iff(self, a, b):
        return bool(a) == bool(b)

    def close(self):
        if self.back:
            os.chdir(self.back)
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)


class RandomH(ConcreteH):
    """Every input and draw at random: only to confirm on the real code that something the solver calls impossible does not happen."""

    def __init__(self, rng, goal, known=()):
        super(RandomH, self).__init__({}, known)
        self.rng, self.goal = rng, goal

    def int(self, name, lo, hi):
        if name not in self.inputs:
            self.inputs[name] = self.rng.choice([lo, hi, self.rng.randint(lo, hi)])
        return self.inputs[name]

    def bool(self, name):
        return bool(self.int(name, 0, 1))

    def real(self, name, lo=0, hi=1):
        return lo + (hi - lo) * self.int(name, 0, 64) / 64.0

    def draw(self, a, b):
        if self.fixed:
            return self.fixed.draw(a, b)
        self.ndraw += 1
        if self.ndraw > self.draws_max:
            raise DrawLimit()
        return self.rng.randint(a, b)


def make_symh():
    from . import core
    from .core import PathEnd, PathCut, TRUE
    from .values import (SymInt, SymBool, SymReal, sw, zbool, andb, orb, bnot, ite, mkint, bv, lo_hi, is_sym, fitw,
                         toreal)
    from .strs import SymStr, hexdigit
    from . import rt
    import z3
    from fractions import Fraction

    class SymH(object):
        symbolic = True

        def __init__(self, c, known=()):
            self.c = c
            self.cwd = False
            self.ndraw = 0
            self._known = set(known)
            self.templates = []
            self.fixed = None
            self.warm = None

        def forget(self):
            self.c.files.clear()
            self.cwd = False

        def known(self, kid):
            return kid in self._known

        def int(self, name, lo, hi):
            if self.warm:
                return self.warm.int(name, lo, hi)
            if lo == hi:
                return lo
            if lo >= 0 and (hi & (hi + 1)) == 0 and lo == 0:
                w = hi.bit_length()
                v = z3.BitVec(name, w)
                e = z3.ZeroExt(1, v)
                self.c.new_var(name, 'int', e)
                return SymInt(e, 0, hi)
            w = sw(lo, hi)
            v = z3.BitVec(name, w)
            self.c.new_var(name, 'int', v)
            self.c.add(z3.And(v >= lo, v <= hi))
            return SymInt(v, lo, hi)

        def bool(self, name):
            if self.warm:
                return bool(self.warm.int(name, 0, 1))
            v = z3.Bool(name)
            self.c.new_var(name, 'bool', v)
            return SymBool(v)

        def real(self, name, lo=0, hi=1):
            if self.warm:
                return Fraction(lo) + (Fraction(hi) - Fraction(lo)) * self.warm.int(name, 0, 64) / 64
            v = z3.Real(name)
            self.c.new_var(name, 'real', v)
            self.c.add(z3.And(v >= lo, v <= hi))
            return SymReal(v, Fraction(lo), Fraction(hi))

        def fix_draws(self, seed):
            self.fixed = Fixed(seed)

        def free_draws(self):
            self.fixed = None

        def draw(self, a, b):
            if self.fixed:
                return self.fixed.draw(a, b)
            if self.warm:
                return self.warm.draw(a, b)
            if self.ndraw >= self.c.rand_limit:
                raise PathCut('random draw limit %d' % self.c.rand_limit)
            name = 'draw%d' % self.ndraw
            self.ndraw += 1
            lo, hi = lo_hi(a)[0], lo_hi(b)[1]
            v = self.int(name, lo, hi)
            if is_sym(a):
                self.assume(v >= a)
            if is_sym(b):
                self.assume(v <= b)
            return v

        def pick(self, name, seq):
            seq = list(seq)
            i = self.int(name, 0, len(seq) - 1)
            return seq[i.__index__()]

        def assume(self, c):
            if self.warm:
                if not c:
                    raise WarmEnd()
                return
            e = zbool(c)
            if z3.is_false(e):
                raise PathEnd()
            self.c.add(e)
            self.c._model()

        def check(self, c, msg):
            if self.warm:
                return
            t = rt.symtruth(c)
            e = zbool(t) if t is not None else (core.TRUE if c else core.FALSE)
            self.c.check_expr(e, msg)

        def cover(self, label):
            self.c.covered.add(label)

        def reach(self, cond, label):
            if self.warm or label in self.c.reached:
                return
            self.c.goals.add(label)
            e = zbool(cond)
            if not z3.is_false(e) and self.c._feasible(e):
                self.c.reached.add(label)

        def approx(self, a, b, tol=1e-7):
            if not is_sym(a) and not is_sym(b):
                return abs(a - b) <= tol * max(1, abs(a), abs(b))
            d = toreal(a) - toreal(b)
            return andb(d <= tol, d >= -tol)

        def hexchar(self, n):
            return SymStr.make([hexdigit(n)])

        def hex(self, v, digits):
            return SymStr.make([hexdigit((v >> (4 * (digits - 1 - k))) & 15) for k in range(digits)])

        def text(self, parts):
            from .strs import join
            return join('', parts)

        def char(self, name, alphabet):
            i = self.int(name, 0, len(alphabet) - 1)
            return rt.r_get(alphabet, i)

        def path(self, name):
            return name if self.cwd else '/mem/' + name

        def chdir(self):
            """Files with relative names are in the scratch folder of the run."""
            self.cwd = True

        def dir(self):
            return '/mem'

        def read_text(self, name):
            return SymStr.make(list(self.c.files[self.path(name)])) if not all(isinstance(c, int) for c in self.c.files[self.path(name)]) \
                else ''.join([chr(c) for c in self.c.files[self.path(name)]])

        def write_text(self, name, lines):
            cs = []
            for l in lines:
                cs.extend(SymStr.codes(l))
            self.c.files[self.path(name)] = cs
            return self.path(name)

        def write_bytes(self, name, codes):
            self.c.files[self.path(name)] = list(codes)
            return self.path(name)

        def read_bytes(self, name):
            return list(self.c.files[self.path(name)])

        def run_script(self, name, args):
            self.loader.run_script(name, args)

        def exists(self, name):
            return self.path(name) in self.c.files

        def concrete(self, v):
            return v.__index__() if is_sym(v) else v

        def ite(self, c, a, b):
            return ite(c, a, b)

        def all(self, conds):
            return andb(*list(conds))

        def any(self, conds):
            return orb(*list(conds))

        def implies(self, a, b):
            return orb(bnot(a), b)

        def template(self, name, kind, pos, **fix):
            from . import armtpl
            return armtpl.build(self, name, kind, pos, fix)

        def char_of(self, alphabet, i):
            if not is_sym(i):
                return alphabet[i]
            r = ite(i < 10, i + ord('0'), i + ord(alphabet[10]) - 10) if len(alphabet) == 16 else i + ord('0') \
                if alphabet == '0123456789' else None
            if r is None:
                return rt.r_get(alphabet, i)
            r.lo, r.hi = max(r.lo, 48), min(r.hi, ord(alphabet[-1]))
            r.hexv = i
            return SymStr.make([r])

        def iff(self, a, b):
            return SymBool(zbool(a) == zbool(b))

        def close(self):
            pass
    return SymH
