"""bitarray: a list of bits, each 0, 1 or a symbolic bit."""
import types

from .core import PathCut
from .values import Sym, ite
from .strs import SymBytes


def _bit(v):
    if isinstance(v, Sym):
        return ite(v != 0, 1, 0)
    if v not in (0, 1):
        raise ValueError('bit must be 0 or 1, got %r' % (v,))
    return int(v)


def _idx(i):
    return i.__index__()


def _slice(s):
    return slice(*[None if x is None else _idx(x) for x in (s.start, s.stop, s.step)])


class bitarray(object):
    def __init__(self, initializer=0, endian='big', buffer=None):
        if endian not in ('big', 'little'):
            raise ValueError('bit-endianness must be either "little" or "big"')
        self.endian = endian
        if isinstance(initializer, int):
            self.b = [0] * initializer
        elif isinstance(initializer, bitarray):
            self.b = list(initializer.b)
        elif isinstance(initializer, str):
            self.b = [int(c) for c in initializer if c not in ' _\n\t']
        elif isinstance(initializer, (bytes, bytearray, SymBytes)):
            self.b = []
            self.frombytes(initializer)
        else:
            self.b = [_bit(x) for x in initializer]

    def frombytes(self, data):
        for c in list(data):
            bits = [(c >> k) & 1 for k in range(8)]
            if self.endian == 'big':
                bits.reverse()
            self.b.extend(bits)

    def tobytes(self):
        b = self.b + [0] * (-len(self.b) % 8)
        out = []
        for i in range(0, len(b), 8):
            g = b[i:i + 8]
            if self.endian == 'big':
                g = g[::-1]
            v = 0
            for k, x in enumerate(g):
                v = v | (x << k)
            out.append(v)
        return SymBytes.make(out)

    def __len__(self):
        return len(self.b)

    def __iter__(self):
        return iter(list(self.b))

    def tolist(self):
        return list(self.b)

    def copy(self):
        return bitarray(self, self.endian)

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = bitarray(0, self.endian)
            r.b = self.b[_slice(i)]
            return r
        try:
            return self.b[_idx(i)]
        except IndexError:
            raise IndexError('bitarray index out of range')

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            s = _slice(i)
            if isinstance(v, bitarray):
                self.b[s] = v.b
            else:
                for k in range(*s.indices(len(self.b))):
                    self.b[k] = _bit(v)
            return
        i = _idx(i)
        if not -len(self.b) <= i < len(self.b):
            raise IndexError('bitarray assignment index out of range')
        self.b[i] = _bit(v)

    def __delitem__(self, i):
        if isinstance(i, slice):
            del self.b[_slice(i)]
            return
        i = _idx(i)
        if not -len(self.b) <= i < len(self.b):
            raise IndexError('bitarray assignment index out of range')
        del self.b[i]

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    def __eq__(self, o):
        raise PathCut('comparison of bitarrays')
    __hash__ = None

    def append(self, v):
        self.b.append(_bit(v))

    def extend(self, o):
        self.b.extend(o.b if isinstance(o, bitarray) else [_bit(x) for x in (map(int, o) if isinstance(o, str) else o)])

    def insert(self, i, v):
        self.b.insert(_idx(i), _bit(v))

    def pop(self, i=-1):
        return self.b.pop(_idx(i))

    def setall(self, v):
        self.b = [_bit(v)] * len(self.b)

    def invert(self, i=None):
        if i is None:
            self.b = [1 - x for x in self.b]
        else:
            self.b[_idx(i)] = 1 - self.b[_idx(i)]

    def reverse(self):
        self.b.reverse()

    def clear(self):
        self.b = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise PathCut('bitarray.%s' % name)


def mk_bitarray():
    m = types.ModuleType('bitarray')
    m.bitarray = bitarray
    return m
