"""random: every draw is a harness input, an arbitrary value of the documented range."""


class RandomModel(object):
    """Every draw is a harness input: an arbitrary value of the documented range."""

    def __init__(self, h):
        self.h = h
        self.n = 0

    def _draw(self, a, b):
        return self.h.draw(a, b)

    @staticmethod
    def _at(seq, i):
        if type(i) is int:
            return seq[i]
        from . import rt
        return rt.r_get(seq, i)

    def randint(self, a, b):
        if not (a <= b):
            raise ValueError('empty range in randrange(%s, %s)' % (a, b))
        return self._draw(a, b)

    def randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        n = (b - a + step - 1) // step
        if not (n > 0):
            raise ValueError('empty range for randrange()')
        return a + step * self._draw(0, n - 1)

    def getrandbits(self, k):
        return self._draw(0, (1 << k) - 1)

    def choice(self, seq):
        if len(seq) == 0:
            raise IndexError('Cannot choose from an empty sequence')
        i = self._draw(0, len(seq) - 1)
        return self._at(seq, i)

    def choices(self, seq, weights=None, cum_weights=None, k=1):
        return [self.choice(seq) for _ in range(k)]

    def sample(self, pop, k, counts=None):
        pop = list(pop)
        if not 0 <= k <= len(pop):
            raise ValueError('Sample larger than population or is negative')
        out = []
        k = k.__index__()
        if isinstance(pop, list) and all(isinstance(x, int) for x in pop) and len(pop) > 1:
            idx = []
            for _ in range(k):
                i = self._draw(0, len(pop) - 1)
                while type(i) is int and i in idx:
                    i = self._draw(0, len(pop) - 1)
                for j in idx:
                    self.h.assume(i != j)
                idx.append(i)
                out.append(self._at(pop, i))
            return out
        for _ in range(k):
            i = self._draw(0, len(pop) - 1)
            i = i.__index__()
            out.append(pop.pop(i))
        return out

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = self._draw(0, i)
            j = j.__index__()
            x[i], x[j] = x[j], x[i]

    def random(self):
        return self._draw(0, 1023) / 1024

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def seed(self, *a, **k):
        pass

    def getstate(self):
        return None

    def setstate(self, s):
        pass


RANDOM_NAMES = ['randint', 'randrange', 'getrandbits', 'choice', 'choices', 'sample', 'shuffle', 'random', 'uniform',
                'seed']


