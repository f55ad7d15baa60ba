"""BitQueue: first-in first-out bit stream."""
BOUNDS = ('chunk sizes 1..32 (each one); every 32-bit value; streams of 264+ bits (quick) / 600+ bits (thorough), so at '
          'least eight word boundaries, filled then drained and alternating, with the source/destination bits swept in '
          'fixed patterns; one enqueue and one dequeue at every queue position with every source and destination bit '
          '(chunk sizes 3, 7, 13, 31 quick; 1..32 thorough); every order of 8 operations (12 thorough)')
OUTSIDE = 'chunks asked for beyond bit 31 of the source value; longer streams'
ASSUMES = ['dequeue is called only when a chunk is available, as deinterleave does']


def configs(tier):
    from sx.driver import Cfg
    from math import gcd
    out = []
    out.append(Cfg('default', {}))
    limit = 264 if tier == 'quick' else 600
    for w in range(1, 33):
        n = max(3, limit // w + 1)
        for pat in range(1 if tier == 'quick' else 4):
            for sched in (0, 1):
                out.append(Cfg('fifo', dict(w=w, n=n, sched=sched, pat=pat + sched)))
    for w in (5, 12, 17, 32) if tier == 'quick' else range(5, 33):
        out.append(Cfg('anyorder', dict(w=w, n=8 if tier == 'quick' else 12)))
    for w in (3, 7, 13, 31) if tier == 'quick' else range(1, 33):
        for k in range(32 // gcd(w, 32)):
            if tier != 'quick' or (k * w) % 32 + w > 32 or k % 8 == 0:
                out.append(Cfg('onestep', dict(w=w, k=k)))
    return out


def _enq(h, q, w, k, model, f=None, pat=0):
    v = h.int('v%d' % k, 0, 0xffffffff)
    if f is None:
        f = (k * (7 + 2 * pat)) % (33 - w)
    q.enqueue(v, f)
    model.append((v >> f) & ((1 << w) - 1))


def _deq(h, q, w, k, model, t=None, pat=0):
    if t is None:
        t = (k * (5 + 3 * pat)) % (33 - w)
    base = h.int('b%d' % k, 0, 0xffffffff)
    r = q.dequeue(base, t)
    mask = ((1 << w) - 1) << t
    want = (base & (0xffffffff ^ mask)) | (model.pop(0) << t)
    h.check(r == want, 'dequeue returns the oldest chunk at the requested bit and leaves the other bits alone')


def default(h):
    from semantic_codec.architecture.bits import BitQueue
    q, model = BitQueue(), []
    for k in range(5):
        _enq(h, q, 1, k, model)
        h.check(not q.empty(), 'a queue holding chunks is not empty')
    for k in range(5):
        _deq(h, q, 1, k, model)
    h.check(q.empty(), 'a queue of no given chunk size holds bits one by one')


def onestep(h, w, k):
    from semantic_codec.architecture.bits import BitQueue
    q = BitQueue(w)
    model = []
    for i in range(k):
        q.enqueue(0x5a5a5a5a >> (i % 3), 0)
    for i in range(k):
        q.dequeue(0, 0)
    h.check(q.empty(), 'a drained queue is empty')
    _enq(h, q, w, 0, model, h.int('f', 0, 32 - w))
    q.enqueue(h.int('after', 0, 0xffffffff), 0)
    _deq(h, q, w, 0, model, h.int('t', 0, 32 - w))


def fifo(h, w, n, sched, pat):
    from semantic_codec.architecture.bits import BitQueue
    q, other = BitQueue(w), BitQueue(w)
    model = []
    h.check(q.empty(), 'a new queue is empty')
    k = 0
    if sched == 0:
        for k in range(n):
            _enq(h, q, w, k, model, pat=pat)
            h.check(h.all([not q.empty()]), 'a queue holding chunks is not empty')
        stream = 0
        for i, c in enumerate(model):
            stream = stream | (c << (i * w))
        words = q.get_bytes()
        for i in range((n * w + 31) // 32):
            h.check(words[i] == ((stream >> (32 * i)) & 0xffffffff), 'get_bytes is the packed stream')
        for k in range(n):
            h.check(not q.empty(), 'a queue holding chunks is not empty')
            _deq(h, q, w, k, model, pat=pat)
        h.check(q.empty(), 'a drained queue is empty')
    else:
        e = d = 0
        while e < n:
            _enq(h, q, w, e, model, pat=pat)
            e += 1
            if e % 3 != 1:
                _deq(h, q, w, d, model, pat=pat)
                d += 1
            h.check(q.empty() == (e == d), 'empty exactly when every chunk was taken')
        while d < n:
            _deq(h, q, w, d, model, pat=pat)
            d += 1
            h.check(q.empty() == (e == d), 'empty exactly when every chunk was taken')
    h.check(other.empty(), 'queues are independent')


def anyorder(h, w, n):
    from semantic_codec.architecture.bits import BitQueue
    q = BitQueue(w)
    model = []
    for k in range(n):
        if not model or bool(h.bool('op%d' % k)):
            _enq(h, q, w, k, model)
        else:
            _deq(h, q, w, k, model)
        h.check(q.empty() == (not model), 'empty exactly when every chunk was taken')
