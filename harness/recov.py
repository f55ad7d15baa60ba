"""Small corrupted programs for the recovery: one string per address, one letter per candidate
(a plain, b branch, l branch without a known target, p push, o pop, u undefined); which one is the original is a choice,
as are the fields listed in vary."""


class Prog(object):
    pass


def build(h, shape, vary, layout=None, fns='whole', base=64, original_first=False, spoil=False, free=None):
    """free: the addresses whose fields vary (all of them by default)."""
    from harness.fakes import fake_class
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    F = fake_class()
    P = Prog()
    n = len(shape)
    P.addr = [base + 4 * k for k in (layout or range(n))]
    P.program, P.ori, P.flat = {}, [], []
    every = vary
    for a in range(n):
        v = []
        vary = every if free is None or a in free else {}
        for k, kind in enumerate(shape[a]):
            name = '%d_%d' % (a, k)
            f = {}
            f['cond'] = h.pick('c' + name, [14, 0, 3][:vary.get('cond', 3)]) if 'condpick' in vary else \
                h.int('c' + name, 11, 14) if 'cond' in vary else 14
            f['op'] = h.int('o' + name, 1, vary['op']) if 'op' in vary else 1 + (a + k) % every['op'] if 'op' in every else {'p': 41, 'o': 42, 'b': 43, 'l': 43}.get(kind, 44)
            if 'stor' in vary:
                dom = vary['stor']
                f['read'] = [s for s in dom if h.bool('r%s_%d' % (name, s))]
                f['written'] = [s for s in dom if h.bool('w%s_%d' % (name, s))]
            elif 'rw' in vary:
                use = {s: h.pick('x%s_%d' % (name, s), ['', 'r', 'rw']) for s in vary['rw']}
                f['read'] = [s for s in vary['rw'] if 'r' in use[s]]
                f['written'] = [s for s in vary['rw'] if 'w' in use[s]]
            elif 'used' in vary:
                f['read'] = vary.get('always', []) + [s for s in vary['used'] if h.bool('u%s_%d' % (name, s))]
            else:
                f['read'], f['written'] = [1], [2]
            if 'flags' in vary and h.bool('f' + name):
                f['written'] = f['written'] + [17]
                f['flags'] = True
            if kind in 'bl':
                f['branch'] = True
            if kind == 'b':
                f['target'] = h.int('t' + name, 0, 4 * (base + 4 * n)) if 'target' in vary else base
            if kind in 'po':
                f['pushpop'] = 'push' if kind == 'p' else 'pop'
                if 'regs' in vary:
                    regs = [s for s in (4, 5) if h.bool('g%s_%d' % (name, s))]
                else:
                    regs = [4]
                f['read'] = [13] + (regs if kind == 'p' else [])
                f['written'] = regs if kind == 'o' else []
            if kind == 'u':
                f['undefined'] = True
            i = F(P.addr[a], 1000 * a + k, **f)
            i.kind = kind
            v.append(i)
            P.flat.append((a, i))
        P.program[P.addr[a]] = v
        live = [i for i in v if not i.und] or v
        P.ori.append(live[0] if original_first or len(live) == 1 or free is not None and a not in free else h.pick('ori%d' % a, live))
    if spoil:
        # An address that makes every common condition and opcode uncertain
        a = P.addr[-1] + 8
        o = F(a, 9000, cond=5, op=45, read=[9])
        P.addr.append(a)
        P.program[a] = [o] + [F(a, 9001 + k, cond=14, op=op, read=[9]) for k, op in enumerate((41, 42, 43, 44))]
        P.ori.append(o)
        for k, i in enumerate(P.program[a]):
            i.kind = 'a'
            P.flat.append((n, i))
    P.collector = MetadataCollector()
    P.collector.collect(P.ori)
    last = P.addr[-1]
    P.fns = {'whole': {base: (base, last)}, 'none': None, 'late': {P.addr[min(1, n - 1)]: (P.addr[min(1, n - 1)], last)},
             'two': {base: (base, base), P.addr[min(1, n - 1)]: (P.addr[min(1, n - 1)], last)}}[fns]
    return P


def recover(P):
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    r = ProbabilisticRecuperator(P.collector, P.program, functions=P.fns)
    r.recover()
    return r
