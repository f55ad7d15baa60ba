"""print_report: every ambiguous address is counted once, as recovered only if the original stands out."""
BOUNDS = ('programs of up to 3 addresses with up to 3 candidates each (one address with 4), any real scores between zero and one, the '
          'original anywhere among the candidates or missing, candidates discarded or not, rule scores present on one candidate only; 14 addresses, and 20 candidates, of which one varies')
OUTSIDE = 'larger programs; the layout of the report other than its last lines'
ASSUMES = ['scores are arbitrary reals between 0 and 1 (a stand-in score function), not rounded to floating point',
           'candidates with different encodings have different texts',
           'a stand-in file system keeps what is written to it']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []
    for shape in ([], [1], [2], [3], [1, 1], [2, 2], [1, 3], [2, 1, 2]) + (() if q else ([4], [3, 2], [2, 2, 2], [3, 1, 2])):
        out.append(Cfg('report', dict(shape=shape), max_conc=300))
    for shape in ([2], [1, 2]):
        out.append(Cfg('report', dict(shape=shape, missing=True), max_conc=300))
        out.append(Cfg('report', dict(shape=shape, ignored=True, rules=True), max_conc=300))
    out.append(Cfg('wide', dict(n=14, m=3), max_conc=300))
    out.append(Cfg('wide', dict(n=2, m=20), max_conc=300))
    out.append(Cfg('twice', {}))
    return out


def _program(h, shape, missing=False, ignored=False, rules=False):
    from harness.fakes import fake_class
    F = fake_class()
    score, ori, program, flat = {}, [], {}, []
    for a, n in enumerate(shape):
        pos = h.pick('pos%d' % a, list(range(n + 1 if missing else n)))
        v = []
        for k in range(n):
            e = 100 * a + k + 1
            score[e] = h.real('s%d' % e, 0, 1)
            i = F(4 * a, e)
            i.score_function = lambda d, inst: score[inst.encoding]
            if ignored:
                i.ignore = h.bool('ig%d' % e)
            if rules and k < 2:
                i.scores_by_rule['pr'] = h.real('r%d' % e, 0, 1)
            if rules and k == 0:
                i.scores_by_rule['pc'] = 0.5
            v.append(i)
        o = F(4 * a, 100 * a + pos + 1)
        ori.append(o)
        program[4 * a] = v
        flat.append(list(v))
    return score, ori, program, flat


def _parse(h, name):
    """The figures of the last two lines."""
    errors, depths = None, None
    for line in h.read_text(name).split('\n'):
        if line.startswith('ERRORS: '):
            h.check(errors is None, 'a report replaces what the file held')
            w = line.replace('--', ' ').split()
            errors = [int(w[w.index(k) + 1]) for k in ('ERRORS:', 'LOSING:', 'TIDE:', 'RECOVERED:')]
        if line.startswith('DEPTHS: '):
            depths = {}
            for part in line[len('DEPTHS: '):].strip().strip('{}').split(','):
                if ':' in part:
                    k, v = part.split(':')
                    depths[int(k)] = int(v)
    return errors, depths


def _expected(h, score, ori, flat):
    """Per address: wins, and how many score better / at least as well as the original."""
    res = []
    for o, v in zip(ori, flat):
        if len(v) < 2:
            continue
        others = [score[i.encoding] for i in v if i.encoding != o.encoding]
        if len(others) == len(v):
            res.append((False, True, None, None))
            continue
        s = score[o.encoding]
        res.append((h.all([s > x for x in others]), h.any([x > s for x in others]),
                    sum([h.ite(x > s, 1, 0) for x in others]), sum([h.ite(x >= s, 1, 0) for x in others])))
    return res


def _check(h, score, ori, program, flat, name):
    import sys
    from recover_program import print_report
    from semantic_codec.metadata.probabilistic_rules.rules import from_instruction_dict_to_list
    out = sys.stdout
    try:
        print_report(h.path(name), ori, from_instruction_dict_to_list(program))
        same = sys.stdout is out
    finally:
        sys.stdout = out
    h.check(same, 'the standard output is restored')
    errors, depths = _parse(h, name)
    h.check(errors is not None and depths is not None, 'the figures are reported')
    exp = _expected(h, score, ori, flat)
    n, losing, tied, recovered = errors
    h.check(n == len(exp), 'every address with more than one candidate is an error')
    h.check(n == losing + tied + recovered, 'every error is counted once')
    h.check(recovered == sum([h.ite(e[0], 1, 0) for e in exp]), 'recovered: the original scores better than all others')
    h.check(losing >= sum([h.ite(e[1], 1, 0) for e in exp]), 'lost: another candidate scores better')
    h.check(sum(depths.values()) == len([e for e in exp if e[2] is not None]), 'one depth per address')
    for d in range(5):
        # The original is at depth d for sure if it is d-th and does not share its score
        sure = sum([h.ite(h.all([e[2] == d, e[3] == d]), 1, 0) for e in exp if e[2] is not None])
        may = sum([h.ite(h.all([e[2] <= d, e[3] >= d]), 1, 0) for e in exp if e[2] is not None])
        h.check(h.all([depths.get(d, 0) >= sure, depths.get(d, 0) <= may]), 'depth: how many candidates come before the original')
    for (addr, v), before in zip(sorted(program.items()), flat):
        h.check(len(v) == len(before) and h.all([any([x is y for y in v]) for x in before]), 'the candidates stay')
        if len(v) > 1:
            h.check(h.all([score[v[j].encoding] >= score[v[j + 1].encoding] for j in range(len(v) - 1)]), 'best first')


def report(h, shape, **k):
    score, ori, program, flat = _program(h, shape, **k)
    _check(h, score, ori, program, flat, 'r.txt')


def wide(h, n, m):
    """Many addresses or candidates, where one original is not as good as the others."""
    from harness.fakes import fake_class
    F = fake_class()
    k = h.concrete(h.int('k', 0, n - 1))
    p = h.concrete(h.pick('p', sorted(set([0, 1, m // 2, m - 1]))))
    x = h.real('x', 0, 1)
    score, ori, program, flat = {}, [], {}, []
    for a in range(n):
        v = [F(4 * a, 100 * a + j + 1) for j in range(m)]
        for j, i in enumerate(v):
            score[i.encoding] = x if a == k and j == p else (j + 1) / 32.0
            i.score_function = lambda d, inst: score[inst.encoding]
        ori.append(F(4 * a, v[p if a == k else m - 1].encoding))
        program[4 * a] = v
        flat.append(list(v))
    _check(h, score, ori, program, flat, 'r.txt')


def twice(h):
    """A second report does not depend on the first one."""
    score, ori, program, flat = _program(h, [2, 2])
    _check(h, score, ori, program, flat, 'r.txt')
    program[0].pop()
    flat[0] = list(program[0])
    flat[1] = list(program[4])
    _check(h, score, ori, program, flat, 'r.txt')
