"""remove_bad_candidates_at_addr: drops the impossible, and the uncertain next to a certain one."""
BOUNDS = 'lists of up to 4 candidates (6 thorough) with any real score between zero and one; 12 and 33 candidates (300 thorough) of which two are free'
OUTSIDE = 'longer lists'
ASSUMES = ['scores are arbitrary reals between 0 and 1 (a stand-in score function), not rounded to floating point']


def configs(tier):
    from sx.driver import Cfg
    out = [Cfg('remove', dict(n=n)) for n in range(0, 5 if tier == 'quick' else 7)]
    out += [Cfg('wide', dict(n=n)) for n in ((12, 33) if tier == 'quick' else (12, 33, 300))]
    return out + [Cfg('rules', dict(n=n)) for n in (1, 2, 3)]


def _check(h, v, insts, scores, r):
    n = len(insts)
    certain = h.any([s == 1 for s in scores])
    drop = [h.any([s == 0, h.all([certain, s != 1])]) for s in scores]
    j = 0
    for k in range(n):
        if j < len(v) and v[j] is insts[k]:
            h.check(drop[k] == False, 'the impossible, and the uncertain next to a certain one, are removed')
            j += 1
        else:
            h.check(drop[k], 'no other candidate is removed, and the order is kept')
    h.check(j == len(v), 'nothing is added')
    h.check(r == n - len(v), 'the number of removed candidates is returned')


def remove(h, n):
    import recover_program
    from harness.fakes import fake_class
    F = fake_class()
    scores = [h.real('s%d' % k, 0, 1) for k in range(n)]
    insts = []
    for k in range(n):
        i = F(4, 70 + k)
        i.score_function = lambda d, inst: scores[inst.encoding - 70]
        insts.append(i)
    v = list(insts)
    r = recover_program.remove_bad_candidates_at_addr(v)
    _check(h, v, insts, scores, r)
    w = list(v)
    h.check(recover_program.remove_bad_candidates_at_addr(v) == 0 and v == w, 'doing it again removes nothing')


def wide(h, n):
    """Many candidates: one or two that are free among impossible, uncertain and possibly certain ones."""
    import recover_program
    from harness.fakes import fake_class
    F = fake_class()
    a = h.concrete(h.int('a', 0, n - 1))
    rest = h.pick('rest', ['mixed', 'zero', 'half', 'one'])
    scores = []
    for k in range(n):
        scores.append({'mixed': (0, 0.25, 0.75)[k % 3], 'zero': 0, 'half': 0.5, 'one': 1}[rest])
    scores[a] = h.real('sa', 0, 1)
    scores[n - 1 - a // 2] = h.real('sb', 0, 1)
    insts = []
    for k in range(n):
        i = F(4, 70 + k)
        i.score_function = lambda d, inst: scores[inst.encoding - 70]
        insts.append(i)
    v = list(insts)
    r = recover_program.remove_bad_candidates_at_addr(v)
    _check(h, v, insts, scores, r)


def rules(h, n):
    """With the scores of the discarding function."""
    import recover_program
    from harness.fakes import fake_class
    from semantic_codec.metadata.recuperator import probabilistic_rules_remove_step
    F = fake_class()
    insts, scores = [], []
    for k in range(n):
        i = F(4, 70 + k)
        i.scores_by_rule['pc'] = h.pick('pc%d' % k, [0, 0.5, 1])
        i.scores_by_rule['pcfg'] = h.pick('pcfg%d' % k, [0, 0.001, 1])
        i.score_function = probabilistic_rules_remove_step
        insts.append(i)
        scores.append(i.score())
    v = list(insts)
    r = recover_program.remove_bad_candidates_at_addr(v)
    _check(h, v, insts, scores, r)
