"""Scores of the recovery: probabilities, equal to the share of addresses that may have a field and do have it."""
BOUNDS = ('programs of up to 3 addresses and 2 candidates each (one up to 4), original anywhere among them, any conditions among 4, '
          'opcodes among 3, subsets of 2 storages (besides none or five others), branch targets anywhere, register lists, flags and undefined candidates, varied a '
          'few at a time; functions covering the program, part of it or unknown; gaps; both scoring functions; the score functions '
          'alone over every rule score in [0,1], present or not, and every kind of instruction; programs of 12 and 20 addresses in which one varies')
OUTSIDE = 'larger programs; all fields varying at once'
ASSUMES = ['the fields of an instruction are arbitrary (stand-in instructions)',
           'the metadata is that of the original program, which is among the candidates']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []

    def add(shape, vary, **k):
        out.append(Cfg('scores', dict(shape=shape, vary=vary, **k), max_conc=200))
    add(['aa', 'aa'], dict(cond=1))
    add(['aa', 'aa'], dict(op=3), layout=[0, 2])
    add(['aa', 'a'], dict(cond=1, op=2), spoil=True, original_first=True)
    add(['au', 'a', 'ua'], dict(condpick=1, cond=2, flags=1))
    add(['aa', 'aa'], dict(used=[1, 2]), spoil=True, original_first=True)
    add(['aa', 'aa'], dict(used=[1, 16], always=[3, 4, 5, 6, 7]), spoil=True, original_first=True)
    add(['aa', 'a'], dict(stor=[16]), fns='none')
    add(['aa', 'a', 'a'], dict(stor=[16]), layout=[0, 1, 3], original_first=True)
    for fns in ('whole', 'none', 'late', 'two'):
        add(['b', 'bl', 'l'], dict(target=1), fns=fns)
    add(['pa', 'oa', 'ao'], dict(regs=1), original_first=True, spoil=True)
    add(['op', 'pu', 'u'], dict(op=2))
    add(['u', 'op', 'op'], dict(op=2), fns='two')
    add(['pa', 'ob', 'oa'], dict(op=2), layout=[0, 2, 5], original_first=True)
    if not q:
        add(['aa', 'aa', 'aa'], dict(cond=1), original_first=True)
        add(['aa', 'aa', 'aa'], dict(op=2), spoil=True)
        add(['aa', 'aa'], dict(stor=[16]), spoil=True)
        add(['aa', 'a'], dict(stor=[1, 2]), spoil=True)
        add(['bb', 'bl', 'bp'], dict(target=1, cond=1), fns='two')
        add(['pa', 'oa', 'ao'], dict(regs=1, op=2), layout=[0, 2, 3])
        add(['aaaa'], dict(cond=1, op=2))
        add(['aau', 'ua', 'ab'], dict(cond=1, flags=1), fns='late')
    long = ['ab', 'ua', 'pa', 'aa', 'oa', 'aau', 'a', 'l', 'aa', 'ba', 'aaa', 'oo']
    for k, vary in ((1, dict(cond=1)), (4, dict(op=3)), (8, dict(used=[1, 16])), (9, dict(target=1)), (11, dict(regs=1)), (3, dict(flags=1, condpick=1))):
        add(long, vary, free=[k])
    add(long + ['aa'] * 8, dict(op=3), free=[14], layout=list(range(6)) + list(range(8, 22)), fns='two')
    for kind in 'abpu':
        out.append(Cfg('functions', dict(kind=kind)))
    return out


def scores(h, shape, vary, **k):
    from harness.recov import build, recover
    from semantic_codec.metadata.recuperator import probabilistic_rules, probabilistic_rules_remove_step
    P = build(h, shape, vary, **k)
    recover(P)
    ori = [i for i in P.ori if not i.und]
    for a, i in P.flat:
        if i.und:
            h.check(i.score() == 0, 'an undefined candidate scores zero')
            h.check(probabilistic_rules_remove_step(i.scores_by_rule, i) == 0, 'an undefined candidate is always discarded')
            continue
        for v in i.scores_by_rule.values():
            h.check(h.all([v >= 0, v <= 1]), 'rule scores are probabilities')
        s = i.score()
        h.check(s == probabilistic_rules_remove_step(i.scores_by_rule, i), 'recovering uses the discarding score')
        c = probabilistic_rules(i.scores_by_rule, i)
        h.check(h.all([s >= 0, s <= 1, c >= 0, c <= 1]), 'scores are probabilities')
        absent = False
        for name, get in (('pc', lambda x: x.cond), ('po', lambda x: x.op)):
            have = sum([1 for x in ori if get(x) == get(i)])
            may = sum([1 for b in range(len(P.addr)) if any([not x.und and get(x) == get(i) for y, x in P.flat if y == b])])
            h.check(name in i.scores_by_rule and h.approx(i.scores_by_rule[name], have / may),
                    'share of the addresses that may have the field and have it')
            absent = absent or have == 0
        if i.kind in 'au':
            pr = 1
            for r in i.storages_used():
                have = sum([1 for x in ori if r in x.storages_used()])
                may = sum([1 for b in range(len(P.addr)) if any([not x.und and r in x.storages_used() for y, x in P.flat if y == b])])
                pr = min(pr, have / may)
            h.check(h.approx(i.scores_by_rule['pr'], pr), 'share of the addresses that use the least certain storage')
            absent = absent or pr == 0
        if absent:
            h.check(s == 0 and c == 0, 'a candidate with a field absent from the program scores zero')


def functions(h, kind):
    """The two functions alone: any rule scores, present or not."""
    from harness.fakes import fake_class
    from semantic_codec.metadata.recuperator import probabilistic_rules, probabilistic_rules_remove_step
    i = fake_class()(0, 0, branch=kind == 'b', pushpop='pop' if kind == 'p' else None, undefined=kind == 'u')
    d = {}
    for r in ('pc', 'po', 'pr', 'prd', 'pcfg', 'pupo', 'pbd'):
        if r in ('pc', 'po') or h.bool('has_' + r):
            d[r] = h.real(r, 0, 1)
    keep = dict(d)
    s, c = probabilistic_rules_remove_step(d, i), probabilistic_rules(d, i)
    h.check(h.all([s >= 0, s <= 1, c >= 0, c <= 1]), 'scores are probabilities')
    zero = h.any([v == 0 for v in d.values()])
    rules = {'a': ['pr', 'prd'], 'b': ['pbd'], 'p': ['pr', 'pupo'], 'u': ['pr', 'prd']}[kind] + ['pc', 'po', 'pcfg']
    prod = 1
    for r in rules:
        if r in d:
            prod = prod * d[r]
    h.check(h.approx(c, prod), 'the continuous score is the product of the scores that apply to the instruction')
    if kind == 'u':
        h.check(s == 0, 'an undefined candidate is always discarded')
    else:
        h.check(h.implies(zero, s == 0), 'an impossible field discards the candidate')
        h.check(h.implies(h.all([zero == False, h.any([d['pc'] == 1, d['po'] == 1])]), s == 1), 'a certain field makes the candidate certain')
        h.check(h.implies(h.all([zero == False, d["pc"] < 1, d["po"] < 1]), h.approx(s, prod)), 'the score is the product otherwise')
    h.check(d == keep, 'scoring changes no rule score')
    h.check(probabilistic_rules_remove_step(d, i) == s, 'scoring twice gives the same')
