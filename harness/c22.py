"""Unions and intersections of independent events."""
BOUNDS = 'lists of 0..7 probabilities (10 thorough), every real value between zero and one; range up to 4 (6 thorough) events, order up to 5 (7 thorough); lists of 9 and 11 (13 thorough) of which two, any of them first, are free'
OUTSIDE = 'longer lists; rounding of floating point'
ASSUMES = ['probabilities are exact reals']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = [Cfg('value', dict(n=n)) for n in range(0, 8 if q else 11)]
    out += [Cfg('bounds', dict(n=n)) for n in range(1, 5 if q else 7)]
    out += [Cfg('order', dict(n=n, k=k)) for n in range(2, 6 if q else 8) for k in range(n - 1)]
    out += [Cfg('extremes', dict(n=n)) for n in (1, 2, 3, 6)]
    out += [Cfg('wide', dict(n=n)) for n in ((9, 11) if q else (9, 11, 13))]
    return out


def _events(h, n):
    return [h.real('p%d' % k, 0, 1) for k in range(n)]


def value(h, n):
    from semantic_codec.probability.probabilities import indep_events_union, indep_intersection
    ps = _events(h, n)
    keep = list(ps)
    inter, none = 1, 1
    for p in ps:
        inter = inter * p
        none = none * (1 - p)
    h.check(h.approx(indep_intersection(ps), inter), 'intersection is the product')
    if n == 0:
        try:
            indep_events_union(ps)
            h.check(False, 'an empty union is rejected')
        except RuntimeError:
            h.check(True, 'rejected')
    else:
        h.check(h.approx(indep_events_union(ps), 1 - none), 'union is one minus the product of the complements')
    h.check(len(ps) == n and all([a is b for a, b in zip(ps, keep)]), 'the list is not modified')


def bounds(h, n):
    from semantic_codec.probability.probabilities import indep_events_union, indep_intersection
    ps = _events(h, n)
    u, i = indep_events_union(ps), indep_intersection(ps)
    h.check(h.all([i >= 0, i <= 1]), 'the intersection is a probability')
    h.check(h.all([u >= -1e-12, u <= 1 + 1e-12]), 'the union is a probability')


def order(h, n, k):
    from semantic_codec.probability.probabilities import indep_events_union, indep_intersection
    ps = _events(h, n)
    qs = list(ps)
    qs[k], qs[k + 1] = qs[k + 1], qs[k]
    h.check(h.approx(indep_events_union(ps), indep_events_union(qs)), 'the order of the events does not matter')
    h.check(h.approx(indep_intersection(ps), indep_intersection(qs)), 'the order of the events does not matter')


def wide(h, n):
    """Long lists: two free events among events of one half."""
    from semantic_codec.probability.probabilities import indep_events_union, indep_intersection
    i = h.concrete(h.int('i', 0, n - 1))
    j = n - 1 if i == 0 else 0
    p, r = h.real('p', 0, 1), h.real('r', 0, 1)
    ps = [p if k == i else r if k == j else 0.5 for k in range(n)]
    scale = 2 ** (n - 2)
    h.check(h.approx(indep_intersection(ps) * scale, p * r), 'intersection is the product')
    h.check(h.approx((1 - indep_events_union([p if k == i else r if k == j else 0.0625 for k in range(n)])) , (1 - p) * (1 - r) * 0.9375 ** (n - 2)),
            'union is one minus the product of the complements')


def extremes(h, n):
    from semantic_codec.probability.probabilities import indep_events_union, indep_intersection
    k = h.int('k', 0, n - 1)
    p = h.real('p', 0, 1)
    h.check(h.approx(indep_events_union([h.ite(j == k, p, 0) for j in range(n)]), p), 'impossible events add nothing')
    h.check(h.approx(indep_events_union([h.ite(j == k, 1, p) for j in range(n)]), 1), 'a certain event makes the union certain')
    h.check(h.approx(indep_intersection([h.ite(j == k, p, 1) for j in range(n)]), p), 'certain events change no intersection')
    h.check(h.approx(indep_intersection([h.ite(j == k, 0, p) for j in range(n)]), 0), 'an impossible event makes the intersection impossible')
