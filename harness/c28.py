"""Immediate dominators of every small flow graph."""
BOUNDS = ('every directed graph of up to 4 nodes (5 when thorough, without edges to the root or from a node to itself) and any root edges, '
          'graphs of 5 nodes with at most two successors per node in a band of edges, the 13 nodes of the example of Lengauer and Tarjan '
          'with 4 (6 thorough) edges added or removed at will; four graphs of 12 to 15 nodes with any one edge more or less; nodes and edges added in either order; a second computation after an edge changes')
OUTSIDE = 'larger graphs'
ASSUMES = ['the graph library (pygraph) is trusted']

# Lengauer and Tarjan, 1979, figure 1
LT = ['RA', 'RB', 'RC', 'AD', 'BA', 'BD', 'BE', 'CF', 'CG', 'DL', 'EH', 'FI', 'GI', 'GJ', 'HE', 'HK', 'IK', 'JI', 'KR', 'KI', 'LH']


LARGE = {
    'chain': (12, [(k, k + 1) for k in range(11)] + [(9, 3), (6, 5)]),
    'tree': (15, [(k, 2 * k + 1) for k in range(7)] + [(k, 2 * k + 2) for k in range(7)] + [(9, 4), (13, 14)]),
    'ladder': (12, [(0, 1)] + [(k, k + 2) for k in range(10)] + [(4, 5), (7, 6), (10, 3)]),
    'loops': (13, [(k, k + 1) for k in range(12)] + [(11, 1), (10, 2), (9, 3), (8, 4), (7, 5)]),
}


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = [Cfg('every', dict(n=1)), Cfg('every', dict(n=2)), Cfg('every', dict(n=3))]
    for first in range(8):
        out.append(Cfg('every', dict(n=4, first=first, toroot=not q)))
    # the shape of a reducible or irreducible region: each node leads to its neighbours
    for first in range(4):
        out.append(Cfg('band', dict(n=5, first=first)))
    for base in sorted(LARGE):
        out.append(Cfg('large', dict(base=base)))
    out.append(Cfg('order', dict(n=3)))
    out.append(Cfg('again', dict(n=3)))
    for free in (['EA', 'LB', 'IC', 'RK'], ['BD', 'GI', 'KR', 'DH']) + (() if q else (['AD', 'BA', 'HE', 'CF', 'FE', 'JK'],)):
        out.append(Cfg('textbook', dict(free=free)))
    if not q:
        for first in range(16):
            out.append(Cfg('every', dict(n=5, first=first, toroot=False, loops=False)))
        for first in range(8):
            out.append(Cfg('band', dict(n=7, first=first)))
        out.append(Cfg('order', dict(n=4)))
        out.append(Cfg('again', dict(n=4)))
    return out


def _graph(n, edges, down=False):
    from pygraph.classes.digraph import digraph
    from semantic_codec.static_analysis.cfg import CFGBlock
    g = digraph()
    g._has_computed_dominators = False
    nodes = [CFGBlock([], kind=CFGBlock.COND) for k in range(n)]
    ks = list(range(n))
    if down:
        ks.reverse()
    for k in ks:
        nodes[k].idx = k
        g.add_node(nodes[k])
    for a, b in edges:
        g.add_edge((nodes[a], nodes[b]))
    return g, nodes


def _dominators(n, edges):
    """dom[b]: the nodes without which b cannot be reached from node 0 (None when it cannot be reached at all)"""
    def reach(without):
        seen = set() if without == 0 else {0}
        todo = list(seen)
        while todo:
            a = todo.pop()
            for x, y in edges:
                if x == a and y != without and y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen
    full = reach(None)
    dom = [{b} if b in full else None for b in range(n)]
    for a in range(n):
        cut = reach(a)
        for b in full:
            if b not in cut:
                dom[b].add(a)
    return dom


def _idoms(dom):
    """The closest strict dominator: the one that all other strict dominators dominate"""
    r = []
    for b, d in enumerate(dom):
        s = (d or set()) - {b}
        c = [a for a in s if all([x in dom[a] for x in s])]
        r.append(c[0] if c else None)
    return r


def _verify(h, g, nodes, tree, edges):
    n = len(nodes)
    dom = _dominators(n, edges)
    want = _idoms(dom)
    for b in range(n):
        if dom[b] is None:
            continue
        got = nodes[b].idom
        if want[b] is None:
            h.check(b == 0 and got is None, 'the root has no dominator')
        else:
            h.check(got is nodes[want[b]], 'the immediate dominator is the closest node on all paths from the root')
    for a in range(n):
        if dom[a] is None:
            continue
        kids = [b for b in range(n) if dom[b] is not None and want[b] == a]
        got = [b for b in range(n) if dom[b] is not None and any([x is nodes[b] for x in nodes[a].dom_successors])]
        h.check(got == kids, 'the children of a node are those it dominates immediately')
        h.check(len(nodes[a].dom_successors) == len(kids), 'each child is listed once')
        h.check([b for b in range(n) if tree.has_edge((nodes[a], nodes[b]))] == kids, 'the tree holds the same relation')
    h.check(g._has_computed_dominators is True, 'the graph knows its dominators are computed')


def _run(h, n, edges, down=False):
    from semantic_codec.static_analysis.dominators import build_dominator_tree
    g, nodes = _graph(n, edges, down)
    tree = build_dominator_tree(g, nodes[0])
    _verify(h, g, nodes, tree, edges)
    return g, nodes


def every(h, n, first=None, toroot=True, loops=True):
    """All edges are choices; the first ones are given by the configuration."""
    pairs = [(a, b) for a in range(n) for b in range(n) if (toroot or b != 0) and (loops or a != b)]
    edges, k = [], 0
    for a, b in pairs:
        if first is not None and a == 0 and b != 0 and k < 4:
            on = (first >> k) & 1
            k += 1
        else:
            on = h.bool('e%d_%d' % (a, b))
        if on:
            edges.append((a, b))
    _run(h, n, edges)


def band(h, n, first):
    edges = []
    k = 0
    for a in range(n):
        for b in (a - 2, a - 1, a + 1, a + 2):
            if b < 1 or b >= n or (b == a - 2 and a % 2):
                continue
            if k < 2 + (n > 5):
                on = (first >> k) & 1
            else:
                on = h.bool('e%d_%d' % (a, b))
            k += 1
            if on:
                edges.append((a, b))
    _run(h, n, edges)


def order(h, n):
    """The order of nodes and edges does not matter."""
    edges = [(a, b) for a in range(n) for b in range(1, n) if a != b and h.bool('e%d_%d' % (a, b))]
    if h.bool('reverse'):
        edges.reverse()
    _run(h, n, edges, h.bool('down'))


def again(h, n):
    """Another computation starts from scratch, also when the graph changed."""
    from semantic_codec.static_analysis.dominators import build_dominator_tree
    edges = [(a, b) for a in range(n) for b in range(1, n) if a != b and h.bool('e%d_%d' % (a, b))]
    g, nodes = _run(h, n, edges)
    b = h.pick('to', list(range(1, n)))
    a = h.pick('from', [x for x in range(n) if x != b])
    if (a, b) in edges:
        edges.remove((a, b))
        g.del_edge((nodes[a], nodes[b]))
    else:
        edges.append((a, b))
        g.add_edge((nodes[a], nodes[b]))
    tree = build_dominator_tree(g, nodes[0])
    _verify(h, g, nodes, tree, edges)


def large(h, base):
    """A graph of a dozen nodes with one more edge, between any two nodes, or without any one of its edges."""
    n, edges = LARGE[base]
    edges = list(edges)
    if h.bool('less'):
        edges.remove(h.pick('edge', list(edges)))
    else:
        a, b = h.concrete(h.int('from', 0, n - 1)), h.concrete(h.int('to', 1, n - 1))
        if (a, b) not in edges:
            edges.insert(h.pick('when', [0, len(edges)]), (a, b))
    _run(h, n, edges, n % 2 == 1)


def textbook(h, free):
    names = 'RABCDEFGHIJKL'
    edges = []
    for e in LT + [e for e in free if e not in LT]:
        if e not in free or h.bool(e):
            edges.append((names.index(e[0]), names.index(e[1])))
    _run(h, 13, edges, h.bool('down'))
