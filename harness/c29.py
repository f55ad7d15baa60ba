"""Dominance frontiers, phi functions and SSA renaming."""
from harness.c28 import _dominators, _idoms

BOUNDS = ('every flow graph of 3 nodes (4 when thorough) with any use and definition of a variable in each node; 8 shapes of 4 to 6 nodes '
          '(branches, loops, nested and irreducible loops, unreachable nodes) with any use and definition of one variable per node and '
          'another variable defined in one node and used in another; four graphs of 12 to 15 nodes with a variable defined in two nodes and '
          'used in a third; storages with and without a number of their own')
OUTSIDE = 'larger graphs, more variables at once'
ASSUMES = ['the graph library (pygraph) is trusted', 'instructions are stand-ins with arbitrary storages read and written',
           'the form of a graph is built once']

OPS = ['', 'r', 'w', 'b', 'wr']       # b: one instruction reads and writes; wr: written by one and read by the next

SHAPES = {
    'diamond': (4, [(0, 1), (0, 2), (1, 3), (2, 3)]),
    'loop': (4, [(0, 1), (1, 2), (2, 1), (1, 3)]),
    'nested': (5, [(0, 1), (1, 2), (2, 3), (3, 2), (3, 1), (2, 4)]),
    'irreducible': (4, [(0, 1), (0, 2), (1, 2), (2, 1), (2, 3)]),
    'ladder': (6, [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (3, 5), (4, 5)]),
    'unreachable': (5, [(0, 1), (1, 2), (4, 2), (0, 2), (2, 3), (4, 3), (3, 1)]),
    'two loops': (5, [(0, 1), (1, 2), (2, 1), (2, 3), (3, 3), (3, 4), (0, 4)]),
    'back to the root': (3, [(0, 1), (1, 2), (2, 1), (1, 1)]),
}


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = [Cfg('unordered', {})]
    for first in range(4):
        out.append(Cfg('frontier', dict(n=4, first=first)))
    for op in ('', 'w', 'b') if q else OPS:
        out.append(Cfg('every', dict(n=3, op0=op)))
    for base in ('chain', 'ladder', 'loops', 'tree'):
        out.append(Cfg('large', dict(base=base)))
    for s in sorted(SHAPES):
        n = SHAPES[s][0]
        out.append(Cfg('shape', dict(name=s, ops=5 if n <= 4 or not q else 3, other=False)))
        out.append(Cfg('shape', dict(name=s, ops=3 if not q else 2, other=True)))
    if not q:
        for ops in range(5):
            for first in range(8):
                out.append(Cfg('every', dict(n=4, op0=OPS[ops], first=first)))
        for first in range(16):
            out.append(Cfg('frontier', dict(n=5, first=first)))
    return out


def _graph(h, n, edges, ops, end=False):
    from harness.fakes import fake_class
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock
    F = fake_class()
    g = ARMControlFlowGraph([])
    nodes, c = [], 0
    for k in range(n):
        insts = []
        for group in ops[k]:
            v, op = group
            for o in op if op != 'b' else [op]:
                insts.append(F(4 * c, c, read=[v] if o in 'rb' else [], written=[v] if o in 'wb' else []))
                c += 1
        nodes.append(CFGBlock(insts, kind=CFGBlock.BLOCK) if insts else
                     CFGBlock([], kind=CFGBlock.END if end and k == n - 1 else CFGBlock.COND))
        nodes[k].idx = k
        g.add_node(nodes[k])
    for a, b in edges:
        g.add_edge((nodes[a], nodes[b]))
    return g, nodes


def _frontiers(n, edges, dom):
    r = []
    for a in range(n):
        r.append({y for p, y in edges if dom[p] is not None and a in dom[p] and not (a != y and a in dom[y])})
    return r


def _number(nodes, node):
    for k, b in enumerate(nodes):
        if b is node:
            return k
    return None


def _check_frontiers(h, nodes, edges, dom):
    want = _frontiers(len(nodes), edges, dom)
    for a, b in enumerate(nodes):
        if dom[a] is not None:
            got = [_number(nodes, y) for y in b.dom_frontier]
            h.check(sorted(got) == sorted(want[a]), 'the frontier of a node is where its dominance ends')
    return want


def _check_phis(h, nodes, dom, df, variables):
    from semantic_codec.static_analysis.cfg import CFGBlock
    for v in variables:
        defs, exposed, read = [], False, False
        for k, b in enumerate(nodes):
            killed = False
            for i in b.instructions:
                if v in i.read:
                    read = True
                    exposed = exposed or dom[k] is not None and not killed
                killed = killed or v in i.written
            if killed and dom[k] is not None:
                defs.append(k)
        where, todo = set(), list(defs)
        while todo:
            for y in df[todo.pop()]:
                if y not in where:
                    where.add(y)
                    if nodes[y].kind != CFGBlock.END:
                        todo.append(y)
        got = [k for k, b in enumerate(nodes) if any([p[0] == v for p in b.phi_functions])]
        want = [k for k in sorted(where) if nodes[k].kind != CFGBlock.END]
        if exposed:
            h.check(got == want, 'phi functions are placed exactly at the iterated frontier of the definitions')
        else:
            h.check(all([k in want for k in got]), 'no phi function is placed outside the iterated frontier')


def _check_ssa(h, nodes, edges, dom, deps, variables):
    names = []
    want_edges = set()
    live = [k for k in range(len(nodes)) if dom[k] is not None]
    for k in live:
        for p in nodes[k].phi_functions:
            names.append(p)
            for a in nodes[k].phi_functions[p]:
                h.check(a[0] == p[0], 'a phi function joins versions of one variable')
                want_edges.add((a, p))
        for i in nodes[k].instructions:
            h.check([w[0] for w in i.ssa_written] == i.written, 'every definition gets a version')
            h.check([r[0] for r in i.ssa_read] == i.read, 'every use gets a version')
            names += i.ssa_written
            for r in i.ssa_read:
                for w in i.ssa_written:
                    want_edges.add((r, w))
    h.check(len(set(names)) == len(names), 'every definition has a version of its own')
    h.check(all([i > 0 for v, i in names]), 'a definition differs from the value before the program')
    # follow every path: what each variable holds when a node is entered
    start = (0, tuple([(v, 0) for v in variables]))
    seen, todo = {start}, [start]
    arrive = {}
    while todo:
        k, state = todo.pop()
        cur = dict(state)
        for p in nodes[k].phi_functions:
            arrive.setdefault(p, set()).add((p[0], cur[p[0]]))
        for p in nodes[k].phi_functions:
            cur[p[0]] = p[1]
        for i in nodes[k].instructions:
            for v, n in i.ssa_read:
                h.check(n == cur[v], 'a use carries the version of the definition that reaches it')
            for v, n in i.ssa_written:
                cur[v] = n
        for a, b in edges:
            nxt = (b, tuple([(v, cur[v]) for v in variables]))
            if a == k and nxt not in seen:
                seen.add(nxt)
                todo.append(nxt)
    return want_edges, arrive


def _run(h, n, edges, ops, end=False):
    from semantic_codec.static_analysis.dominators import build_dominator_tree
    from semantic_codec.static_analysis.ssa import SSAFormBuilder, build_dominance_frontier, place_phi_nodes
    variables = sorted({v for node in ops for v, op in node})
    # step by step
    g, nodes = _graph(h, n, edges, ops, end)
    dom = _dominators(n, edges)
    build_dominator_tree(g, nodes[0])
    build_dominance_frontier(g)
    h.check(g.has_computed_dominance_frontier is True, 'the graph knows its frontiers are computed')
    df = _check_frontiers(h, nodes, edges, dom)
    place_phi_nodes(g)
    _check_phis(h, nodes, dom, df, variables)
    placed = [{p[0] for p in b.phi_functions} for b in nodes]
    # all at once
    g, nodes = _graph(h, n, edges, ops, end)
    deps = SSAFormBuilder([], g, nodes[0]).build()
    want, arrive = _check_ssa(h, nodes, edges, dom, deps, variables)
    for k, b in enumerate(nodes):
        if dom[k] is None:
            continue
        h.check(all([p[0] in placed[k] for p in b.phi_functions]), 'no other phi functions appear')
        for p in b.phi_functions:
            got = set(b.phi_functions[p])
            full = {(p[0], i) for a, e in edges if e == k and dom[a] is not None for i in [_leaves(nodes, dom, p[0], a)]}
            if None not in [i for v, i in full]:
                h.check(got == full, 'a phi function joins the versions that arrive')
            else:
                h.check(arrive.get(p, set()) <= got, 'a phi function joins the versions that arrive')
    got = {e for e in deps.edges()}
    h.check(got == want, 'the value dependencies are those of the instructions and phi functions')


def _leaves(nodes, dom, v, a):
    """The version of v at the end of a (None when a removed phi function hides it)"""
    idom = _idoms(dom)
    while a is not None:
        b = nodes[a]
        for i in reversed(b.instructions):
            for w, n in i.ssa_written:
                if w == v:
                    return n
        for p in b.phi_functions:
            if p[0] == v:
                return p[1]
        a = idom[a]
    return 0


def every(h, n, op0, first=None):
    pairs = [(a, b) for a in range(n) for b in range(1, n)]
    edges = []
    for x, (a, b) in enumerate(pairs):
        if (first >> x) & 1 if first is not None and x < 3 else h.bool('e%d_%d' % (a, b)):
            edges.append((a, b))
    ops = [[(1, op0)]] + [[(1, h.pick('op%d' % k, OPS if n == 3 else OPS[:4]))] for k in range(1, n)]
    _run(h, n, edges, ops)


def shape(h, name, ops, other):
    """One variable anywhere; the other one defined in one node and used in another"""
    n, edges = SHAPES[name]
    if name == 'back to the root':
        n, edges = 4, [(0, 1), (1, 2), (2, 0), (1, 3)]
    menu = [['', 'w', 'r', 'b', 'wr'][k] for k in range(ops)]
    what = [[(1, h.pick('op%d' % k, menu))] for k in range(n)]
    if ops == 2:
        # the uses are where they hurt
        what[n - 1].append((1, 'r'))
    if other:
        d = h.pick('defined', list(range(n)))
        u = h.pick('used', list(range(n)))
        what[d].append((30, 'w'))
        what[u].insert(0, (30, 'r'))
    last = any([op != '' for v, op in what[n - 1]])
    _run(h, n, edges, what, False if last else h.bool('end'))


def large(h, base):
    """A graph of a dozen nodes where a variable is defined in any two nodes and used in any one; others are everywhere."""
    from harness.c28 import LARGE
    n, edges = LARGE[base]
    nodes = list(range(0, n, 1 if n < 13 else 2))
    d1 = h.pick('defined', nodes)
    d2 = h.pick('also defined', list(range(n - 4, n)))
    u = h.pick('used', nodes[::2])
    ops = [[(40, 'b')] if k % 5 == 3 else [] for k in range(n)]
    ops[u].append((1, 'r'))
    ops[d1].append((1, 'w'))
    ops[d2].append((1, 'b'))
    ops[n - 2].insert(0, (5, 'w'))
    ops[2].append((5, 'r'))
    _run(h, n, edges, ops)


def frontier(h, n, first):
    from semantic_codec.static_analysis.dominators import build_dominator_tree
    from semantic_codec.static_analysis.ssa import build_dominance_frontier
    edges, k = [], 0
    for a in range(n):
        for b in range(1, n):
            if a == b and n > 4:
                continue
            if k < (2 if n == 4 else 4):
                on = (first >> k) & 1
                k += 1
            else:
                on = h.bool('e%d_%d' % (a, b))
            if on:
                edges.append((a, b))
    if n == 4:
        edges = [e for e in edges if e not in ((1, 1), (3, 3))]
    g, nodes = _graph(h, n, edges, [[]] * n)
    build_dominator_tree(g, nodes[0])
    build_dominance_frontier(g)
    _check_frontiers(h, nodes, edges, _dominators(n, edges))


def unordered(h):
    """The steps refuse to run out of order."""
    from semantic_codec.static_analysis.ssa import build_dominance_frontier, place_phi_nodes
    g, nodes = _graph(h, 2, [(0, 1)], [[(1, 'w')], [(1, 'r')]])
    for f in (build_dominance_frontier, place_phi_nodes):
        try:
            f(g)
            refused = False
        except RuntimeError:
            refused = True
        h.check(refused, 'the dominators are needed first')
