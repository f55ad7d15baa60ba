"""Control-flow graphs: every instruction once, every possible transfer, none that cannot happen."""
BOUNDS = ('programs of up to 3 instructions (4 with two conditions and one or two branches; more of these and 5 when thorough) of every kind (plain, '
          'branch, call, undefined), three conditions and every branch target in and outside the program; the analysed part of a program '
          'of 3; with the conditional nodes and after removing them; '
          'programs of two or three real instructions (moves, branches, calls, returns); programs of 9 and 7 (14 and 10 thorough) with one '
          'conditional instruction and one or two jumps, anywhere and to anywhere')
OUTSIDE = 'longer programs; what instructions do to the flags (two neighbours with the same condition run together)'
ASSUMES = ['instructions are given in address order', 'the graph library (pygraph) is trusted',
           'instruction fields are arbitrary (stand-in instructions)']
AL = 14


def configs(tier):
    from sx.driver import Cfg
    import itertools
    q = tier == 'quick'
    out = [Cfg('program', dict(kinds=''))]
    for n in (1, 2, 3):
        for kinds in itertools.product('abl', repeat=n):
            out.append(Cfg('program', dict(kinds=''.join(kinds), conds=2 if q and kinds.count('a') == 0 and n == 3 else 3)))
    for kinds in ('ua', 'au', 'bu', 'bua', 'uba', 'bau', 'lua', 'abar', 'alar'):
        out.append(Cfg('program', dict(kinds=kinds, conds=2)))
    four = [''.join(k) for k in itertools.product('ab', repeat=4) if k.count('b') in ((1,) if q else (1, 2, 3))]
    for kinds in four + ['bbaa', 'aabb', 'baab', 'alaa'] + ([] if q else ['alab', 'blaa', 'aabl', 'labl']):
        out.append(Cfg('program', dict(kinds=kinds, conds=2 if q else 3)))
    out.append(Cfg('program', dict(kinds='aaaa', conds=3)))
    for kinds in ('aba', 'abx', 'laa', 'xa', 'aLa', 'pa', 'ama', 'oab', 'axb'):
        out.append(Cfg('real', dict(kinds=kinds), max_conc=200))
    for n, m in ((9, 1), (7, 2)) if q else ((9, 1), (7, 2), (14, 1), (10, 2)):
        out.append(Cfg('long', dict(n=n, m=m), max_conc=400))
    out.append(Cfg('part', dict(kinds='bab', count=2)))
    out.append(Cfg('part', dict(kinds='baa', count=1)))
    if not q:
        for kinds in ('aaaab', 'aaaba', 'aabaa', 'baaaa', 'aabab', 'babaa', 'aaabl', 'abaab', 'baaab'):
            out.append(Cfg('program', dict(kinds=kinds, conds=2)))
        out.append(Cfg('part', dict(kinds='bbab', count=3)))
    return out


BASE = 64


def _instructions(h, kinds, conds):
    from harness.fakes import fake_class
    F = fake_class()
    plain = kinds.replace('r', '')
    n = len(plain)
    insts = []
    for k, kind in enumerate(plain):
        f = {}
        if kind == 'u':
            f['undefined'] = True
        else:
            # EQ and NE are interchangeable: the first conditional instruction may have either
            f['cond'] = h.pick('c%d' % k, [AL, 0, 1][:conds])
        if kind in 'bl':
            f['branch'], f['link'] = True, kind == 'l'
            # n: outside the program; a register gives no target at all
            f['target'] = None if 'r' in kinds else BASE + 4 * h.int('t%d' % k, 0, n)
        insts.append(F(BASE + 4 * k, k, **f))
        insts[-1].k = k
    return insts


def _real_instructions(h, kinds):
    """Instructions of the real class: moves, branches, calls, returns, calls to a register."""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    n, insts = len(kinds), []
    for k, kind in enumerate(kinds):
        a, cond, target = BASE + 4 * k, h.concrete(h.pick('c%d' % k, [AL, 0])), None
        if kind in 'bl':
            target = BASE + 4 * h.concrete(h.int('t%d' % k, 0, n))
        name, fix = {'a': ('mov_i', dict(rd=1, imm=k)), 'b': ('b', None), 'l': ('bl', None), 'x': ('bx', dict(rm=14)),
                     'L': ('blx', dict(rm=3)), 'p': ('pop2', dict(a=4, b=15)), 'm': ('mov_r', dict(rd=15, rm=14)),
                     'o': ('pop2', dict(a=4, b=5))}[kind]
        if fix is None:
            fix = dict(imm=(target - a - 8) // 4 & 0xffffff)
        t = h.template('i%d' % k, name, a, cond=cond, **fix)
        i = CAPSInstruction(t.enc, a)
        i.k, i.und, i.cond, i.branch, i.link, i.target = k, False, cond, kind in 'blxLpm', kind in 'lL', target
        insts.append(i)
    return insts


def real(h, kinds):
    insts = _real_instructions(h, kinds)
    _build(h, insts, len(insts))


def _index(insts, target):
    if target is None:
        return None
    for k, i in enumerate(insts):
        if i.address == target:
            return k
    return None


class Oracle(object):
    """Where control may go, instruction by instruction; END is the number of instructions."""
    def __init__(self, insts, count):
        self.n = len(insts)
        # the defined ones, in order
        self.live = [k for k in range(count) if not insts[k].und]
        self.insts = insts
        self.end = self.n
        self.target = {}
        for k in self.live:
            i = insts[k]
            t = _index(insts, i.target) if i.branch else None
            self.target[k] = t if t in self.live else None

    def nxt(self, k):
        l = [j for j in self.live if j > k]
        return l[0] if l else self.end

    def arrive(self, k, least):
        """Instructions that may run first when control arrives at k. least: those that certainly are possible"""
        r = set()
        while True:
            r.add(k)
            if k == self.end or self.insts[k].cond == AL:
                return r
            c = self.insts[k].cond
            k = self.nxt(k)
            if least:
                # the next ones have the same condition, so they are skipped as well
                while k != self.end and self.insts[k].cond == c:
                    k = self.nxt(k)

    def after(self, k, least):
        i, r = self.insts[k], set()
        j = self.nxt(k)
        if not i.branch or i.link:
            if least and j != self.end and not i.link and self.insts[j].cond == i.cond:
                r.add(j)
            else:
                r |= self.arrive(j, least)
        if i.branch:
            r |= {self.end} if self.target[k] is None else self.arrive(self.target[k], least)
            if not least and i.cond != AL:
                r |= self.arrive(j, least)
        return r

    def joined(self, k):
        """Does the instruction stay in the block of the previous one?"""
        p = [j for j in self.live if j < k]
        if not p or k in [t for t in self.target.values()]:
            return False
        a, b = self.insts[p[-1]], self.insts[k]
        return a.cond == b.cond and not a.branch and not b.branch


def _verify(h, cfg, insts, oracle, conditionals):
    from semantic_codec.static_analysis.cfg import CFGBlock
    nodes = [b for b in cfg]
    where = {}
    for b in nodes:
        h.check((b.kind == CFGBlock.BLOCK) == (len(b.instructions) > 0), 'blocks have instructions, the other nodes have not')
        for x, i in enumerate(b.instructions):
            h.check(i.k not in where, 'no instruction is in two blocks')
            where[i.k] = (b, x)
    h.check(sorted(where) == oracle.live, 'every defined instruction is in the graph, the undefined ones are not')
    for b in nodes:
        ks = [i.k for i in b.instructions]
        h.check(ks == sorted(ks), 'the instructions of a block are in address order')
    ends = [b for b in nodes if b.kind == CFGBlock.END]
    h.check(len(ends) == 1, 'there is one end')
    h.check(len([b for b in nodes if b.kind == CFGBlock.ROOT]) == 1 and cfg.root_node in nodes, 'there is one root')
    if not conditionals:
        h.check(not [b for b in nodes if b.kind == CFGBlock.COND], 'the conditional nodes are removed')
    prev = None
    for k in oracle.live:
        if prev is not None:
            h.check((where[k][0] is where[prev][0]) == oracle.joined(k), 'instructions that run in sequence are in the same block')
        prev = k

    def leads(node):
        """The instructions (or end) that follow a node"""
        r, seen, todo = set(), [], list(cfg.neighbors(node))
        while todo:
            b = todo.pop()
            if any([b is s for s in seen]):
                continue
            seen.append(b)
            if b.kind == CFGBlock.END:
                r.add(oracle.end)
            elif b.kind == CFGBlock.BLOCK:
                r.add(b.instructions[0].k)
            else:
                todo.extend(cfg.neighbors(b))
        return r

    def compare(got, least, most, what):
        h.check(all([k in got for k in least]), 'every possible transfer is in the graph' + what)
        h.check(all([k in most for k in got]), 'no impossible transfer is in the graph' + what)

    h.check(not cfg.neighbors(ends[0]) and not cfg.incidents(cfg.root_node), 'nothing comes before the root or after the end')
    start = oracle.live[0] if oracle.live else oracle.end
    compare(leads(cfg.root_node), oracle.arrive(start, True), oracle.arrive(start, False), ' (root)')
    for k in oracle.live:
        b, x = where[k]
        got = {b.instructions[x + 1].k} if x + 1 < len(b.instructions) else leads(b)
        i = insts[k]
        compare(got, oracle.after(k, True), oracle.after(k, False),
                ': an unconditional branch does not fall through' if i.branch and i.cond == AL and not i.link else '')


def _build(h, insts, count):
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph
    cfg = ARMControlFlowGraph(insts)
    h.check(cfg.build(count) is cfg if count != len(insts) else cfg.build() is cfg, 'the graph built is returned')
    oracle = Oracle(insts, count)
    if not insts:
        h.check(len(cfg.nodes()) == 0, 'nothing to see')
        return
    _verify(h, cfg, insts, oracle, True)
    h.check(all([cfg.get_dict_nodes()[b.idx] is b for b in cfg]), 'nodes are numbered')
    cfg.remove_conditionals()
    _verify(h, cfg, insts, oracle, False)


def program(h, kinds, conds=2):
    insts = _instructions(h, kinds, conds)
    _build(h, insts, len(insts))


def long(h, n, m):
    """A longer program with one conditional instruction and m jumps, the first anywhere, all to anywhere."""
    from harness.fakes import fake_class
    F = fake_class()
    where = h.concrete(h.int('where', 0, n - m))
    odd = h.concrete(h.pick('odd', list(range(0, n, 1 if m == 1 else 3))))
    insts = []
    for k in range(n):
        f = dict(cond=0 if k == odd else AL)
        if k in (where, n - 1)[:m]:
            f['branch'], f['link'] = True, m == 1 and bool(h.bool('link'))
            f['target'] = BASE + 4 * h.concrete(h.int('t%d' % k, 0, n))
        insts.append(F(BASE + 4 * k, k, **f))
        insts[-1].k = k
    _build(h, insts, n)


def part(h, kinds, count):
    """Only the first instructions are analysed."""
    _build(h, _instructions(h, kinds, 2), count)
