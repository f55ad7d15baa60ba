"""Program maps: function ranges and the list / dictionary forms of a program."""
BOUNDS = ('up to 3 functions of 0..3 instructions (at most 6 together when quick) in any file order, every placement of their instructions, also with gaps and interleaved; '
          'programs of 4 addresses (6 thorough) in every order; 12 functions of 5 instructions (40 of 10 thorough) of which any is moved and any is empty')
OUTSIDE = 'more or longer functions'
ASSUMES = ['instructions of a function are in address order and no two instructions share an address']


def configs(tier):
    from sx.driver import Cfg
    out = []
    sizes = [(1, 1, 1), (2, 1, 3), (3, 0, 2), (0, 2, 0), (1, 3, 0)]
    if tier != 'quick':
        sizes += [(a, b, c) for a in range(4) for b in range(4) for c in range(4) if (a, b, c) not in sizes]
    for s in sizes:
        out.append(Cfg('functions', dict(sizes=list(s))))
    for n in (1, 2, 4) if tier == 'quick' else (1, 2, 4, 5):
        out.append(Cfg('lists', dict(n=n)))
    out.append(Cfg('wide', dict(n=12, m=5), max_conc=200))
    if tier != 'quick':
        out.append(Cfg('wide', dict(n=40, m=10), max_conc=600))
    out.append(Cfg('dicts', dict(n=3 if tier == 'quick' else 4)))
    return out


class I(object):
    def __init__(self, address, tag):
        self.address, self.tag = address, tag


def functions(h, sizes):
    from semantic_codec.architecture.functions import ElfFunction
    from semantic_codec.metadata.probabilistic_rules.rules import from_functions_to_list_and_addr
    fns, every, addr, used = [], [], [], []
    for k in range(len(sizes)):
        f = ElfFunction('f%d' % k)
        addr.append([])
        for j in range(sizes[k]):
            # In address order, possibly with gaps, where the instructions of other functions may be
            a = 4 * h.int('a%d_%d' % (k, j), 0, 64)
            if j > 0:
                h.assume(a > addr[k][-1])
            for x in used:
                h.assume(a != x)
            x = I(a, (k, j))
            addr[k].append(a)
            f.instructions.append(x)
            every.append(x)
        used += addr[k]
        h.check(f.length_in_bytes() == 4 * sizes[k], 'length in bytes')
        if sizes[k]:
            h.check(f.start_addr() == addr[k][0], 'start address')
            h.check(f.final_addr() == addr[k][-1], 'address of the last instruction')
        fns.append(f)
    insts, addrs = from_functions_to_list_and_addr(fns)
    h.check(len(insts) == len(every), 'every instruction is listed once')
    for x in every:
        h.check(sum([1 for y in insts if y is x]) == 1, 'every instruction is listed once')
    for a, b in zip(insts, insts[1:]):
        h.check(a.address < b.address, 'instructions are sorted by address')
    n = sum([1 for s in sizes if s])
    h.check(len(addrs) == n, 'one range per function that has instructions')
    for k in range(len(sizes)):
        if sizes[k]:
            h.check(addr[k][0] in addrs, 'ranges are indexed by the start of the function')
            r = addrs[addr[k][0]]
            h.check(h.all([r[0] == addr[k][0], r[1] == addr[k][-1]]),
                    'a range goes from the first to the last instruction of the function')


def wide(h, n, m):
    """Many functions: one moves past another, one has no instructions."""
    from semantic_codec.architecture.functions import ElfFunction
    from semantic_codec.metadata.probabilistic_rules.rules import from_functions_to_list_and_addr, \
        from_instruction_list_to_dict, from_instruction_dict_to_list
    moved = h.concrete(h.int('moved', 0, n - 1))
    empty = h.concrete(h.int('empty', 0, n - 1))
    to = 0x1000 * h.int('to', 0, n)
    fns, every, ranges = [], [], []
    for k in range(n):
        f = ElfFunction('f%d' % k)
        base = 0x1000 * k + 0x100 if k != moved else to + 0x200
        for j in range(m if k != empty else 0):
            x = I(base + 4 * j, (k, j))
            f.instructions.append(x)
            every.append(x)
        if k != empty:
            ranges.append((base, base + 4 * (m - 1)))
            h.check(h.all([f.start_addr() == ranges[-1][0], f.final_addr() == ranges[-1][1]]), 'start and end of a function')
        h.check(f.length_in_bytes() == 4 * len(f.instructions), 'length in bytes')
        fns.append(f)
    insts, addrs = from_functions_to_list_and_addr(fns)
    h.check(len(insts) == len(every) and len(addrs) == len(ranges), 'every instruction and function is listed once')
    for a, b in zip(insts, insts[1:]):
        h.check(a.address < b.address, 'instructions are sorted by address')
    for lo, hi in ranges:
        h.check(lo in addrs, 'ranges are indexed by the start of the function')
        r = addrs[lo]
        h.check(h.all([r[0] == lo, r[1] == hi]), 'a range goes from the first to the last instruction of the function')
    l = from_instruction_dict_to_list(from_instruction_list_to_dict(every))
    h.check(len(l) == len(every) and all([len(v) == 1 for v in l]), 'one candidate list per address')
    for a, b in zip(l, l[1:]):
        h.check(a[0].address < b[0].address, 'candidate lists are sorted by address')


def lists(h, n):
    from semantic_codec.metadata.probabilistic_rules.rules import from_instruction_list_to_dict, \
        from_instruction_dict_to_list
    addr = [4 * h.int('a%d' % k, 0, 1000) for k in range(n)]
    for i in range(n):
        for j in range(i):
            h.assume(addr[i] != addr[j])
    insts = [I(addr[k], k) for k in range(n)]
    d = from_instruction_list_to_dict(insts)
    h.check(len(d) == n, 'one entry per address')
    for k in range(n):
        v = d[addr[k]]
        h.check(len(v) == 1 and v[0] is insts[k], 'the entry of an address holds its instruction')
    l = from_instruction_dict_to_list(d)
    h.check(len(l) == n, 'one candidate list per address')
    for a, b in zip(l, l[1:]):
        h.check(a[0].address < b[0].address, 'candidate lists are sorted by address')


def dicts(h, n):
    from semantic_codec.metadata.probabilistic_rules.rules import from_instruction_dict_to_list
    addr = [4 * h.int('a%d' % k, 0, 1000) for k in range(n)]
    for i in range(n):
        for j in range(i):
            h.assume(addr[i] != addr[j])
    d = {}
    for k in range(n):
        d[addr[k]] = [I(addr[k], (k, j)) for j in range(k)]
    l = from_instruction_dict_to_list(d)
    h.check(len(l) == n, 'one candidate list per address')
    for k in range(n):
        r = sum([h.ite(addr[j] < addr[k], 1, 0) for j in range(n)])
        v = l[h.concrete(r)]
        h.check(len(v) == k and all([x.tag[0] == k for x in v]), 'candidate lists are sorted by address')
