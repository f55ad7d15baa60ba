"""The recovery loop keeps the original of every address."""
BOUNDS = ('programs of up to 3 addresses and 2 candidates each (one up to 4), original anywhere among them, any conditions among 4, '
          'opcodes among 3, subsets of 2 storages read and written, branch targets anywhere, register lists, flags and undefined '
          'candidates, varied a few at a time; functions covering the program, part of it or unknown; gaps; two rounds of scoring and removing; programs of 12 and 20 addresses in which one varies')
OUTSIDE = 'larger programs; more rounds; all fields varying at once'
ASSUMES = ['the fields of an instruction are arbitrary (stand-in instructions); one scenario set uses decoded instructions',
           'the original of each address is among its candidates; nothing is claimed of originals that are not instructions (data)']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []

    def add(shape, vary, **k):
        out.append(Cfg('keeps', dict(shape=shape, vary=vary, **k), max_conc=200))
    add(['aa', 'aa'], dict(cond=1))
    add(['aa', 'aa'], dict(op=3))
    add(['aa', 'a'], dict(cond=1, op=2))
    add(['aa', 'aa'], dict(used=[1, 2]), spoil=True)
    add(['aa', 'a'], dict(stor=[16]), original_first=True, spoil=True)
    add(['aa', 'a', 'a'], dict(stor=[16]), layout=[0, 1, 3])
    add(['ab', 'bl'], dict(target=1), spoil=True)
    add(['pa', 'ao', 'oa'], dict(regs=1), spoil=True)
    add(['pa', 'ao', 'u'], dict(op=2))
    add(['u', 'oa', 'op'], dict(op=2), spoil=True)
    add(['po', 'op', 'po'], dict(op=2), original_first=True)
    add(['pa', 'ao', 'bo'], dict(op=2), layout=[0, 2, 3], original_first=True)
    add(['ua', 'au', 'au'], dict(cond=1), fns='two')
    add(['au', 'pu'], dict(cond=1, op=2), fns='late')
    add(['ba', 'ab'], dict(cond=1), fns='none')
    add(['aa', 'aa', 'a'], dict(flags=1, condpick=1, cond=2), original_first=True)
    if not q:
        add(['aa', 'aa'], dict(stor=[16]))
        add(['aa', 'a'], dict(stor=[1, 2]), original_first=True)
        add(['aa', 'aa', 'aa'], dict(cond=1), original_first=True)
        add(['aa', 'aa', 'aa'], dict(op=2))
        add(['aa', 'aa'], dict(cond=1, op=2))
        add(['aa', 'aa'], dict(stor=[1, 2]), original_first=True)
        add(['pa', 'ab', 'oa'], dict(regs=1, target=1), fns='late')
        add(['ab', 'bl', 'ab'], dict(target=1, cond=1), fns='two')
        add(['pa', 'aoa', 'oa'], dict(regs=1, op=2))
        add(['aaa', 'aa'], dict(cond=1, flags=1))
        add(['aaaa'], dict(cond=1, op=2))
    long = ['ab', 'ua', 'pa', 'aa', 'oa', 'aau', 'a', 'l', 'aa', 'ba', 'aaa', 'oo']
    for k, vary in ((1, dict(cond=1)), (4, dict(op=3)), (8, dict(used=[1, 16])), (9, dict(target=1)), (11, dict(regs=1)), (3, dict(flags=1, condpick=1))):
        add(long, vary, free=[k])
        add(long + ['aa'] * 8, vary, free=[k], layout=list(range(6)) + list(range(8, 22)), fns='two')
    for case in ('pushpop', 'add', 'branch', 'link'):
        out.append(Cfg('decoded', dict(case=case), max_conc=100))
    return out


def _rounds(h, P, rounds):
    import recover_program
    from harness.recov import recover
    for k in range(rounds):
        recover(P)
        for a, o in enumerate(P.ori):
            if o.is_undefined:
                continue
            s = o.score()
            h.check(s > 0, 'no original has score zero')
            for i in P.program[P.addr[a]]:
                h.check(s == 1 or i.score() != 1, 'no candidate eliminates the original')
            recover_program.remove_bad_candidates_at_addr(P.program[P.addr[a]])
            h.check(any([i is o for i in P.program[P.addr[a]]]), 'the original remains')


def keeps(h, shape, vary, **k):
    from harness.recov import build
    _rounds(h, build(h, shape, vary, **k), 2)


CASES = {'pushpop': [[('push2', dict(a=4, b=14)), ('push2', dict(b=14))], [('mov_i', dict(rd=4, imm=1))],
                     [('pop2', dict(a=4, b=15)), ('pop2', dict(a=4))]],
         'add': [[('push2', dict(a=4, b=14))], [('add_r', dict(rd=0, rn=1, rm=2)), ('add_r', dict(rn=1, rm=2))],
                 [('bx', dict(rm=14)), ('mov_r', dict(rd=15))]],
         'branch': [[('mov_i', dict(rd=1, imm=2)), ('mov_i', dict(imm=3))], [('b', {}), ('b', {})]],
         'link': [[('cmp_i', dict(rn=0, imm=1)), ('cmp_i', dict(imm=1))], [('bl', {}), ('blx', dict(rm=3))]]}


def decoded(h, case):
    """Real instructions: each address has its original and some others."""
    from harness.recov import Prog
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    P = Prog()
    P.addr = [64 + 4 * k for k in range(len(CASES[case]))]
    P.program, P.ori = {}, []
    for k, cands in enumerate(CASES[case]):
        a = P.addr[k]
        ts = [h.template('x%d_%d' % (k, j), kind, a, **fix) for j, (kind, fix) in enumerate(cands)]
        P.program[a] = [CAPSInstruction(t.enc, a) for t in ts]
        P.ori.append(P.program[a][0])
    P.collector = MetadataCollector()
    P.collector.collect(P.ori)
    P.fns = {64: (64, P.addr[-1])}
    _rounds(h, P, 2)
