"""Corrupted programs survive a save and a load; corruptors use the file they were given."""
BOUNDS = 'programs of 0..3 addresses (4 thorough) with 0..3 candidates each, every distinct address and every encoding; one address with 40, thirteen addresses'
OUTSIDE = 'larger programs; files edited by hand'
ASSUMES = ['json.dump followed by json.load is the identity on numbers and lists (the json module is a stand-in that keeps '
           'symbolic numbers); a file read back is what was written']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []
    shapes = [[], [1], [3], [1, 2], [0, 1], [2, 0], [1, 3, 1], [40], [1] * 12 + [5]]
    if not q:
        shapes += [[a, b, c] for a in range(3) for b in range(3) for c in range(4)] + [[1, 1, 2, 3]]
    for s in shapes:
        out.append(Cfg('roundtrip', dict(shape=s)))
    out += [Cfg('overwrite', {}), Cfg('json_corruptor', {}), Cfg('packet_saved', {}), Cfg('random_saved', {}, rand_limit=6),
            Cfg('no_path', {}), Cfg('defaults', {}, rand_limit=8)]
    return out


def _program(h, shape, tag=''):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    addr = [h.int('addr%s%d' % (tag, k), 0, 0xffffffff) for k in range(len(shape))]
    if len(shape) > 5:
        addr = [addr[0]] + [0x10000 * (k % 4) + 8 * k + 4 for k in range(1, len(shape))]
    for i in range(len(shape)):
        for j in range(i):
            h.assume(addr[i] != addr[j])
    enc = [[h.int('enc%s%d_%d' % (tag, k, j), 0, 0xffffffff) for j in range(n)] for k, n in enumerate(shape)]
    prog = {}
    for k in range(len(shape)):
        prog[addr[k]] = [CAPSInstruction(e, addr[k]) for e in enc[k]]
    return prog, addr, enc


def _same(h, got, addr, enc):
    from semantic_codec.architecture.instruction import Instruction
    h.check(len(got) == len(addr), 'the same addresses')
    for k in range(len(addr)):
        h.check(addr[k] in got, 'the same addresses')
        v = got[addr[k]]
        h.check(len(v) == len(enc[k]), 'the same number of candidates')
        for a, e in zip(v, enc[k]):
            h.check(isinstance(a, Instruction), 'candidates are decoded instructions')
            h.check(a.encoding == e, 'the same candidates in the same order')
            h.check(a.address == addr[k], 'candidates at their address')


def roundtrip(h, shape):
    from semantic_codec.corruption.corruption import save_corrupted_program_to_json, load_corrupted_program_from_json
    prog, addr, enc = _program(h, shape)
    p = h.path('prog.json')
    save_corrupted_program_to_json(prog, p)
    _same(h, prog, addr, enc)
    _same(h, load_corrupted_program_from_json(p), addr, enc)
    _same(h, load_corrupted_program_from_json(p), addr, enc)


def overwrite(h):
    from semantic_codec.corruption.corruption import save_corrupted_program_to_json, load_corrupted_program_from_json
    a = _program(h, [3, 2], 'a')
    b = _program(h, [1], 'b')
    p, p2 = h.path('prog.json'), h.path('other.json')
    save_corrupted_program_to_json(a[0], p)
    save_corrupted_program_to_json(a[0], p2)
    save_corrupted_program_to_json(b[0], p)
    _same(h, load_corrupted_program_from_json(p), b[1], b[2])
    _same(h, load_corrupted_program_from_json(p2), a[1], a[2])


def json_corruptor(h):
    from semantic_codec.corruption.corruptors import JSONCorruptor, RandomCorruptor
    from semantic_codec.corruption.corruption import save_corrupted_program_to_json
    a = _program(h, [2, 1], 'a')
    b = _program(h, [1], 'b')
    p = h.path('prog.json')
    save_corrupted_program_to_json(a[0], p)
    c = JSONCorruptor(p)
    _same(h, c.corrupt(b[0]), a[1], a[2])
    c = JSONCorruptor()
    c.corrupted_program_path = p
    _same(h, c.corrupt(b[0]), a[1], a[2])


def packet_saved(h):
    from semantic_codec.corruption.corruptors import PacketCorruptor, JSONCorruptor
    prog, addr, enc = _program(h, [1, 1])
    p = h.path('prog.json')
    res = PacketCorruptor(16, 2, [(i * 5) % 16 for i in range(16)], [3], 2, p).corrupt(prog)
    h.check(h.exists('prog.json'), 'the program is saved where asked')
    got = [[c.encoding for c in res[a]] for a in addr]
    _same(h, JSONCorruptor(p).corrupt({}), addr, got)


def random_saved(h):
    from semantic_codec.corruption.corruptors import RandomCorruptor, JSONCorruptor
    prog, addr, enc = _program(h, [1, 1])
    c = RandomCorruptor(50, 1, True)
    p = h.path('prog.json')
    c.corrupted_program_path = p
    res = c.corrupt(prog)
    h.check(h.exists('prog.json'), 'the program is saved where asked')
    got = [[x.encoding for x in res[a]] for a in addr]
    _same(h, JSONCorruptor(p).corrupt({}), addr, got)


def no_path(h):
    from semantic_codec.corruption.corruptors import RandomCorruptor, JSONCorruptor
    prog, addr, enc = _program(h, [1])
    for c in (JSONCorruptor(), JSONCorruptor(None), RandomCorruptor(50, 1, True)):
        try:
            c.corrupt(dict(prog))
            h.check(False, 'refuses to run without a file')
        except RuntimeError:
            h.check(True, 'refused')


def defaults(h):
    from semantic_codec.corruption.corruptors import RandomCorruptor, PacketCorruptor
    prog, addr, enc = _program(h, [1, 1])
    PacketCorruptor(16, 2, list(range(16)), [3]).corrupt(prog)
    prog, addr, enc = _program(h, [1], 'r')
    c = RandomCorruptor(50, 1, False)
    c.corrupt(prog)
    h.check(len(prog[addr[0]]) == 2, 'without saving no file is needed')
