"""The simulation of packet loss against the transmission it simulates."""
BOUNDS = ('1..3 words of data of any value; 8..40 packets (from 4 thorough) in the default order or another; every choice of one or two lost packets (three thorough) or of five at regular steps; '
          'chunks of 1, 2 and 4 bits (8 thorough), at most 4 lost bits per word (8 thorough)')
OUTSIDE = 'more data, packets or losses; chunk sizes that do not divide the word'
ASSUMES = ['no lost packet carries the chunk at the end of a word (known finding C10-end-of-word)',
           'the end of the data can be told by the receiver (as in C15)']


def configs(tier):
    from sx.driver import Cfg
    q = tier == 'quick'
    out = []

    def add(*a):
        out.append(Cfg('sent', dict(zip(('n', 'p', 'w', 'lost', 'default'), a)), max_conc=600))
    for a in ((1, 8, 4, 1, 1), (1, 16, 2, 2, 1), (2, 16, 2, 1, 0), (2, 24, 2, 1, 1), (2, 11, 4, 1, 1), (1, 40, 1, 1, 0), (3, 32, 2, 1, 0), (2, 20, 4, 1, 1)):
        add(*a)
    for step in (1, -3):
        out.append(Cfg('sent', dict(n=1, p=40, w=1, lost=5, default=1, step=step), max_conc=600))
    if not q:
        for a in ((1, 20, 1, 2, 0), (1, 40, 1, 2, 0), (2, 24, 2, 2, 1), (3, 16, 2, 1, 1), (2, 32, 2, 2, 1), (2, 16, 2, 2, 0), (1, 32, 1, 3, 1), (1, 4, 8, 1, 0)):
            add(*a)
    return out


def sent(h, n, p, w, lost, default, step=0):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.corruption.corruption import corrupt_all_bits_tuples
    from semantic_codec.corruption.corruptors import PacketCorruptor
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp, interleave, deinterleave
    data = [h.int('d%d' % k, 0, 0xffffffff) for k in range(n)]
    order = [int(x) for x in build_2d_interleave_sp(p, True)] if default else [(5 * i + 3) % p if p % 5 else p - 1 - i for i in range(p)]
    gone = []
    for k in range(lost if step else 0):
        if not k:
            x = h.pick('first', [0, 3, 9, 17, 26, 37])
        gone.append((x + step * k) % p)
    for k in range(0 if step else lost):
        x = h.int('lost%d' % k, 0, p - 1)
        for y in gone:
            h.assume(x > y)
        gone.append(h.concrete(x))
    chunks = 32 * n // w
    for c in range(32 // w - 1, chunks, 32 // w):
        h.assume(order[c % p] not in gone)
    if chunks % p:
        left = [k for k in range(p) if order[k] not in gone]
        h.assume(any([k >= chunks % p for k in left]))
        h.assume(any([c % p in left for c in range(chunks - 32 // w, chunks)]))

    packets = interleave(list(data), order, w)
    for x in gone:
        del packets[x]
    got, errors = deinterleave(packets, order, w)

    program = {4 * k: [CAPSInstruction(data[k], 4 * k)] for k in range(n)}
    PacketCorruptor(p, n, order if not default else None, list(gone), w).corrupt(program)
    for k in range(n):
        tuples = [(b, b + w) for word, b in errors if word == k]
        assert len(tuples) * w < 9
        received = corrupt_all_bits_tuples(tuples, got[k])
        h.check(h.any([x == data[k] for x in received]), 'the original is among the candidates of what is received')
        simulated = [i.encoding for i in program[4 * k]]
        h.check(len(simulated) == len(received), 'the simulation has as many candidates as the receiver')
        h.check(h.all([h.any([x == y for y in simulated]) for x in received] + [h.any([x == y for x in received]) for y in simulated]),
                'the candidates of the simulation are those of the receiver')
