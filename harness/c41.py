"""store_packets: the files written for a program, with and without the packets that are lost."""
BOUNDS = ('programs of 1..8 and around 20 and 40 instructions (every number up to 64 thorough), every encoding, in one or two sections and '
          'functions; the bits next to the end of a word are those of the known finding C10-end-of-word')
OUTSIDE = 'larger programs; programs without instructions'
ASSUMES = ['the text follows the format of the sample files', 'the packets lost are the first fifth of the packets']


def configs(tier):
    from sx.driver import Cfg
    ns = [1, 2, 3, 4, 5, 8, 16, 17, 20, 21, 22, 23, 24, 39, 40, 41, 63] if tier == 'quick' else list(range(1, 65)) + [80, 100, 101]
    return [Cfg('store', dict(n=n, cut=n % 3)) for n in ns] + [Cfg('missing')]


def store(h, n, cut):
    encs = [h.int('e%d' % k, 0, 0xffffffff) for k in range(n)]
    lines = ['.functions\n', '0x10000;main\n', '\n', '.init\n' if cut else '.text\n']
    for k in range(n):
        if cut and k == n // 2:
            lines += ['\n', '.text\n']
        lines.append(h.text(['0x', h.hex(0x10000 + 4 * k, 5), ';', h.hex(encs[k], 8), ';mov;r1, r2\n']))
    src, dst = h.write_text('prog.disam', lines), h.path('out')
    if n % 2:
        # the files of another program stored before
        h.write_bytes('out', [1, 2, 3, 4] * (n + 2))
        h.write_bytes('outa100', [5] * 7)
    h.run_script('store_packets', [src, dst])
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    whole, rest = h.read_bytes('outa100'), h.read_bytes('out')
    h.check(len(whole) == 4 * n and len(rest) == 4 * n, 'both files have the size of the program')
    for k in range(n):
        h.check(h.all([whole[4 * k + j] == ((encs[k] >> (8 * j)) & 255) for j in range(4)]), 'one file holds the whole program')
    packets = -(-n // 4)
    order = [int(x) for x in build_2d_interleave_sp(packets, True)]
    lost = [order[p] < packets // 5 for p in range(packets)]
    for k in range(n):
        ok = []
        for b in range(32):
            bit = (rest[4 * k + b // 8] >> (b % 8)) & 1
            gone = lost[(16 * k + b // 2) % packets]
            if b == 31 or (b == 0 and k > 0 and lost[(16 * k - 1) % packets]):
                if gone or b == 0:
                    continue      # C10-end-of-word
            ok.append(bit == (0 if gone else (encs[k] >> b) & 1))
        h.check(h.all(ok), 'the other holds it but for the bits of the lost packets')


def missing(h):
    src, dst = h.path('nothing.disam'), h.path('out')
    code = None
    try:
        h.run_script('store_packets', [src, dst])
    except SystemExit as e:
        code = e.code
    h.check(code == 1 and not h.exists('out'), 'a missing file is reported')
