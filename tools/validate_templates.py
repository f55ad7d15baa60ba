"""Compare every template record with the real capstone decoder over random and boundary fields (development aid)."""
import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append('/opt/venv/lib/python3.12/site-packages')
from sx import armtpl
import capstone
md = capstone.Cs(capstone.CS_ARCH_ARM, capstone.CS_MODE_ARM); md.detail = True
class No(Exception): pass
class H(object):
    symbolic = True
    templates = []
    def int(self, n, lo, hi): return random.choice([lo, hi, random.randint(lo, hi), random.randint(lo, hi)])
    def assume(self, c):
        if not c: raise No()
    def ite(self, c, a, b): return a if c else b
    def any(self, x): return any(x)
    def all(self, x): return all(x)
bad = {}
n = 0
for kind in armtpl.KINDS + ['blxi']:
    for k in range(3000):
        h = H(); h.templates = []
        fix = dict(cond=random.choice([14, 14, 0, 1, 8, 13]), s=random.choice([0, 0, 1]))
        addr = random.choice([0x1000, 0x10550, 0xfffffff0, 0x80000000, 0])
        try: t = armtpl.build(h, 'x', kind, addr, fix)
        except No: continue
        r = h.templates[0][1](addr)
        n += 1
        got = list(md.disasm(t.enc.to_bytes(4, 'little'), addr))
        def desc(i):
            o = []
            for x in i.operands:
                o.append((x.type, x.value.reg if x.type == 1 else x.value.imm if x.type == 2 else (x.value.mem.base, x.value.mem.index, x.value.mem.disp) if x.type == 3 else None, x.shift.type, x.shift.value))
            return (i.id, i.mnemonic, i.cc, bool(i.update_flags), tuple(o))
        g = desc(got[0]) if got else None
        if g != desc(r):
            bad.setdefault(kind, []).append((hex(t.enc), desc(r), g, str(got and got[0].op_str)))
print(n, {k: len(v) for k, v in bad.items()})
for k, v in bad.items():
    for x in v[:4]: print(k, x)
