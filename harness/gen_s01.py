"""Machine code programs for S01: every implemented instruction form with boundary operands."""
import random
from s86 import Prog

AX, CX, DX, BX, SP, BP, SI, DI = range(8)
ES, CS, SS, DS = range(4)
EDGE16 = [0, 1, 2, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x100, 0x101, 0x7f00, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0x80ff, 0xff00, 0xff7f, 0xff80, 0xfffe, 0xffff]
EDGE8 = [0, 1, 2, 0x0f, 0x10, 0x7e, 0x7f, 0x80, 0x81, 0xf0, 0xfe, 0xff]

def w(x): return bytes([x & 255, x >> 8 & 255])

class Asm:
    def __init__(self, rng):
        self.b = bytearray(); self.r = rng
    def e(self, *bs): self.b += bytes(x & 255 for x in bs); return self
    def ew(self, op, v): self.b += bytes([op]) + w(v); return self
    def here(self): return 0x100 + len(self.b)
    def movr(self, r, v): return self.ew(0xB8 + r, v)
    def val16(self):
        r = self.r
        return r.choice(EDGE16) if r.random() < .6 else r.randrange(65536)
    def val8(self):
        r = self.r
        return r.choice(EDGE8) if r.random() < .6 else r.randrange(256)
    def sreg(self, s, v): self.movr(AX, v); return self.e(0x8E, 0xC0 | s << 3 | AX)
    def segs(self):
        """data segments away from the code, sometimes overlapping or wrapping at 1 MB"""
        r = self.r
        base = r.choice([0x5000, 0x7000, 0x9001, 0xB123])
        self.sreg(DS, base)
        self.sreg(ES, r.choice([base, base + 1, base + 0xfff, 0x6100, 0xffff, 0x4000]))
        self.sreg(SS, r.choice([base, 0x8000, 0xC000, 0xA00f]))
        self.movr(SP, r.choice([0, 2, 1, 0x1000, 0xfffe, 0xffff, 0x4000]))
    def regs(self, keep=()):
        for q in (AX, CX, DX, BX, BP, SI, DI):
            if q not in keep: self.movr(q, self.val16())
    def setc(self):
        """carry and the other flags to something"""
        k = self.r.randrange(4)
        if k == 0: self.e(0x3C, self.val8())
        elif k == 1: self.ew(0x3D, self.val16())
        elif k == 2: self.e(0x0D, 0, 0)
        else: self.e(0x2C, 0)
    def modrm(self, reg, mem=None, rm=None, mod=None):
        """bytes of a random operand (register or memory)"""
        r = self.r
        if mem is None: mem = r.random() < .6
        if not mem: return bytes([0xC0 | reg << 3 | (r.randrange(8) if rm is None else rm)])
        mod = r.randrange(3) if mod is None else mod; rm = r.randrange(8) if rm is None else rm
        b = bytes([mod << 6 | reg << 3 | rm])
        if mod == 1: return b + bytes([r.choice([0, 1, 0x7f, 0x80, 0xff, 0xfe, r.randrange(256)])])
        if mod == 2 or rm == 6: return b + w(r.choice([0, 1, 0x7f, 0x80, 0x7fff, 0x8000, 0xffff, 0xfffe, r.randrange(65536)]))
        return b
    def seg_prefix(self, p=.3, code=False):
        if self.r.random() < p: self.e(self.r.choice([0x26, 0x36, 0x3E]))
    def op(self, op, reg, **kw):
        self.e(op); self.b += self.modrm(reg, **kw)

def noreg_sp(a, reg): return reg

EPI_REGS = (SP,)

def epilogue(a):
    """create DUMP and write the 16 segments of memory to it, then exit 0 (uses no stack)"""
    # MOV AX,CS; MOV DS,AX ; MOV DX,name; XOR CX,CX; MOV AH,3C; INT 21; MOV BX,AX; XOR BP,BP
    a.e(0x8C, 0xC8, 0x8E, 0xD8)
    fix = len(a.b) + 1
    a.ew(0xBA, 0)
    a.e(0x31, 0xC9, 0xB4, 0x3C, 0xCD, 0x21, 0x89, 0xC3, 0x31, 0xED)
    loop = len(a.b)
    a.e(0x8E, 0xDD)                       # MOV DS,BP
    for off in (0, 0x8000):
        a.ew(0xBA, off); a.ew(0xB9, 0x8000); a.e(0xB4, 0x40, 0xCD, 0x21)
    a.e(0x81, 0xC5); a.b += w(0x1000)     # ADD BP,1000
    a.e(0x75, loop - (len(a.b) + 2))      # JNZ loop
    a.ew(0xB8, 0x4C00); a.e(0xCD, 0x21)
    a.b[fix:fix + 2] = w(a.here())
    a.b += b"DUMP\0"

def finish(a, tag):
    epilogue(a)
    return Prog(bytes(a.b), dump=True, tag=tag)

# ---- families; each item is a list of closures emitting one tested instruction with its operands prepared
def alu_items(rng):
    """each ALU operation x form, with boundary operands"""
    items = []
    for op in range(8):
        for form in range(8):
            for rep in range(3):
                def f(a, op=op, form=form):
                    r = a.r
                    if r.random() < .8: a.regs(keep=())
                    a.setc()
                    if r.random() < .3: a.seg_prefix(.5)
                    if form < 4: a.op(op * 8 + form, r.randrange(8) if form & 1 == 0 else r.choice([0, 1, 2, 3, 5, 6, 7]), **({"rm": r.choice([0, 1, 2, 3, 5, 6, 7]), "mem": False} if form & 1 and r.random() < .3 else {"mem": True} if form & 1 else {}))
                    elif form == 4: a.e(op * 8 + 4, a.val8())
                    elif form == 5: a.ew(op * 8 + 5, a.val16())
                    elif form == 6:
                        a.op(r.choice([0x80, 0x82]), op); a.e(a.val8())
                    else:
                        kw = {"mem": True} if r.random() < .6 else {"mem": False, "rm": r.choice([0, 1, 2, 3, 5, 6, 7])}
                        if r.random() < .5: a.op(0x81, op, **kw); a.b += w(a.val16())
                        else: a.op(0x83, op, **kw); a.e(a.val8())
                items.append(f)
    return items

def pair_items(rng, d):
    """ALU operations over pairs of boundary values, carry in set and clear"""
    vals = EDGE16 if d else EDGE8
    items = []
    for op in range(8):
        for x in vals:
            for y in rng.sample(vals, 3):
                def f(a, op=op, x=x, y=y):
                    a.ew(0x3D, 0) if a.r.random() < .5 else a.e(0x0C, 0)
                    if d: a.movr(AX, x); a.movr(BX, y)
                    else: a.e(0xB0, x, 0xB7, y)
                    if a.r.random() < .5: a.e(0x80, 0xF9, 0x00)    # CMP CL,0: carry clear
                    else: a.e(0x80, 0xFA, 0xFF)                    # CMP DL,FF: carry unless DL=FF
                    a.e(op * 8 + d, 0xC0 | BX << 3 | AX) if d else a.e(op * 8, 0xC0 | 7 << 3 | 0)
                items.append(f)
    return items

def mem_items(rng):
    """MOV through every addressing mode x override, including offsets that wrap"""
    items = []
    for mod in range(3):
        for rm in range(8):
            for pre in (None, 0x26, 0x36, 0x3E, 0x2E):
                for op in rng.sample([0x88, 0x89, 0x8A, 0x8B, 0xC6, 0xC7, 0x8C, 0xFF, 0xD1, 0x8D], 4 if pre is None else 2):
                    def f(a, mod=mod, rm=rm, pre=pre, op=op):
                        if pre == 0x2E:    # keep away from the code
                            a.movr(AX, a.val16()); a.movr(BX, 0x9000); a.movr(BP, 0x9100); a.movr(SI, a.r.randrange(256)); a.movr(DI, a.r.randrange(256))
                            if rm in (4, 5) : a.movr(SI, 0xA000); a.movr(DI, 0xA080)
                            if op in (0x8A, 0x8B): pass
                            a.e(pre, 0x88 if op not in (0x8A, 0x8B) else op)
                            b = bytes([mod << 6 | rm])
                            if mod == 0 and rm == 6: b += w(0xC000 + a.r.randrange(0x1000))
                            elif mod == 1: b += bytes([a.r.randrange(256)])
                            elif mod == 2: b += w(a.r.choice([0, 0x100, 0x1000]))
                            a.b += b
                            return
                        a.regs()
                        if pre is not None: a.e(pre)
                        reg = a.r.choice([0, 1, 2, 3, 5, 6, 7]) if op in (0x8B, 0x8D) else a.r.randrange(8)
                        if op in (0xC6, 0xC7): reg = 0
                        if op == 0x8C: reg = a.r.randrange(4)
                        if op == 0xFF: reg = a.r.randrange(2)
                        if op == 0xD1: reg = a.r.choice([4, 5, 7])
                        a.op(op, reg, mem=True, mod=mod, rm=rm)
                        if op == 0xC6: a.e(a.val8())
                        if op == 0xC7: a.b += w(a.val16())
                    items.append(f)
    for op in (0xA0, 0xA1, 0xA2, 0xA3):
        for pre in (None, 0x26, 0x36, 0x3E):
            for off in (0, 0x7fff, 0xfffe, 0xffff):
                def f(a, op=op, pre=pre, off=off):
                    a.movr(AX, a.val16())
                    if pre is not None: a.e(pre)
                    a.ew(op, off)
                items.append(f)
    return items

def misc_items(rng):
    items = []
    def add(f, k=1): items.extend([f] * k)
    for i in range(8):
        if i != SP:
            add(lambda a, i=i: (a.movr(i, a.val16()), a.setc(), a.e(0x40 + i)), 2)
            add(lambda a, i=i: (a.movr(i, a.val16()), a.setc(), a.e(0x48 + i)), 2)
            add(lambda a, i=i: (a.movr(i, a.val16()), a.movr(AX, a.val16()), a.e(0x90 + i)))
            add(lambda a, i=i: (a.movr(i, a.val16()), a.e(0xB0 + i, a.val8()), a.e(0xB0 + (i ^ 4), a.val8())))
        else: add(lambda a: (a.e(0x44), a.e(0x4C), a.e(0x4C), a.e(0x94), a.movr(SP, 0x800)))
    for v in EDGE16:
        add(lambda a, v=v: (a.movr(AX, v), a.e(0x98)))
        add(lambda a, v=v: (a.movr(AX, v), a.e(0x99)))
        for x in rng.sample(EDGE16, 4):
            # MUL, IMUL
            for q in (4, 5):
                def f(a, v=v, x=x, q=q):
                    a.movr(AX, v); a.movr(DX, a.val16()); a.setc(); a.movr(AX, v)
                    rm = a.r.choice([BX, CX, SI, DI, BP, DX])
                    a.movr(rm, x); a.e(0xF7, 0xC0 | q << 3 | rm)
                add(f)
            if x:
                def f(a, v=v, x=x):
                    a.movr(AX, v); a.movr(DX, 0); a.movr(CX, x); a.e(0xF7, 0xF1)
                    if not (v == 0x8000 and x == 0xffff): a.movr(AX, v); a.e(0x99); a.e(0xF7, 0xF9)
                add(f)
        for q in (2, 3):
            def f(a, v=v, q=q):
                a.setc()
                if a.r.random() < .5: a.movr(DX, v); a.e(0xF7, 0xC0 | q << 3 | DX)
                else: a.e(0xC7, 0x06, 0x34, 0x12); a.b += w(v); a.e(0xF7, 0x06 | q << 3, 0x34, 0x12)
            add(f)
        for q in (4, 5, 7):
            def f(a, v=v, q=q):
                a.movr(BX, v); a.setc(); a.e(0xD1, 0xC0 | q << 3 | BX)
            add(f)
            for cnt in rng.sample([0, 1, 2, 3, 7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 64, 128, 255], 4):
                def f(a, v=v, q=q, cnt=cnt):
                    a.movr(CX, cnt | a.r.choice([0, 0x100, 0xff00])); a.movr(DX, v); a.setc()
                    a.e(0xD3, 0xC0 | q << 3 | DX)
                add(f)
    for mod in range(4):
        def f(a, mod=mod):
            a.regs(); a.seg_prefix()
            op = a.r.choice([0xFE, 0xFF])
            a.op(op, a.r.randrange(2), mem=True)
        add(f, 8)
        def f(a, mod=mod):
            a.regs(); a.movr(CX, a.r.choice([0, 1, 5, 16]))
            a.seg_prefix()
            a.op(a.r.choice([0xD1, 0xD3]), a.r.choice([4, 5, 7]), mem=True)
        add(f, 6)
        def f(a, mod=mod):
            a.regs(); a.movr(DX, 0); a.movr(AX, a.r.randrange(0x8000)); a.movr(BX, 0x4000)
            a.e(0xC7, 0x07); a.b += w(a.r.choice([1, 2, 3, 0x7fff, 0x8000, 0xffff, 10]))
            a.e(0xF7, a.r.choice([4, 5, 6, 7]) << 3 | 7)
        add(f, 8)
    # 8-bit INC/DEC of registers and CALL r/m through memory is in flow
    for i in range(8):
        add(lambda a, i=i: (a.e(0xB0 + i, a.val8()), a.setc(), a.e(0xFE, 0xC0 | a.r.randrange(2) << 3 | i)), 3)
        if i != SP: add(lambda a, i=i: (a.movr(i, a.val16()), a.setc(), a.e(0xFF, 0xC0 | a.r.randrange(2) << 3 | i)), 2)
    for s in (ES, SS, DS):
        add(lambda a, s=s: (a.e(0x8C, 0xC0 | s << 3 | DX), a.e(0x8E, 0xC0 | s << 3 | DX)))
        def f(a, s=s):
            a.movr(BX, 0x4444); a.ew(0xC7, 0); a.b[-2:] = b"\x07" + w(a.r.choice([0x5000, 0x6000, 0xfff0, 0xffff]))
            a.seg_prefix(0); a.e(0x8E, s << 3 | 7)
        add(f)
    return items

def string_items(rng):
    items = []
    def setup(a, n):
        a.movr(SI, a.r.choice([0, 1, 0x100, 0xfffc, 0xffff, 0x8000])); a.movr(DI, a.r.choice([0, 2, 0x102, 0xfffd, 0xffff, 0x8001, 0x200])); a.movr(CX, n)
    def fill(a, k=6):
        """a few bytes at DS:SI.. and ES:DI.."""
        for j in range(k): a.e(0xC6, 0x44, j, a.r.choice([0, 1, 1, 0x80, 0xff])); a.e(0x26, 0xC6, 0x45, j, a.r.choice([0, 1, 1, 0x80, 0xff]))
    for op, reps in ((0xA4, [0xF3]), (0xA5, [0xF3]), (0xA6, [0xF3]), (0xAE, [0xF2]), (0xAA, [0, 0xF3, 0xF2]), (0xAB, [0, 0xF3, 0xF2]), (0xAC, [0]), (0xAD, [0])):
        for rep in reps:
            for n in (0, 1, 2, 3, 5, 9):
                for pre in ((None, None, 0x26, 0x36) if op in (0xA4, 0xA5, 0xA6, 0xAC, 0xAD) else (None, 0x36)):
                    def f(a, op=op, rep=rep, n=n, pre=pre):
                        setup(a, n)
                        if a.r.random() < .7: fill(a)
                        a.movr(AX, a.r.choice([0, 1, 0x80, 0xff, 0x1234, 0xff01]))
                        a.setc()
                        if a.r.random() < .5: a.movr(AX, a.r.choice([0, 1, 0x80, 0xff, 0x1234, 0xff01]))
                        x = [y for y in (rep, pre) if y]
                        a.r.shuffle(x)
                        a.e(*x, op)
                    items.append(f)
    for n in (40, 300):
        items.append(lambda a, n=n: (setup(a, n), a.e(0xF3, 0xAA)))
        items.append(lambda a, n=n: (setup(a, n // 2), fill(a), a.e(0xF3, a.r.choice([0xA4, 0xA5]))))
    return items

def stack_items(rng):
    items = []
    for i in range(8):
        if i == SP: continue
        items += [lambda a, i=i: (a.movr(i, a.val16()), a.e(0x50 + i), a.e(0x58 + a.r.choice([0, 1, 2, 3, 5, 6, 7])))] * 2
    for sp in (0, 1, 2, 0xffff, 0xfffe, 0x8000, 3):
        def f(a, sp=sp):
            a.movr(SP, sp); a.movr(DX, a.val16())
            a.e(0x52, 0x53, 0x51, 0x58 + a.r.choice([0, 1, 2, 3, 5, 6, 7]), 0x5F)
        items.append(f)
        items.append(lambda a, sp=sp: (a.movr(SP, sp), a.e(0x58 + a.r.choice([0, 1, 2, 3, 5, 6, 7]), 0x5E)))
    for s in (ES, CS, SS, DS):
        items.append(lambda a, s=s: (a.e(6 | s << 3), a.e(0x58 + a.r.choice([0, 1, 2, 3]))))
        if s != CS: items.append(lambda a, s=s: (a.movr(DX, a.r.choice([0x5000, 0x7777, 0xffff])), a.e(0x52), a.e(7 | s << 3)))
    items.append(lambda a: (a.movr(DX, 0x1234), a.e(0x52, 0x5C), a.movr(SP, 0x2000)))    # POP SP
    return items

def flow_items(rng):
    items = []
    for cc in list(range(10)) + [12, 13, 14, 15]:
        for k in range(4):
            def f(a, cc=cc):
                a.regs(); a.setc(); a.setc()
                if a.r.random() < .7: a.e(0x39, 0xC0 | a.r.choice([0, 3, 6]) << 3 | a.r.choice([0, 3, 6]))
                else: a.e(0x38, 0xC0 | a.r.randrange(8) << 3 | a.r.randrange(8))
                n = a.r.choice([0, 1, 3, 20, 0x7f - 2, 0x7f])
                # jump over n bytes of filler
                a.e(0x70 + cc, n)
                a.b += filler(a, n)
            items.append(f)
    def back(a):
        """a loop closed by a backward conditional jump"""
        a.movr(DX, a.r.choice([1, 2, 3, 5])); st = len(a.b)
        a.e(0x05, a.r.randrange(256), a.r.randrange(256))
        n = a.r.choice([0, 4, 100])
        if n: a.e(0xEB, n); a.b += filler(a, n)
        a.e(0x4A); a.e(a.r.choice([0x75, 0x7F]), st - (len(a.b) + 2))
    items += [back] * 6
    def jmps(a):
        n = a.r.choice([0, 1, 127, 128, 200])
        if n < 128 and a.r.random() < .5: a.e(0xEB, n)
        else: a.ew(0xE9, n)
        a.b += filler(a, n)
    items += [jmps] * 6
    def jback(a):
        """forward over a block that jumps back behind it"""
        n = a.r.choice([1, 50, 100])
        a.e(0xEB, n + (2 if n < 100 else 3))
        st = len(a.b)
        a.b += filler(a, n)
        if n < 100: a.e(0xEB, 2)
        else: a.ew(0xE9, 2)
        # landing of the first jump: jump back to the block
        if a.r.random() < .5: a.e(0xEB, st - (len(a.b) + 2))
        else: a.ew(0xE9, 0); a.b[-3:] = bytes([0xEB, (st - (len(a.b) - 3 + 2)) & 255]) ; a.e()
    items += [jback] * 4
    def call(a):
        """CALL over a subroutine: JMP over; sub: ...; RET; over: CALL sub"""
        a.movr(SP, a.r.choice([0, 1, 2, 0x1000, 0xffff]))
        body = filler(a, a.r.choice([0, 2, 30]))
        a.e(0xEB, len(body) + 1)
        sub = a.here()
        a.b += body; a.e(0xC3)
        k = a.r.randrange(5)
        if k <= 1: a.ew(0xE8, sub - (a.here() + 3))
        elif k == 2: a.movr(BX, sub); a.e(0xFF, 0xD3)
        elif k == 3: a.movr(BX, 0x3000); a.e(0xC7, 0x07); a.b += w(sub); a.e(0xFF, 0x17)
        else:   # target taken from the stack slot that receives the return address
            a.movr(BP, 0x1000); a.movr(SP, 0x1002); a.e(0xC7, 0x46, 0); a.b += w(sub); a.e(0xFF, 0x56, 0)
    items += [call] * 10
    return items

def filler(a, n):
    """n bytes of harmless instructions"""
    b = bytearray()
    while len(b) < n:
        k = a.r.randrange(4)
        if k == 0 and n - len(b) >= 3: b += bytes([0x05]) + w(a.r.randrange(65536))
        elif k == 1 and n - len(b) >= 2: b += bytes([0xB0 + a.r.randrange(4), a.r.randrange(256)])
        elif k == 2: b += bytes([0x40])
        else: b += bytes([0x90])
    return bytes(b)

def pack(name, items, rng, per, seed):
    """programs of `per` items each"""
    rng.shuffle(items)
    progs = []
    for i in range(0, len(items), per):
        a = Asm(random.Random("%s/%d/%d" % (name, seed, i)))
        a.segs(); a.regs()
        for it in items[i:i + per]: it(a)
        progs.append(finish(a, "%s%d" % (name, i // per)))
    return progs

def random_programs(seed, n):
    progs = []
    for i in range(n):
        rng = random.Random("s01rand/%d/%d" % (seed, i))
        a = Asm(rng)
        pool = alu_items(rng) + mem_items(rng) + string_items(rng) + stack_items(rng) + misc_items(rng) + flow_items(rng)
        a.segs(); a.regs()
        for k in range(40): rng.choice(pool)(a)
        progs.append(finish(a, "rand%d" % i))
    return progs

IMPLEMENTED = set(x for b in range(0, 0x40, 8) for x in range(b, b + 6)) | {0x06, 0x0E, 0x16, 0x1E, 0x07, 0x0F, 0x17, 0x1F, 0x26, 0x2E, 0x36, 0x3E} | set(range(0x40, 0x60)) | \
    (set(range(0x70, 0x80)) - {0x7A, 0x7B}) | {0x80, 0x81, 0x82, 0x83, 0x88, 0x89, 0x8A, 0x8B, 0x8C, 0x8D, 0x8E} | set(range(0x90, 0x9A)) | {0xA0, 0xA1, 0xA2, 0xA3, 0xAA, 0xAB, 0xAC, 0xAD} | \
    set(range(0xB0, 0xC0)) | {0xC3, 0xC6, 0xC7, 0xCD, 0xE8, 0xE9, 0xEB, 0xF2, 0xF3}

def bad_programs(seed):
    """each encoding that is not implemented must stop the run"""
    progs = []
    encs = [bytes([op]) for op in range(256) if op not in IMPLEMENTED and op not in (0xD1, 0xD3, 0xF7, 0xFE, 0xFF)]
    encs += [bytes([op, 0xC0 | x << 3 | 3]) for op, ok in ((0xD1, (4, 5, 7)), (0xD3, (4, 5, 7)), (0xF7, (2, 3, 4, 5, 6, 7)), (0xFE, (0, 1)), (0xFF, (0, 1, 2))) for x in range(8) if x not in ok]
    encs += [bytes([p, o]) for p in (0xF2, 0xF3) for o in (0xAC, 0xAD)] + [b"\xF2\xA6", b"\xF3\xAE", b"\xF2\xA4", b"\xF2\xA5"]
    encs += [bytes([0xCD, i]) for i in (0, 3, 0x10, 0x16, 0x22, 0xff)]
    encs += [b"\xB4" + bytes([ah]) + b"\xCD\x21" for ah in (0, 1, 6, 9, 0x2A, 0x3B, 0x41, 0x42, 0x4B, 0xff)]
    encs += [b"\x31\xDB\xF7\xF3", b"\xBA\x01\x00\xF7\xF3", b"\xB8\x00\x80\x99\xBB\xFF\xFF\xF7\xFB", b"\x31\xC9\xB8\x05\x00\x99\xF7\xF9"]
    for i, e in enumerate(encs):
        rng = random.Random("bad/%d/%d" % (seed, i))
        a = Asm(rng)
        for q in range(rng.randrange(3)): a.movr(rng.choice([AX, CX, DX, SI, DI]), a.val16())
        a.movr(BX, 0x4000 + rng.randrange(100)); a.movr(AX, 0x0100)
        a.b += e + bytes([0xC3, 1, 2, 3, 4, 5])
        p = Prog(bytes(a.b), tag="bad_" + e.hex()); progs.append(p)
    return progs

def wrap_programs(seed):
    """code that runs through the end of the segment into the PSP's INT 20, self-modifying code, RET to 0, POP CS style entry"""
    progs = []
    a = Asm(random.Random(seed))
    # POP the zero, write NOPs (or a split instruction) at FFFE.. and jump there
    a.e(0x58); a.movr(AX, 0x9040)
    a.e(0x2E, 0xA3, 0xFE, 0xFF)
    a.ew(0xE9, 0xFFFE - (a.here() + 3))
    progs.append(Prog(bytes(a.b), tag="wrap1"))
    a = Asm(random.Random(seed + 1))
    a.e(0xC3); progs.append(Prog(bytes(a.b), tag="ret0"))
    a = Asm(random.Random(seed + 2))
    a.e(0xCD, 0x20); progs.append(Prog(bytes(a.b), tag="int20"))
    a = Asm(random.Random(seed + 3))   # an instruction that replaces the next one
    a.e(0xC6, 0x06); a.b += w(a.here() + 3 + 0); a.e(0x41); a.e(0x90, 0x40, 0xC3)
    progs.append(Prog(bytes(a.b), tag="selfmod"))
    a = Asm(random.Random(seed + 4))
    a.ew(0xE9, 0); a.e(0xEB, 0xFE + 2); a.e(0xE8, 0, 0); a.e(0x58, 0xC3)
    progs.append(Prog(bytes(a.b), tag="callnext"))
    for ec in (0, 1, 127, 128, 255):
        a = Asm(random.Random(seed + 5)); a.ew(0xB8, 0x4C00 | ec); a.e(0xCD, 0x21); progs.append(Prog(bytes(a.b), tag="exit%d" % ec))
    # an instruction straddling the end of the segment: MOV AX,imm16 at FFFF with its operand in the PSP (CD 20)
    a = Asm(random.Random(seed + 6))
    a.e(0x58); a.e(0x2E, 0xC6, 0x06, 0xFF, 0xFF, 0xB8); a.e(0x2E, 0xC6, 0x06, 0x02, 0x00, 0xC3)
    a.e(0x50); a.movr(SP, 0x8000); a.movr(BX, 0); a.e(0x53)
    a.e(0x2E, 0xC6, 0x06, 0xFF, 0xFF, 0xB8)
    a.ew(0xE9, (0xFFFF - (a.here() + 3)) & 0xffff)
    progs.append(Prog(bytes(a.b), tag="straddle"))
    return progs
