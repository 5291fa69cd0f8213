"""Sources for the assembler checks.  What they mean is decided by spec/Asm.tla alone."""
import random
from asm import Case

R8 = "al cl dl bl ah ch dh bh".split()
R16 = "ax cx dx bx sp bp si di".split()
SEG = "es cs ss ds".split()
ALU = "add or adc sbb and sub xor cmp".split()
PLAIN = "cbw clc cli cmpsb cwd lodsb movsb rep ret stc sti stosb stosw".split()
ROT = "shl shr sar".split()
UN = "not neg mul imul div idiv".split()
JCC = "jo jno jc jnc jz jnz jna ja js jns jpe jpo jl jnl jng jg jb jnae jnb jae je jne jbe jnbe jnge jge jle jnle".split()
ALL = ALU + PLAIN + ROT + UN + JCC + "call dec inc int jmp lea mov pop push test xchg".split()
BASES = ["", "bx", "bp", "si", "di", "si+bx"]
DISPS = [None, 0, 1, 5, 127, 128, 129, 255, 256, 0x7fff, 0x8000, 0xff7f, 0xff80, 0xffff, -1, -2, -127, -128, -129, -0x8000]
IMM8 = [0, 1, 2, 127, 128, 129, 254, 255, -1, -2, -127, -128, 0xff80, 0xffff]
IMM16 = IMM8 + [256, 257, 0x7fff, 0x8000, 0x8001, 0xff7f, 0xfffe, -129, -256, -32767, -32768, 12345]

class G:
    def __init__(self, seed): self.r = random.Random(seed)
    def num(self, v):
        r = self.r; v = int(v)
        if v < 0: return "-" + self.num(-v)
        return r.choice(["%d", "%d", "0x%x", "0x%X", "0X%04x", "%03d" if v else "%d"]) % v
    def case(self, s):
        k = self.r.random()
        return s if k < .6 else s.upper() if k < .85 else "".join(c.upper() if self.r.random() < .5 else c for c in s)
    def expr(self, v):
        """text with the value v (modulo 65536)"""
        r = self.r; k = r.random()
        if k < .55: return self.num(v)
        if k < .57: return "+'%c'" % v if 64 < v < 256 and v != 127 else self.num(v)
        if k < .63: n = r.choice([1, 3, 256, 1000]); return self.num(v - n) + "+" + self.num(n) if v - n >= -32768 else self.num(v)
        if k < .71: n = r.choice([1, 3, 256, 1000]); return self.num(v + n) + " - " + self.num(n) if v + n < 65536 else self.num(v)
        if k < .79: return "~" + self.num((~v) & 0xffff)
        if k < .86:
            w = v & 0xffff; s = r.randint(0, 3)
            lo = w & ((1 << s) - 1)
            return ("%s<<%d|%d" % (self.num(w >> s), s, lo)) if r.random() < .5 or lo else "%s << %d" % (self.num(w >> s), s)
        if k < .92:
            w = v & 0xffff; m = r.getrandbits(16)
            return "%s|%s" % (self.num(w & m), self.num(w & ~m & 0xffff))
        if k < .96: return "- -" + self.num(v) if v >= 0 else self.num(v)
        w = v & 0xffff
        a, b = w & 255, w >> 8
        ok = lambda c: 32 <= c and c not in (39, 127)
        if ok(a) and b == 0: return "'%c'" % a
        if ok(a) and ok(b): return "'%c%c'" % (a, b)
        return self.num(v)
    def chain(self):
        """any expression of several operators; its value is the specification's business"""
        r = self.r; t = ""; sp = r.choice(["", " "])
        un = lambda: "".join(r.choice("-~+") + r.choice(["", " "]) for _ in range(r.choice([0, 0, 0, 1, 1, 2])))
        for i in range(r.randint(2, 6)):
            if i == 0: t = un() + self.num(abs(r.choice(IMM16)) if r.random() < .5 else r.randint(0, 65535))
            else:
                o = r.choice(["+", "-", "-", "|", "<<"])
                if r.random() < .08 and o != "<<": t += sp + o + sp + "'" + "".join(chr(r.choice([65, 0x20, 0x7e, 128, 200, 255])) for _ in range(r.randint(1, 2))) + "'"
                elif o == "<<": t += sp + o + sp + self.num(r.randint(0, 4))
                elif "<<" in t and t.rfind("<<") > t.rfind("|"): t += sp + r.choice(["+", "|"]) + sp + self.num(r.randint(0, 2))
                else: t += sp + o + sp + un() + self.num(r.choice([0, 1, 2, 3, 10, 255, 256, r.randint(0, 65535)]))
        return t
    def mem(self, size="", names=(), known=()):
        """an address; names: labels that may be used, known: constants"""
        r = self.r
        b = r.choice(BASES)
        d = r.choice(DISPS)
        parts = []
        if b: parts.append(("+", b))
        k = r.random()
        if names and k < .25: parts.append(("+", r.choice(names)))
        if known and .2 < k < .35: parts.append(("+-"[r.random() < .3], r.choice(known)))
        if d is not None and (k > .2 or not parts): parts.append(("-" if d < 0 else "+", self.num(abs(d))))
        if not parts: parts.append(("+", self.num(r.choice([0, 1, 0x80, 0x1234, 0xffff]))))
        if r.random() < .15: parts.append((r.choice("+-"), self.num(r.choice([0, 1, 2, 128, 0x8000]))))
        if b != "si+bx" and r.random() < .35:
            p = [x for x in parts]; r.shuffle(p)
            if p[0][0] == "+": parts = p
        sp = r.choice(["", "", " "])
        t = ""
        for i, (s, x) in enumerate(parts): t += (x if i == 0 else sp + s + sp + x)
        sg = self.case(r.choice(SEG)) + r.choice([":", ":", " : "]) if r.random() < .25 else ""
        return (self.case(size) + " " if size else "") + "[" + sp + sg + t + sp + "]"
    def reg(self, z): return self.case(self.r.choice(R8 if z == 1 else R16))
    def imm(self, z, names=(), known=()):
        r = self.r
        if z == 2 and names and r.random() < .2: return r.choice(names)
        if z == 2 and r.random() < .1: return self.chain()
        return self.expr(r.choice(IMM8 if z == 1 else IMM16))

def stmt(g, names, near=(), known=()):
    """a valid statement of the supported subset; near: labels within reach of a short jump"""
    r = g.r; z = r.choice([1, 2]); S = {1: "byte", 2: "word"}[z]
    M = lambda sz="": g.mem(sz, names, known)
    k = r.random()
    if k < .34:
        op = r.choice(ALU)
        f = r.randrange(6)
        if f == 0: return "%s %s, %s" % (op, g.reg(z), g.reg(z))
        if f == 1: return "%s %s, %s" % (op, g.reg(z), M(r.choice(["", "", S])))
        if f == 2: return "%s %s, %s" % (op, M(r.choice(["", "", S])), g.reg(z))
        if f < 5: return "%s %s, %s" % (op, g.reg(z), g.imm(z, names))
        return "%s %s, %s" % (op, M(S), g.imm(z, names))
    if k < .56:
        f = r.randrange(8)
        if f == 0: return "mov %s, %s" % (g.reg(z), g.reg(z))
        if f == 1: return "mov %s, %s" % (g.reg(z), M(r.choice(["", "", S])))
        if f == 2: return "mov %s, %s" % (M(r.choice(["", "", S])), g.reg(z))
        if f == 3: return "mov %s, %s" % (g.reg(z), g.imm(z, names))
        if f == 4: return "mov %s, %s" % (M(S), g.imm(z, names))
        sg = g.case(r.choice(["es", "ss", "ds"])); s2 = g.case(r.choice(SEG))
        if f == 5: return "mov %s, %s" % (sg, g.reg(2)) if r.random() < .5 else "mov %s, %s" % (g.reg(2), s2)
        if f == 6: return "mov %s, %s" % (sg, M(r.choice(["", "word"])))
        return "mov %s, %s" % (M(r.choice(["", "word"])), s2)
    if k < .60: return "%s %s, %s" % (r.choice(ROT), g.reg(z), r.choice(["1", "1", "CL", "cl", "0x1", "2-1"]))
    if k < .64: return "%s %s" % (r.choice(UN), g.reg(z))
    if k < .68: return "%s %s" % (r.choice(["inc", "dec"]), r.choice([g.reg(z), M(S)]))
    if k < .73: return "push %s" % r.choice([g.reg(2), g.case(r.choice(SEG)), M("word")])
    if k < .76: return "pop %s" % r.choice([g.reg(2), g.case(r.choice(["es", "ss", "ds"]))])
    if k < .80: return "test %s, %s" % (g.reg(z), g.imm(z, names)) if r.random() < .6 else "test %s, %s" % (M(S), g.imm(z, names))
    if k < .83: return "xchg %s, %s" % (g.case("ax"), g.reg(2)) if r.random() < .5 else "xchg %s, %s" % (g.reg(z), M(r.choice(["", S])))
    if k < .85: return "lea %s, %s" % (g.reg(2), M())
    if k < .87: return "int %s" % g.expr(r.choice([0, 1, 0x20, 0x21, 127, 128, 255]))
    if k < .90: return r.choice(PLAIN)
    if k < .92: return "call %s" % (g.reg(2) if r.random() < .4 or not names else r.choice(names))
    if near:
        if k < .97: return "%s %s%s" % (r.choice(JCC), r.choice(["", "", "short "]), r.choice(near))
        return "jmp %s%s" % (r.choice(["", "short "]), r.choice(near))
    if names and k < .95: return "jmp " + r.choice(names)
    return "mov %s, %s" % (g.reg(2), g.imm(2, names))

def layout(g, lines):
    """the lines with white space, comments and line ends"""
    r = g.r; o = ""
    crlf = r.random() < .2
    for l in lines:
        if r.random() < .15: o += r.choice(["", "; comment", "\t", "  ; it's 'quoted", ";", "\r"]) + ("\r\n" if crlf else "\n")
        k = l.split(" ", 1)
        if len(k) == 2 and k[0].isalpha(): l = g.case(k[0]) + r.choice([" ", " ", "\t", "   "]) + k[1]
        elif l.isalpha(): l = g.case(l)
        o += r.choice(["", " ", "\t", "        "]) + l + r.choice(["", "", "", " ", " ; c", "\t;x"])
        o += " " if r.random() < .04 and ";" not in l and not o.rstrip(" \t").endswith(("c", "x")) else ("\r\n" if crlf else "\n")
    return o

def program(g, body, org=None, tail=()):
    r = g.r
    pre = []
    if r.random() < .5: pre.append("cpu 8086")
    org = org if org is not None else r.choice([None, 0x100, 0x100, 0, 0x7c00, 0x1000])
    if org is not None: pre.append("org " + g.num(org))
    return layout(g, pre + list(body) + list(tail))

def exhaustive(g):
    """every register form once"""
    r = g.r; o = []
    for op in ALU + ["mov"]:
        for z, rs in ((1, R8), (2, R16)):
            for a in rs:
                for b in rs: o.append("%s %s, %s" % (op, a, b))
                for v in r.sample(IMM8 if z == 1 else IMM16, 6): o.append("%s %s, %s" % (op, a, g.num(v)))
    for s in SEG:
        for x in R16:
            if s != "cs": o.append("mov %s, %s" % (s, x))
            o.append("mov %s, %s" % (x, s))
        o.append("push " + s)
        if s != "cs": o.append("pop " + s)
    for x in R8 + R16:
        for op in UN + ["inc", "dec"]: o.append("%s %s" % (op, x))
        for op in ROT: o += ["%s %s, 1" % (op, x), "%s %s, cl" % (op, x)]
        o += ["test %s, %s" % (x, g.num(v)) for v in r.sample(IMM8, 3)]
    for x in R16: o += ["push " + x, "pop " + x, "xchg ax, " + x, "call " + x]
    o += PLAIN + ["int %d" % v for v in (0, 1, 32, 33, 128, 255)]
    return o

def exhaustive_mem(g):
    """every address form with every kind of instruction"""
    r = g.r; o = []
    for b in BASES:
        for d in DISPS:
            for sg in [""] + [s + ":" for s in SEG]:
                if sg and r.random() < .6: continue
                t = b if d is None else (b + "%+d" % d if b else "%d" % (d & 0xffff))
                if not t: continue
                m = "[" + sg + t + "]"
                z = r.choice([1, 2]); x = r.choice(R8 if z == 1 else R16); S = "byte" if z == 1 else "word"
                k = r.choice(["mov %s, %s" % (x, m), "mov %s, %s" % (m, x), "%s %s, %s" % (r.choice(ALU), x, m), "%s %s, %s" % (r.choice(ALU), m, x),
                              "mov %s %s, %d" % (S, m, r.choice(IMM8)), "%s %s %s, %d" % (r.choice(ALU), S, m, r.choice(IMM8 if z == 1 else IMM16)),
                              "inc %s %s" % (S, m), "push word " + m, "test %s %s, %d" % (S, m, r.choice(IMM8)), "lea %s, %s" % (r.choice(R16), m),
                              "xchg %s, %s" % (x, m), "mov es, " + m, "mov %s, ds" % m])
                o.append(k)
                o.append("mov %s, %s" % (r.choice(["al", "ax"]), m)); o.append("mov %s, %s" % (m, r.choice(["al", "ax", "ah", "cx"])))
    return o

def chunks(xs, n): return [xs[i:i + n] for i in range(0, len(xs), n)]

def a01(seed, n):
    cs = []
    g = G("a01/%d" % seed)
    for tag, xs in (("regs", exhaustive(g)), ("mems", exhaustive_mem(g))):
        g.r.shuffle(xs)
        for i, c in enumerate(chunks(xs, 60)): cs.append(Case(program(g, c), "%s:%d:%d" % (tag, seed, i)))
    for i in range(n):
        g = G("a01/%d/%d" % (seed, i)); r = g.r
        known = ["K%d" % j for j in range(3)]; pre = ["%s equ %s" % (k, g.expr(r.choice(IMM16))) for k in known]
        names = ["back", "fwd", "other_Label", "x$1"]
        body = pre + ["back:"]
        for j in range(r.randint(10, 45)):
            s = stmt(g, names, ["near%d" % (j // 6), "n.e%d" % (j // 6)], known)
            if j % 6 == 0: body.append("near%d:" % (j // 6))
            body.append(s)
            if j % 6 == 5: body.append("n.e%d:" % (j // 6))
        if not body[-1].startswith("n.e"): body.append("n.e%d:" % (j // 6))
        r2 = r.random()
        body += ["fwd: other_Label:", "x$1: ret"] if r2 < .5 else ["fwd equ %s" % g.expr(r.choice(IMM16)), "other_Label:", "ret", "x$1:"]
        cs.append(Case(program(g, body), "prog:%d:%d" % (seed, i)))
    return cs

# ---------------------------------------------------------------------------
FILL = [("nop", ["xchg ax, ax"], 1), ("b", ["clc"], 1), ("w", ["int 33"], 2), ("m", ["mov ax, 4660"], 3), ("i", ["mov word [4660], 22136"], 6)]

def filler(g, n):
    """statements that take n bytes"""
    r = g.r; o = []
    while n > 0:
        k = r.random()
        if n > 8 and k < .5:
            m = min(n, r.randint(2, 60)); m -= m % 2
            o.append("dw " + ", ".join(["1"] * (m // 2)) if r.random() < .4 else "db '%s'" % ("x" * m)); n -= m
        else:
            t = r.choice([f for f in FILL if f[2] <= n]); o.append(t[1][0]); n -= t[2]
    return o

def ref(g, name):
    r = g.r
    return r.choice(["dw %s", "dw 1, %s, 2", "mov ax, %s", "mov cx, [%s]", "mov [%s+2], dl", "add word [bx+%s], 3", "cmp si, %s", "call %s", "jmp %s",
                     "lea di, [%s+si]", "mov byte [es:%s], 1", "add [bp+%s], ax", "mov word [bx], %s", "mov ax, [%s]", "mov [%s], ax", "push word [%s]",
                     "xor bx, [di+%s-1]", "test word [%s], 5", "mov word [%s], 0x1234", "and byte [si+%s+300], 7", "mov cx, [2+%s]", "mov word [0x300+bx+%s-1], 6",
                     "add dl, [3+%s+si]", "mov [7-2+%s], al", "lea bx, [bp+4+%s]", "inc word [di+1+%s+2]", "mov ax, [5+%s]"]) % name

def a02(seed, n):
    cs = []
    for i in range(n):
        g = G("a02/%d/%d" % (seed, i)); r = g.r
        kind = i % 8
        if kind == 0:    # distances of short jumps, both directions, at the limits
            d = r.choice([126, 127, 128, 129, 125, 130, r.randint(0, 140), 0, 200])
            op = r.choice(JCC + ["jmp", "jmp short", "jmp short"])
            f = r.random() < .5
            if f:
                body = ["%s t" % op] + filler(g, d) + ["t: ret"]
                if d > 127 and op not in ("jmp", "jmp short"): body[0] = "jmp t"
            else: body = ["t:"] + filler(g, max(0, d - 2)) + ["%s t" % op, "ret"]
            cs.append(Case(program(g, body), "reach:%d:%d" % (seed, i)))
        elif kind == 1:  # local labels, reused under many global ones
            body = []; pend = []
            for k in range(r.randint(2, 12)):
                body.append("g%d:" % k)
                ls = r.sample([".a", ".b", ".loop", ".a1", "._"], r.randint(0, 4))
                ev = [("d", l) for l in ls] + [("r", r.choice(ls)) for _ in range(r.randint(0, 6)) if ls]
                r.shuffle(ev)
                for e, l in ev:
                    if e == "d": body.append(l + ":" if r.random() < .85 else "%s equ %s" % (l, g.expr(r.choice(IMM16))))
                    else: body.append(r.choice([ref(g, l), "j%s %s" % (r.choice(["z", "nz", "mp short"]), l)]) if ("equ" not in "".join(body[-9:])) else ref(g, l))
                if r.random() < .4: body.append(ref(g, "g%d" % r.randint(0, k + 1)))
                body += filler(g, r.randint(0, 9))
            body.append("g%d: ret" % (k + 1))
            cs.append(Case(program(g, body), "local:%d:%d" % (seed, i)))
        elif kind == 2:  # constants before and after use
            body = []; ks = ["C%d" % k for k in range(4)]; ev = [("d", k) for k in ks] + [("r", r.choice(ks)) for _ in range(14)]
            r.shuffle(ev)
            for e, k in ev: body.append("%s equ %s" % (k, g.expr(r.choice(IMM16))) if e == "d" else ref(g, k) if r.random() < .8 else "dw %s" % k)
            cs.append(Case(program(g, body + ["ret"]), "equ:%d:%d" % (seed, i)))
        elif kind == 3:  # large programs: many labels, far references
            body = []; m = r.randint(20, 80)
            for k in range(m):
                body.append("L%d:" % k)
                for _ in range(r.randint(1, 3)): body.append(ref(g, "L%d" % r.randrange(m)))
                body += filler(g, r.choice([0, 3, 20, 100]))
            cs.append(Case(program(g, body), "large:%d:%d" % (seed, i)))
        elif kind == 4:  # org in the middle, references across
            body = []
            for k in range(r.randint(2, 5)):
                body.append("o%d:" % k)
                body += [ref(g, "o%d" % r.randrange(6)) for _ in range(3)]
                body.append("org %s" % g.expr(r.choice([0, 0x100, 0x200, 0x7fff, 0x8000, 0xfff0, 0xffff, 1234])))
            body += ["o%d: ret" % q for q in range(k + 1, 6)]
            cs.append(Case(program(g, body), "org:%d:%d" % (seed, i)))
        elif kind == 5:  # reservations after the code
            body = [ref(g, r.choice(["b1", "b2", "b3", "c"])) for _ in range(6)] + ["c: ret", "b1: resb %s" % g.expr(r.choice([0, 1, 3, 100, 1000])),
                   "b2: resw %s" % g.expr(r.choice([0, 1, 2, 77, 1000])), "b3:"] + (["resb 5", "org 0x300", "b4:"] if r.random() < .3 else [])
            cs.append(Case(program(g, body), "bss:%d:%d" % (seed, i)))
        elif kind == 6:  # names that differ only in case, late, or in length; redefinitions
            base = "".join(r.choice("abcXYZ_$.9") for _ in range(r.choice([3, 14, 15, 16, 17, 18, 30, 40, 62])))
            base = "n" + base[1:]
            names = [base, base + "x", base + "y", base.upper() if base.upper() != base else base + "U", base[:-1] + "q", base[:-1]]
            names = [x for x in dict.fromkeys(names) if len(x) < 64]
            body = [ref(g, r.choice(names)) for _ in range(4)]
            for x in names: body += [x + ":", r.choice(["ret", ref(g, r.choice(names))])]
            if r.random() < .2: body.append(r.choice(names) + ":")
            cs.append(Case(program(g, body), "names:%d:%d" % (seed, i)))
        else:            # undefined or out of scope
            body = ["g0:", ".x:", ref(g, ".x"), "g1:", ref(g, r.choice([".x", "g0", "g2", ".y", "nowhere"]))] + filler(g, 5) + [r.choice([".y:", ".x:", ""]), "g2:", ref(g, r.choice([".y", ".x", "g1", "g2"])), r.choice(["", ".y: ret"])]
            cs.append(Case(program(g, [b for b in body if b]), "scope:%d:%d" % (seed, i)))
    return cs

# ---------------------------------------------------------------------------
def a03(seed, n):
    cs = []
    for i in range(n):
        g = G("a03/%d/%d" % (seed, i)); r = g.r
        body = []; names = ["d%d" % k for k in range(4)]; lab = list(names); r.shuffle(lab)
        known = []
        def string():
            m = r.choice([0, 1, 2, 3, 4, 7, 8, 30, 126, 127])
            return "'" + "".join(r.choice("abcXYZ ;,:[]+-019\"\\\t%~") if r.random() < .95 else chr(r.choice([200, 255, 128, 13, 1])) for _ in range(m)) + "'"
        for k in range(r.randint(3, 30)):
            x = r.random()
            if x < .35: body.append("db " + ", ".join(r.choice([lambda: g.expr(r.choice(IMM8)), string, lambda: g.num(r.choice(IMM8)), lambda: r.choice(known) if known else "1"])() for _ in range(r.choice([1, 1, 2, 5, 12]))))
            elif x < .65: body.append("dw " + ", ".join(r.choice([lambda: g.expr(r.choice(IMM16)), string, lambda: g.num(r.choice(IMM16)), g.chain, lambda: r.choice(names), lambda: r.choice(known) if known else "1"])() for _ in range(r.choice([1, 1, 2, 5, 12]))))
            elif x < .75: body.append("k%d equ %s" % (k, r.choice([g.expr(r.choice(IMM8)), g.chain() if r.random() < .3 else g.expr(r.choice(IMM8)) if not known else r.choice(known) + r.choice(["+1", "-1", "<<0", "|0"])])))
            elif x < .80 and lab: body.append(lab.pop() + ":")
            elif x < .84: body.append("org " + g.expr(r.choice([0x100, 0, 0x1234, 0xfffe])))
            elif x < .86: body.append("cpu 8086")
            else: body.append(stmt(g, names))
            if body[-1].startswith("k") and " equ " in body[-1] and r.random() < .95: known.append("k%d" % k)
        body += [l + ":" for l in lab]
        if r.random() < .3: body += ["resb " + g.num(r.choice([0, 1, 500])), "end_: resw 3"]
        cs.append(Case(program(g, body), "data:%d:%d" % (seed, i)))
        if i % 10 == 0:   # larger than the buffers
            body = []
            for k in range(r.randint(20, 60)):
                body.append("db '%s'" % ("".join(r.choice("abcdefgh;:") for _ in range(r.randint(1, 127)))))
                if r.random() < .3: body.append("dw " + ", ".join(g.num(r.choice(IMM16)) for _ in range(20)))
                if r.random() < .2: body.append("; " + "c" * r.randint(0, 600))
            cs.append(Case(program(g, body), "bulk:%d:%d" % (seed, i)))
    return cs

# ---------------------------------------------------------------------------
TOKS = "mov add ax al es [ ] , : + - | ~ << 5 0x10 300 -1 'a' 'abc' foo .foo byte word short db dw equ org resb jmp jz ret bx bp si cl cs 70000 0x 12ab @ \" % ( 'x push int xchg lea shl".split()

def toks(s):
    o = []; i = 0
    while i < len(s):
        c = s[i]
        if c in " \t\r\n": i += 1; continue
        if c == ";":
            while i < len(s) and s[i] != "\n": i += 1
            continue
        j = i + 1
        if c == "'":
            while j < len(s) and s[j] != "'": j += 1
            j += 1
        elif c.isalnum() or c in "_.$":
            while j < len(s) and (s[j].isalnum() or s[j] in "_.$"): j += 1
        elif s[i:i + 2] == "<<": j = i + 2
        o.append((i, j)); i = j
    return o

def mutate(g, s):
    r = g.r
    for _ in range(r.choice([1, 1, 1, 2])):
        t = toks(s)
        if not t: return s
        i, j = r.choice(t); k = r.randrange(9)
        if k == 0: s = s[:i] + s[j:]
        elif k == 1: s = s[:j] + " " + s[i:j] + s[j:]
        elif k == 2: s = s[:i] + r.choice(TOKS) + s[j:]
        elif k == 3: s = s[:i] + r.choice(TOKS) + " " + s[i:]
        elif k == 4: a, b = r.choice(t); s = s[:i] + s[a:b] + s[j:]
        elif k == 5: s = s[:r.randrange(len(s))]
        elif k == 6: p = r.randrange(len(s)); s = s[:p] + r.choice("@!\"'#%&()*/=?\\^`{}\x00\x80\xff;,:[]+-\n") + s[p:]
        elif k == 7: p = r.randrange(len(s)); s = s[:p] + s[p + 1:]
        else:
            ls = s.split("\n"); a = r.randrange(len(ls)); b = r.randrange(len(ls)); ls[a], ls[b] = ls[b], ls[a]; s = "\n".join(ls)
    return s

OPNDS = ["al", "cl", "bh", "ax", "cx", "sp", "si", "es", "cs", "ds", "0", "1", "5", "255", "256", "-128", "-129", "65535", "'a'", "'ab'", "'abc'", "''", "[bx]", "[5]", "byte [bx]", "word [si+2]",
         "[bx+si]", "[si+bx]", "[bx+bp]", "[ax]", "[si+di]", "[5-bx]", "[bx-lab]", "[lab+fwd]", "[fwd+lab]", "[lab+lab]", "[es:bx]", "[bx+es:5]", "[es:cs:bx]", "[es bx]", "[]", "[bx", "bx]", "[bx+]", "[-5]", "[bx*2]",
         "byte 5", "word ax", "short lab", "lab", "fwd", "nolab", "K", "k", ".loc", "-lab", "~5", "1<<16", "1<<15", "1<<-1", "5 5", "", ",", "byte", "eax", "5+", "+", "byte [K]", "[K]", "[k]", "word [es:fwd+bp]", "'unterminated", "70000", "0x10000", "0x", "1x", "09", "1.5"]

GRID = ["al", "bh", "ax", "sp", "di", "es", "cs", "ds", "0", "1", "127", "200", "256", "-129", "'a'", "'abc'", "[bx]", "[5]", "[si+bx]", "byte [si]", "word [6]", "byte [bp]", "word [di-300]", "byte 5", "[ax]", "lab", "fwd", "K"]
def grid(full):
    """every mnemonic with every kind of operand"""
    ops = OPNDS if full else GRID
    cs = []
    def add(s): cs.append(Case("K equ 7\nlab: %s\nfwd: ret\n" % s, "grid:" + s.replace(" ", "_")))
    two = (ALU if full else ["add"]) + ["mov", "test", "xchg", "lea"] + (ROT if full else ["shl"])
    for m in two:
        for a in ops:
            for b in ops: add("%s %s, %s" % (m, a, b))
    for m in ["cmp", "sar", "xor"] if not full else []:
        for a in ops: add("%s %s, %s" % (m, a, "cl")); add("%s %s, 200" % (m, a)); add("%s bl, %s" % (m, a))
    for m in UN + "call dec inc int jmp pop push jz jg rep db dw org resb resw cpu".split():
        for a in ops: add("%s %s" % (m, a))
    for m in "call jmp jnz".split():
        for a in ops: add("%s short %s" % (m, a))
    for m in ALL: add(m); add(m + " ax, bx, cx"); add(m + " ax bx")
    return cs

def a04(seed, n):
    cs = []
    for i in range(n):
        g = G("a04/%d/%d" % (seed, i)); r = g.r
        if i % 3 == 0:    # mutated programs
            src = r.choice([a01, a02, a03])
            c = r.choice(src(seed * 1000 + i, 8)[-8:])
            if len(c.src) > 1500: c = r.choice(a02(seed * 1000 + i, 3)[:2])
            cs.append(Case(mutate(g, c.src.decode("latin1")).encode("latin1"), "mut:%d:%d" % (seed, i)))
        elif i % 3 == 1:  # every mnemonic with every kind of operand
            op = r.choice(ALL + ["db", "dw", "org", "resb", "resw", "cpu", "nop", "equ", "xlat", "loop", "jmp", "mov"])
            m = 0 if op in PLAIN else 2 if op in ALU + ROT + ["mov", "test", "xchg", "lea"] else 1
            m = m if r.random() < .93 else r.randint(0, 3)
            s = op + " " + ", ".join(r.choice(OPNDS) for _ in range(m))
            body = ["K equ 7", "lab:", stmt(g, ["lab", "fwd"]), s, stmt(g, ["lab", "fwd"]), r.choice(["fwd:", "fwd equ 5", "fwd: ret"])]
            cs.append(Case(program(g, body), "form:%d:%d" % (seed, i)))
        else:             # one fault in a valid program
            body = ["K equ 7", "g0:", ".l:"] + [stmt(g, ["g0", "g1", ".l"]) for _ in range(r.randint(0, 8))] + ["g1:"] + [stmt(g, ["g0", "g1"]) for _ in range(r.randint(0, 8))]
            f = r.choice(["g0:", "g1:", "g1: g1:", "K:", "K equ 8", "g1 equ 4", "jmp nowhere", "dw nowhere", "mov ax, .l", "jz .l", ".l: dw .m", "mov al, 256", "mov al, -129", "db 256", "db -129", "db 1, 300, 2", "db g0",
                          "add bl, 0x100", "cmp byte [bx], 999", "mov byte [5], -200", "test cl, 400", "int 256", "int -1", "resb 1\nret", "resw 1\ndb 5", "resb -1", "resw 20000", "resb 40000",
                          "mov ds, es", "mov es, 5", "mov cs, al", "mov ax, bl", "xchg ax, bl", "xchg bx, cx", "shl ax, 2", "shl ax, cx", "sar al, 3", "shr [bx], 1", "push al", "push 5", "pop 5", "pop bl", "call al", "call es", "jmp ax",
                          "lea al, [bx]", "lea ax, bx", "lea es, [5]", "inc es", "dec [bx]", "not ds", "neg [bx]", "mul 5", "mov [bx], 5", "add [bx], [si]", "mov [1], [2]", "mov 5, ax", "add 5, 6", "test ax, bx", "mov ax", "mov", "mov ax bx", "mov ax,, bx",
                          "foo", "foo bar", "foo,", ": ret", "5", "'a'", "[bx]", "mov ax, [bx", "mov ax, bx]", "db", "db 1,", "dw ,1", "db 'abc", "equ 5", "x equ", "x equ y", "x equ g0", "org", "org g0", "cpu", "cpu 386", "cpu 8086 8086",
                          "jmp short $", "jz $", "mov ax, 1 << 16", "dw 1 << -1", "dw 65536", "dw 0xFFFFF", "dw 0x", "dw 12h", "dw 5 +", "dw 5 - -", "dw ~", "dw 'abc' + 1", "db ''", "dw ''", "mov ax, ''", "mov ax, 'abc'", "mov al, 'ab'",
                          "rep", "rep ret", "lock", "nop", "mov eax, 5", "mov ax, byte [bx]", "mov al, word [bx]", "mov byte [bx], ax", "mov es, byte [bx]", "add ax, byte [si]", "xchg al, word [bx]", "%define x 5", "#include", "db \"x\"",
                          "x" * 63 + ":", "x" * 64 + ":", "mov ax, " + "y" * 70, "db '%s'" % ("z" * 127), "db '%s'" % ("z" * 128), "dw '%s'" % ("z" * 200)])
            p = r.randint(0, len(body)); body[p:p] = f.split("\n")
            if f.startswith(("resb 1", "resw 1", "resb -", "resw 2", "resb 4")): body = body[:p + 2] if r.random() < .5 else body
            if r.random() < .2:    # far down the file
                pad = r.choice(["", "", "; comment", "  ", "ret", "db 1, 2"])
                n = r.choice([100, 118, 124, 127, 128, 200, 240, 250, 255, 256, 300, 500, 511, 512, 700, 1100])
                body[0:0] = [pad] * n
            cs.append(Case(program(g, body), "fault:%d:%d:%s" % (seed, i, f[:20].replace(" ", "_").replace("\n", ";"))))
    return cs
