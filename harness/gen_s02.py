"""Programs for S02 and S03: sequences of DOS calls on files, handles, the console, and the PSP."""
import random
from s86 import Prog
from gen_s01 import Asm, w, AX, CX, DX, BX, SP, BP, SI, DI, ES, CS, SS, DS, pack
import gen_s01

class D(Asm):
    """an assembler with data behind the code; refs are patched at the end"""
    def __init__(self, rng):
        super().__init__(rng); self.data = bytearray(); self.fix = []; self.names = {}
    def lit(self, b):
        b = bytes(b)
        if b not in self.names: self.names[b] = len(self.data); self.data += b
        return self.names[b]
    def space(self, n): o = len(self.data); self.data += bytes(n); return o
    def ref(self, r, off): self.e(0xB8 + r); self.fix.append((len(self.b), off)); self.b += w(0)   # MOV r,data address
    def memref(self, *op): 
        off = op[-1]; self.e(*op[:-1]); self.fix.append((len(self.b), off)); self.b += w(0)
    def done(self):
        base = 0x100 + len(self.b)
        for pos, off in self.fix: self.b[pos:pos + 2] = w(base + off)
        return bytes(self.b + self.data)
    def jz(self): self.e(0x74, 0); return len(self.b)
    def here_jz(self, at): self.b[at - 1] = len(self.b) - at
    def int21(self, ah): self.e(0xB4, ah, 0xCD, 0x21)
    def exit(self, ec): self.ew(0xB8, 0x4C00 | ec); self.e(0xCD, 0x21)
    def putc(self, ch): self.e(0xB2, ch); self.int21(2)
    def say(self, off, n): self.movr(BX, 1); self.movr(CX, n); self.ref(DX, off); self.int21(0x40)

NAMES = ["a", "B.DAT", "file.txt", "x" * 40, "q1", "q2", "q3", "LONGER~1.TXT"]

def script(seed, i, modes=False):
    r = random.Random("s02/%d/%d" % (seed, i))
    a = D(r)
    files = {}
    for n in r.sample(NAMES, r.randrange(3)):
        files[n] = bytes(r.randrange(97, 123) for _ in range(r.choice([0, 1, 5, 100, 511, 512, 513, 1100])))
    exist = set(files); slots = [a.space(2) for _ in range(5)]; state = [None] * 5
    src = a.lit(bytes(r.randrange(97, 123) for _ in range(700)))
    buf = a.space(1400)
    open_w = set()
    buflen = 0
    for k in range(r.randrange(12, 40)):
        s = r.randrange(5); c = r.random()
        st = state[s]
        if c < .25 and st is None:
            # create or open
            n = r.choice(NAMES); create = r.random() < .5
            busy = {x[0] for x in state if x}
            if create and n in busy: continue
            if create: exist.add(n)
            a.ref(DX, a.lit(n.encode() + b"\0")); a.movr(CX, 0)
            if create: a.int21(0x3C); state[s] = (n, True)
            else:
                a.ew(0xB8, 0x3D00); a.e(0xCD, 0x21)
                if n in exist: state[s] = (n, False)
                else: a.ew(0xB8, 20000 + r.randrange(100))
            a.memref(0xA3, slots[s])
        elif c < .32:
            # failures: a directory or a file that does not exist
            bad = r.choice([b"nodir/x\0", b"nodir/y.z\0"]) if r.random() < .6 else r.choice([b"missing\0", b"no.txt\0"])
            a.ref(DX, a.lit(bad)); a.movr(CX, 0)
            if bad.startswith(b"nodir"): a.e(0xB4, r.choice([0x3C, 0x3D]), 0xB0, 0, 0xCD, 0x21)
            else: a.ew(0xB8, 0x3D00); a.e(0xCD, 0x21)
        elif c < .45:
            a.putc(r.choice([65, 66, 48, 32, 10, 13, 126, 0x80, 0xff, 46, 40]))
        elif c < .52:
            a.say(src + r.randrange(100), r.choice([1, 2, 10, 60]))
        elif c < .6:
            a.memref(0x8B, 0x1E, slots[s])
            if st is None: a.movr(BX, 20000 + r.randrange(1000))
            a.int21(0x3E); state[s] = None
        elif c < .8:
            n = r.choice([1, 2, 5, 100, 511, 512, 513, 600])
            a.memref(0x8B, 0x1E, slots[s])
            if st is None: a.movr(BX, 20000 + r.randrange(1000))
            a.movr(CX, n); a.ref(DX, src + r.randrange(700 - n) if n < 700 else src)
            a.int21(0x40)
        else:
            n = r.choice([0, 1, 2, 5, 100, 511, 512, 513, 600, 1300])
            a.memref(0x8B, 0x1E, slots[s])
            if st is None: a.movr(BX, 20000 + r.randrange(1000))
            off = r.choice([0, 1, 50, 100]); buflen = max(buflen, min(1400, off + n))
            a.movr(CX, n); a.ref(DX, buf + off if off + n <= 1400 else buf)
            a.int21(0x3F)
    # what was read goes to a file of its own
    a.ref(DX, a.lit(b"READ\0")); a.movr(CX, 0); a.int21(0x3C)
    a.e(0x89, 0xC3); a.movr(CX, 1400); a.ref(DX, buf); a.int21(0x40)
    a.exit(r.choice([0, 0, 1, 2, 127, 128, 255]))
    img = a.done()
    stdin = b""
    return Prog(img, files=files, dos=True, tag="script%d" % i, nodirs=["nodir/x", "nodir/y.z"], modes=modes, names=modes,
                syms=[("main", 0x100), ("mid", 0x100 + len(img) // 3), ("_tail", 0x100 + len(img) // 2), ("_EBSS", 0x100 + len(img))] if modes else ())

def otherseg(seed, i, segs=(0x5000, 0x3456, 0x9fff, 0x1000)):
    """names and buffers in another segment; reads and writes of exact and partial sizes at the end of a file"""
    r = random.Random("s02seg/%d/%d" % (seed, i))
    a = D(r)
    seg = r.choice(segs)
    size = r.choice([0, 1, 127, 128, 129, 300])
    files = {"IN": bytes(r.randrange(97, 123) for _ in range(size))}
    a.sreg(DS, seg)
    o1 = r.choice([0, 0x10, 0x8000, 0xff00]); o2 = r.choice([0x1000, 0x7f00, 0xc000])
    for k, b in enumerate(b"IN\0OUT\0"): a.e(0xC6, 0x06); a.b += w(o1 + k) + bytes([b])
    a.movr(DX, o1); a.ew(0xB8, 0x3D00); a.e(0xCD, 0x21, 0x89, 0xC6)          # SI = handle
    a.movr(DX, o1 + 3); a.movr(CX, 0); a.int21(0x3C); a.e(0x89, 0xC7)        # DI = handle
    chunk = r.choice([1, 64, 127, 128, 200, 400])
    k = size // chunk + 3 if chunk > 1 else 5
    for q in range(min(k, 6)):
        a.e(0x89, 0xF3); a.movr(CX, chunk); a.movr(DX, o2); a.int21(0x3F)
        # write back what was read, unless nothing was
        a.e(0x89, 0xC1, 0x09, 0xC9)
        at = a.jz(); a.e(0x89, 0xFB); a.movr(DX, o2); a.int21(0x40); a.here_jz(at)
    a.e(0x89, 0xFB); a.int21(0x3E); a.e(0x89, 0xF3); a.int21(0x3E)
    a.e(0x89, 0xF3); a.int21(0x3E)          # closing twice fails
    a.e(0x89, 0xF3); a.movr(CX, 1); a.movr(DX, 0x200); a.int21(0x3F)      # and so does reading a closed handle
    a.exit(r.randrange(256))
    return Prog(a.done(), files=files, dos=True, tag="seg%d" % i)

def args_programs(seed):
    """PSP and command tail, as data and on the console"""
    progs = []
    r = random.Random("s02args/%d" % seed)
    argl = [[], ["a"], ["a", "b"], ["file.c", "out.com"], ["-v"], ["x" * 125], ["x" * 126], ["y" * 60, "z" * 65], ["y" * 60, "z" * 66], ["x" * 127], ["q"] * 63, ["q"] * 64, ["w" * 200],
            ["a b"], ["-p", "-v", "1"], ["".join(chr(r.randrange(33, 127)) for _ in range(r.randrange(1, 20))) for _ in range(4)]]
    for k, args in enumerate(argl):
        a = D(random.Random(seed * 100 + k))
        for lo, n in ((0, 4), (0x80, 128)): a.movr(BX, 1); a.movr(CX, n); a.movr(DX, lo); a.int21(0x40)
        a.e(0xA0, 0x80, 0x00)          # MOV AL,[80]
        a.e(0x31, 0xDB, 0x8A, 0x1E, 0x80, 0x00, 0x8A, 0x97, 0x81, 0x00)     # terminator
        a.int21(2)
        a.e(0xC3)                       # the word 0 on the stack returns to INT 20
        progs.append(Prog(a.done(), args=args, dos=True, tag="args%d" % k))
    return progs

def stdin_programs(seed):
    progs = []
    for k, (data, chunk) in enumerate([(b"", 5), (b"hello\n", 100), (b"hello world\n", 4), (bytes(range(97, 123)) * 8, 64)]):
        a = D(random.Random(k))
        b = a.space(128)
        for q in range(6):
            a.movr(BX, 0); a.movr(CX, chunk); a.ref(DX, b); a.int21(0x3F)
            a.e(0x89, 0xC1, 0x09, 0xC9); at = a.jz(); a.movr(BX, 1); a.ref(DX, b); a.int21(0x40); a.here_jz(at)
        a.exit(0)
        progs.append(Prog(a.done(), dos=True, tag="stdin%d" % k, stdin=data))
    return progs

def handles_programs(seed):
    """many handles at once, the same file opened twice, reopening after writing"""
    progs = []
    for k in range(3):
        r = random.Random("s02h/%d/%d" % (seed, k))
        a = D(r)
        slots = [a.space(2) for _ in range(12)]
        buf = a.space(64); src = a.lit(bytes(range(97, 97 + 26)) * 3)
        n = 8 + 2 * k
        for q in range(n):
            a.ref(DX, a.lit(b"f%d\0" % q)); a.movr(CX, 0); a.int21(0x3C); a.memref(0xA3, slots[q])
        order = [r.randrange(n) for _ in range(20)]
        for q in order:
            a.memref(0x8B, 0x1E, slots[q]); a.movr(CX, r.choice([1, 3, 7])); a.ref(DX, src + q); a.int21(0x40)
        for q in range(n): a.memref(0x8B, 0x1E, slots[q]); a.int21(0x3E)
        # reopen one file twice and read alternately
        q = order[0]
        for s in (0, 1): a.ref(DX, a.lit(b"f%d\0" % q)); a.ew(0xB8, 0x3D00); a.e(0xCD, 0x21); a.memref(0xA3, slots[s])
        for s in (0, 1, 1, 0, 0, 1):
            a.memref(0x8B, 0x1E, slots[s]); a.movr(CX, 2); a.ref(DX, buf); a.int21(0x3F); a.say(buf, 4)
        # overwriting an existing file empties it
        a.memref(0x8B, 0x1E, slots[0]); a.int21(0x3E); a.memref(0x8B, 0x1E, slots[1]); a.int21(0x3E)
        a.ref(DX, a.lit(b"f%d\0" % order[1])); a.movr(CX, 0); a.int21(0x3C); a.e(0x89, 0xC3); a.movr(CX, 2); a.ref(DX, src + 9); a.int21(0x40)
        a.exit(k)
        progs.append(Prog(a.done(), dos=True, tag="handles%d" % k))
    return progs
