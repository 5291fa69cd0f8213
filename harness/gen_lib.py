"""Calls of lib.h functions.  What they should do is decided by spec/Lib.tla alone; the object A has 256 bytes."""
import random
from lib import Case

INTS = [0, 1, -1, 2, 9, 10, 11, 15, 16, 17, 99, 100, 127, 128, 255, 256, 999, 1000, 4095, 4096, 9999, 10000, 32766, 32767, -2, -9, -10, -99, -100, -128, -129, -255, -256, -999, -9999, -10000, -32767, -32768, 0x1234, 0x7ABC, -0x5433]

class B:
    """a program being built; keeps what the strings in A are, so that calls stay defined"""
    def __init__(self, tag, seed):
        self.c = Case(tag); self.r = random.Random(seed); self.A = [(k * 5 + 1) % 256 for k in range(256)]
        self.c.steps += [{"f": "zero"}, {"f": "args"}]
        self.open = {}; self.files = {}
    def setwords(self, ws):
        self.c.words = ws
        b = b"".join((w if isinstance(w, bytes) else w.encode("latin1")) + b"\0" for w in ws for w in (w.split() if isinstance(w, bytes) else w.encode("latin1").split()))
        self.A[:len(b)] = b
    def emit(self, code, **s): self.c.c.append(code); self.c.steps.append(s)
    def void(self, code, **s): self.emit("%s; dump(0);" % code, **s)
    def val(self, code, **s): self.emit("dump(%s);" % code, **s)
    def text(self, n=None, hi=False):
        r = self.r; n = r.choice([0, 1, 2, 3, 7, 15, 16, 17, 40]) if n is None else n
        return bytes(r.choice(range(1, 256)) if hi else r.choice(b"abcXYZ 0129%-_\n\t\\\"'") for _ in range(n))
    def strat(self, o):
        e = o
        while e < 256 and self.A[e]: e += 1
        return bytes(self.A[o:e]) if e < 256 else None
    def src(self, maxlen=60, hi=True, avoid=None):
        """a string argument: (C text, spec record, bytes)"""
        r = self.r
        if r.random() < .3:
            for _ in range(20):
                o = r.randrange(256); s = self.strat(o)
                if s is not None and len(s) <= maxlen and (avoid is None or o + len(s) + 1 <= avoid[0] or o >= avoid[1]): return "A+%d" % o, {"k": "m", "o": o}, s
        s = self.text(r.choice([0, 1, 2, 3, 5, 8, 15, 30, maxlen]) if maxlen > 8 else r.randint(0, maxlen), hi and r.random() < .5)
        return self.c.put(s), {"k": "b", "b": list(s)}, s
    def store(self, o, b): self.A[o:o + len(b)] = list(b)

def fmt(b, maxout):
    """(format, C arguments, spec arguments, at most this much output)"""
    r = b.r; f = b""; ca = []; sa = []; n = 0
    for _ in range(r.randint(1, 5)):
        k = r.random()
        if k < .25: t = b.text(r.randint(0, 6)).replace(b"%", b""); f += t; n += len(t)
        elif len(ca) >= 5: continue
        elif k < .55:
            plus = r.random() < .2; w = r.choice([0, 0, 0, 1, 2, 3, 5, 6, 7, 8, 9, 12, 20]); z = w and r.random() < .4
            f += b"%" + (b"+" if plus else b"") + (b"0" if z else b"") + (b"%d" % w if w else b"") + b"d"
            v = r.choice(INTS) if r.random() < .7 else r.randint(-32768, 32767); ca.append(str(v) if v != -32768 else "-32767-1"); sa.append({"k": "i", "v": v % 65536}); n += max(w, 6)
        elif k < .75:
            w = r.choice([0, 0, 1, 2, 3, 4, 4, 5, 8, 15]); z = w and r.random() < .7
            f += b"%" + (b"0" if z else b"") + (b"%d" % w if w else b"") + r.choice([b"x", b"X"])
            v = r.choice(INTS) if r.random() < .7 else r.randint(-32768, 32767); ca.append(str(v) if v != -32768 else "-32767-1"); sa.append({"k": "i", "v": v % 65536}); n += max(w, 4)
        elif k < .83:
            w = r.choice([0, 0, 0, 1, 2, 5]); v = r.choice([1, 10, 32, 65, 127, 128, 255, r.randint(1, 255)])
            f += b"%" + (b"%d" % w if w else b"") + b"c"; ca.append(str(v)); sa.append({"k": "i", "v": v}); n += max(w, 1)
        elif k < .95:
            w = r.choice([0, 0, 0, 1, 3, 10, 20]); c, s, t = b.src(20, avoid=b.avoid)
            f += b"%" + (b"%d" % w if w else b"") + b"s"; ca.append(c); sa.append(s); n += max(w, len(t))
        else: f += b"%%"; n += 1
    if n > maxout: return fmt(b, maxout)
    return f, ca, sa, n

def call(b, kinds):
    r = b.r; k = r.choice(kinds); b.avoid = None
    if k == "memcpy":
        n = r.choice([0, 1, 2, 3, 7, 16, 50, 100, r.randint(0, 120)])
        d = r.randint(0, 256 - n)
        if r.random() < .6:
            for _ in range(50):
                s = r.randint(0, 256 - n)
                if s + n <= d or d + n <= s: break
            else: return
            b.void("memcpy(A+%d, A+%d, %d)" % (d, s, n), f="memcpy", d=d, s={"k": "m", "o": s}, n=n); b.store(d, b.A[s:s + n])
        else:
            t = bytes(r.choice(range(1, 256)) for _ in range(n)); b.void("memcpy(A+%d, %s, %d)" % (d, b.c.put(t), n), f="memcpy", d=d, s={"k": "b", "b": list(t)}, n=n); b.store(d, t)
    elif k == "memset":
        n = r.choice([0, 1, 2, 3, 50, 255, 256, r.randint(0, 256)]); d = r.randint(0, 256 - n); v = r.choice([0, 0, 1, 65, 127, 128, 255, 256, -1, 300, r.randint(-300, 300)])
        b.void("memset(A+%d, %d, %d)" % (d, v, n), f="memset", d=d, v=v % 65536, n=n); b.store(d, [v % 256] * n)
    elif k == "strcpy":
        c, s, t = b.src(100)
        d = r.randint(0, 255 - len(t))
        if s["k"] == "m" and not (s["o"] + len(t) < d or d + len(t) < s["o"]): return
        b.void("strcpy(A+%d, %s)" % (d, c), f="strcpy", d=d, s=s); b.store(d, t + b"\0")
    elif k == "strlen":
        c, s, t = b.src(200); b.val("strlen(%s)" % c, f="strlen", s=s)
    elif k == "strcmp":
        c, s, t = b.src(40)
        q = r.random()
        if q < .25: t2 = t
        elif q < .7 and t:
            p = r.randrange(len(t)); t2 = bytearray(t)
            t2[p] = r.choice([(t2[p] + x) % 256 for x in (1, 255, 127, 128, 129, r.randrange(256))]) or 1; t2 = bytes(t2) + r.choice([b"", b"x"])
        else: t2 = t[:r.randint(0, len(t))] + r.choice([b"", b"\x01", b"\x80", b"\xff", b"a"])
        d = b.c.put(t2); a = [(c, s), (d, {"k": "b", "b": list(t2)})]; r.shuffle(a)
        b.val("strcmp(%s, %s)" % (a[0][0], a[1][0]), f="strcmp", s=a[0][1], t=a[1][1])
    elif k == "sprintf":
        d = r.randint(0, 200); m = r.randint(1, 255 - d); b.avoid = (d, d + m + 1)
        try: f, ca, sa, n = fmt(b, m)
        except RecursionError: return
        b.void("sprintf(%s)" % ", ".join(["A+%d" % d, b.c.put(f)] + ca), f="sprintf", d=d, s={"k": "b", "b": list(f)}, **{"as": sa})
        out = render(f, sa, b); b.store(d, out + b"\0")
    elif k == "printf":
        f, ca, sa, n = fmt(b, 400); b.void("printf(%s)" % ", ".join([b.c.put(f)] + ca), f="printf", s={"k": "b", "b": list(f)}, **{"as": sa})
    elif k == "puts":
        c, s, t = b.src(100); b.void("puts(%s)" % c, f="puts", s=s)
    elif k == "putchar":
        v = r.choice([10, 65, 13, 9, 128, 255, 1, 0, 0x141, -1, 26]); b.void("putchar(%d)" % v, f="putchar", v=v % 65536)
    elif k == "far":
        o = r.randrange(256)
        if r.random() < .5: b.val("FarPeek(GetDS(), A+%d)" % o, f="farpeek", d=o)
        else: v = r.choice([0, 1, 255, 256, -1, 0x1234]); b.void("FarPoke(GetDS(), A+%d, %d)" % (o, v), f="farpoke", d=o, v=v % 65536); b.store(o, [v % 256])
    elif k == "file":
        free = [x for x in range(4) if x not in b.open]; q = r.random()
        if free and (q < .3 or not b.open):
            x = r.choice(free); n = r.choice(["F_A", "F_B.TXT", "F_C", "F_NONE", "F_D"])
            if any(o[0] == n and (o[1] == "w") for o in b.open.values()): return
            if r.random() < .45:
                if any(o[0] == n for o in b.open.values()): return
                b.val("H[%d] = open(%s, O_WRONLY|O_CREAT|O_TRUNC|O_BINARY%s)" % (x, b.c.put(n.encode()), r.choice(["", ", 420"])), f="creat", name=n, n=x); b.open[x] = (n, "w"); b.files[n] = b""
            else:
                b.val("H[%d] = open(%s, O_RDONLY|O_BINARY)" % (x, b.c.put(n.encode())), f="open", name=n, n=x)
                if n in b.files: b.open[x] = (n, "r", 0)
        elif q < .45 and b.open:
            x = r.choice(list(b.open)); del b.open[x]; b.void("close(H[%d]); H[%d] = 77" % (x, x), f="close", n=x)
        elif b.open or q < .8:
            x = r.choice(list(b.open)) if b.open and r.random() < .93 else None
            if x is None:
                if not free: return
                x = r.choice(free); n = r.randint(1, 10)
                if r.random() < .5: b.val("H[%d] = 77; R = read(H[%d], A+3, %d)" % (x, x, n), f="read", n=x, d=3, v=n); b.c.c[-1] = "H[%d] = 77; dump(read(H[%d], A+3, %d));" % (x, x, n)
                else: b.c.c.append("H[%d] = 77; dump(write(H[%d], A+3, %d));" % (x, x, n)); b.c.steps.append(dict(f="write", n=x, s={"k": "m", "o": 3}, v=n))
                return
            o = b.open[x]
            if o[1] == "w":
                n = r.choice([1, 2, 100, 200, r.randint(1, 200)])
                if r.random() < .5: p = r.randint(0, 256 - n); c = "A+%d" % p; s = {"k": "m", "o": p}; t = bytes(b.A[p:p + n])
                else: t = bytes(r.randrange(1, 256) for _ in range(n)); c = b.c.put(t); s = {"k": "b", "b": list(t)}
                b.val("write(H[%d], %s, %d)" % (x, c, n), f="write", n=x, s=s, v=n); b.files[o[0]] += t
            else:
                n = r.choice([1, 2, 100, 256, r.randint(1, 256)]); d = r.randint(0, 256 - n)
                b.val("read(H[%d], A+%d, %d)" % (x, d, n), f="read", n=x, d=d, v=n)
                t = b.files[o[0]][o[2]:o[2] + n]; b.store(d, t); b.open[x] = (o[0], "r", o[2] + len(t))
        else:
            t = b.text(5); 
            if t: b.val("write(1, %s, %d)" % (b.c.put(t), len(t)), f="out", s={"k": "b", "b": list(t)}, v=len(t))

def render(f, sa, b):
    """a plain rendering, only to keep track of what strings A holds (the specification decides)"""
    o = b""; p = 0; sa = list(sa)
    while p < len(f):
        if f[p] != 37: o += f[p:p + 1]; p += 1; continue
        q = p + 1
        while f[q:q + 1] in b"+0123456789" and q < len(f): q += 1
        c = f[q:q + 1]; spec = f[p:q + 1].decode("latin1"); p = q + 1
        if c == b"%": o += b"%"; continue
        a = sa.pop(0)
        if c == b"s": t = bytes(a["b"]) if a["k"] == "b" else b.strat(a["o"]); o += (spec[:-1].encode("latin1") + b"s") % t
        elif c == b"c": w = int(spec[1:-1] or 0); o += b" " * (w - 1) + bytes([a["v"] & 255])
        else: v = a["v"]; v = v - 65536 if c == b"d" and v >= 32768 else v; o += (spec % v).encode()
    return o

KINDS = {"mem": ["memcpy", "memset", "strcpy", "strlen", "strcmp", "far"], "fmt": ["sprintf", "sprintf", "sprintf", "strcpy", "memset"], "con": ["printf", "puts", "putchar", "sprintf"],
         "file": ["file", "file", "file", "file", "memset", "memcpy"], "mix": ["memcpy", "memset", "strcpy", "strlen", "strcmp", "sprintf", "printf", "puts", "putchar", "file", "far"]}

def words(r):
    k = r.random()
    if k < .25: return []
    n = r.choice([1, 2, 3, 5, 15, 16, 17, 18, 19, 30, 60])
    ws = []; tot = 0
    for _ in range(n):
        w = "".join(r.choice("abcXYZ019-_=/.%") for _ in range(r.choice([1, 1, 1, 2, 3, 8, 20]) if n < 10 else 1 if n > 20 else r.choice([1, 2])))
        if r.random() < .1: w = w.encode() + bytes([r.randrange(128, 256)]) + b"z"
        if tot + len(w) + 1 > 120: break
        tot += len(w) + 1; ws.append(w)
    return ws

def programs(seed, n):
    cs = []
    ks = list(KINDS)
    for i in range(n):
        k = ks[i % len(ks)]
        b = B("%s:%d:%d" % (k, seed, i), "lib/%d/%d" % (seed, i)); r = b.r
        b.setwords(words(r))
        if k in ("file", "mix"):
            for nm in r.sample(["F_A", "F_B.TXT", "F_C"], r.randint(0, 3)):
                t = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 10, 255, 600]))); b.c.before.append((nm, t)); b.files[nm] = t
        for _ in range(r.randint(8, 40)): call(b, KINDS[k])
        q = r.random(); b.c.code = r.choice([0, 1, 2, 127, 128, 255, 256, 257, -1, 0x1234])
        if q < .3: b.c.how = "exit"; b.c.end = "exit(%d);" % b.c.code
        elif q < .4: b.c.how = "assert"; b.c.end = "assert(%s);" % r.choice(["0", "A == 0", "strlen(A) < 0"])
        elif q < .6: b.c.end = "assert(%s);" % r.choice(["1", "A", "256", "-1"])
        b.c.code %= 65536
        if b.c.end and b.c.how == "exit": b.c.end = "exit(%d);" % (b.c.code if b.c.code < 32768 else b.c.code - 65536)
        cs.append(b.c)
    # output longer than any buffer, numbers of every width
    b = B("long", "x"); b.setwords([])
    s = bytes(97 + i % 26 for i in range(700)); b.void("printf(%s, %s, 5)" % (b.c.put(b"<%s|%d>"), b.c.put(s)), f="printf", s={"k": "b", "b": list(b"<%s|%d>")}, **{"as": [{"k": "b", "b": list(s)}, {"k": "i", "v": 5}]})
    b.void("puts(%s)" % b.c.put(s), f="puts", s={"k": "b", "b": list(s)}); b.val("strlen(%s)" % b.c.put(s), f="strlen", s={"k": "b", "b": list(s)})
    cs.append(b.c)
    for t in range(3):
        b = B("num%d" % t, "x"); b.setwords([])
        for v in INTS:
            f = [[b"%d|%7d|%07d|%+d", b"%+6d|%03d|%1d|%06d"], [b"%x|%X|%04X|%2x", b"%4X|%08x|%01X|%5x"], [b"%02X%02x|%d", b"%d,%d,%d,%d"]][t][v & 1]
            m = 3 if f.count(b"%") == 3 else 4
            b.void("sprintf(A+%d, %s%s)" % (v & 63, b.c.put(f), (", %s" % (v if v != -32768 else "-32767-1")) * m), f="sprintf", d=v & 63, s={"k": "b", "b": list(f)}, **{"as": [{"k": "i", "v": v % 65536}] * m})
        cs.append(b.c)
    return cs
