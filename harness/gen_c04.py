"""Program families for C04 (objects, layout, pointer arithmetic)."""
import random
from cast import *

I = ident
SC = [INT, INT, UINT, CHAR, UCHAR, CHAR]
VALS = [0, 1, 2, 7, 65, 100, 127, 128, 200, 255, 256, 511, 1000, 32767, -1, -2, -100, -128, -32768, 0x1234, -12345]

def fits(t, v):
    v &= 65535
    s = (v ^ 0x8000) - 0x8000
    if t == CHAR: return ((v & 255) ^ 128) - 128
    if t == UCHAR: return v & 255
    return s

class Objects:
    def __init__(self, rng):
        self.r = rng
        self.p = Prog(); self.p.memsz = 2600
        self.structs = []          # (name, union, members)
        self.slots = 0             # array declarations in use at file scope
        self.mems = 0
        self.size = {}
        self.hasptr = {}
        self.uid = 0
    def new(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)
    # ---- types ---------------------------------------------------------------
    def sizeof(self, t):
        if t[0] in ("char", "uchar"): return 1
        if t[0] == "arr": return t[2] * self.sizeof(t[1])
        if t[0] == "tag": return self.size[t[1]]
        return 2
    def dims(self, t):
        n = 0
        while t[0] == "arr": n += 1; t = t[1]
        return n
    def rtype(self, d, ptrs=True, maxsize=120):
        r = self.r
        for _ in range(40):
            c = r.randrange(10)
            if d <= 0 or c < 4: return r.choice(SC)
            if c == 4 and ptrs: return ptr(r.choice(SC + [tag(s[0]) for s in self.structs] + [ptr(INT), ptr(CHAR)]))
            if c < 7 and self.structs: t = tag(r.choice(self.structs)[0])
            else:
                base = self.rtype(d - 1, ptrs)
                if base[0] == "arr" and self.dims(base) >= 3: continue
                t = arr(base, r.choice([1, 2, 2, 3, 4, 5, 8]))
            if self.sizeof(t) <= maxsize: return t
        return INT
    def make_structs(self):
        r = self.r
        for i in range(r.choice([1, 2, 3, 4])):
            u = r.random() < .3
            n = "#%s %s" % ("union" if u else "struct", "TUVWXY"[i])
            ms = []
            size = 0; hp = False
            for j in range(r.choice([1, 2, 3, 3, 4, 5])):
                if self.mems >= 26: break
                t = self.rtype(2, not u, 40)
                if not u and r.random() < .12: t = ptr(tag(n))
                k = self.dims(t)
                if self.slots + k > 14: t = r.choice(SC); k = 0
                self.slots += k; self.mems += 1
                ms.append(("m%d" % j if r.random() < .5 else "abcdefg"[j], t))
                s = self.sizeof(t); size = max(size, s) if u else size + s
                if self.withptr(t): hp = True
            if size > 70 or not ms: 
                ms = [("a", CHAR), ("b", INT)]; size = 2 if u else 3; hp = False
            self.size[n] = size; self.hasptr[n] = hp
            self.structs.append((n, u, ms))
            self.p.add(struct(n, ms, u))
    def withptr(self, t):
        if t[0] == "ptr": return True
        if t[0] == "arr": return self.withptr(t[1])
        if t[0] == "tag": return self.hasptr.get(t[1], True)
        return False
    def members(self, t):
        return [s for s in self.structs if s[0] == t[1]][0]
    # ---- paths -----------------------------------------------------------------
    def leaf_paths(self, t, path=(), firstonly=True):
        """all scalar leaves of type t as (path, type); of a union only the first member"""
        if t[0] == "arr":
            for i in range(t[2]): yield from self.leaf_paths(t[1], path + (("i", i, t),))
        elif t[0] == "tag":
            n, u, ms = self.members(t)
            for j, (m, mt) in enumerate(ms):
                if u and j > 0: break
                yield from self.leaf_paths(mt, path + (("m", m, t),))
        else: yield path, t
    def index(self, i):
        r = self.r
        if r.random() < .6: return num(i)
        if r.random() < .5 and i < 4: return I("k%d" % i)
        return bin_("+", I("k1"), num(i - 1)) if r.random() < .5 else bin_("-", I("k3"), num(3 - i))
    def access(self, e, path):
        r = self.r
        for kind, x, t in path:
            if kind == "i":
                c = r.randrange(6)
                if c < 4: e = idx(e, self.index(x))
                elif c == 4: e = un("*", bin_("+", e, self.index(x)))
                else: e = un("*", bin_("+", self.index(x), e)) if r.random() < .5 else idx(bin_("+", e, num(x)), num(0))
            else:
                c = r.randrange(6)
                if e["k"] == "un" and e["op"] == "*" and r.random() < .6: e = arrow(e["e"], x)
                elif c < 4: e = mem(e, x)
                elif c == 4: e = arrow(un("&", e), x)
                else: e = mem(un("*", un("&", e)), x)
        return e
    def root(self, o):
        """an expression denoting object o = (name, type, pointer name or None)"""
        n, t, p = o
        if p and self.r.random() < .5:
            return self.r.choice([lambda: un("*", I(p)), lambda: idx(I(p), num(0)), lambda: un("*", bin_("-", bin_("+", I(p), num(1)), num(1)))])()
        return I(n)
    def leaf(self, o, path):
        return self.access(self.root(o), path)
    # ---- functions ---------------------------------------------------------------
    def decl_object(self, o, how):
        n, t, p = o
        ss = []
        if how == "local": ss.append(decl(n, t))
        elif how == "static": ss.append(decl(n, t, static=True))
        return ss
    def pointer(self, o):
        n, t, p = o
        if not p: return []
        if t[0] == "arr":
            return [decl(p, ptr(t[1]), I(n) if self.r.random() < .5 else un("&", idx(I(n), num(0))))]
        return [decl(p, ptr(t), un("&", I(n)))]
    def func(self, n, objs, nops):
        """objs: global objects usable in the function"""
        r = self.r
        ss = [decl("k%d" % i, r.choice([INT, INT, UINT, CHAR]), num(i)) for i in range(4)]
        loc = []
        nslots = 0
        for j in range(r.choice([2, 3, 4])):
            t = self.rtype(3, True, 60)
            if nslots + self.dims(t) > 6: t = r.choice(SC)
            nslots += self.dims(t)
            st = r.random() < .2
            nm = self.new("s" if st else "o")
            # pointer to the whole object only for non arrays (no pointers to arrays)
            pn = self.new("p") if t[0] != "arr" and r.random() < .5 else None
            o = (nm, t, pn)
            ss.append(decl(nm, t, static=st)); ss += self.pointer(o)
            loc.append(o)
        allo = loc + objs
        cells = []       # (object, path, type)
        for o in allo:
            for pth, t in self.leaf_paths(o[1]): cells.append((o, pth, t))
        r.shuffle(cells)
        cells = cells[:46]
        pool = [c for c in cells if c[2][0] != "ptr"]
        # targets for pointers: cells of that exact type
        init = set()
        def setcell(c):
            o, pth, t = c
            if t[0] == "ptr":
                tt = t[1]
                cand = [x for x in pool if x[2] == tt and id(x) in init] if tt[0] != "tag" else [(x, (), x[1]) for x in allo if x[1] == tt]
                if tt[0] == "ptr": cand = [x for x in cells if x[2] == tt and id(x) in init]
                if not cand: return [es(asg("", self.leaf(o, pth), num(0)))], None
                c2 = r.choice(cand)
                return [es(asg("", self.leaf(o, pth), un("&", self.leaf(c2[0], c2[1]))))], c2
            return [es(asg("", self.leaf(o, pth), num(fits(t, r.choice(VALS)))))], None
        points = {}
        for c in cells:
            s, tgt = setcell(c)
            ss += s; init.add(id(c)); points[id(c)] = tgt
        def observe(c):
            o, pth, t = c
            e = self.leaf(o, pth)
            if t[0] == "ptr":
                tgt = points.get(id(c))
                if tgt is None: return [obs(bin_("==", e, num(0)))] if r.random() < .5 else [obs(un("!", e))]
                if t[1][0] in ("int", "uint", "char", "uchar"): return [obs(un("*", e) if r.random() < .5 else idx(e, num(0)))]
                return [obs(bin_("==", e, un("&", self.leaf(tgt[0], tgt[1]))))]
            return [obs(e)]
        ints = [c for c in cells if c[2][0] != "ptr"]
        for _ in range(nops):
            c = r.randrange(12)
            if c < 4 and ints:
                x = r.choice(ints)
                ss.append(es(asg("", self.leaf(x[0], x[1]), num(fits(x[2], r.choice(VALS))) if r.random() < .5 else self.rv(ints))))
            elif c == 4 and ints:
                x = r.choice(ints)
                ss.append(es(asg(r.choice("+-^|&"), self.leaf(x[0], x[1]), bin_("+", self.rv(ints), num(1)))))
            elif c == 5 and ints:
                x = r.choice(ints)
                ss.append(obs(inc(r.choice([1, -1]), r.random() < .5, self.leaf(x[0], x[1]))))
            elif c == 6:
                # store through a stored pointer
                pc = [x for x in cells if x[2][0] == "ptr" and x[2][1][0] in ("int", "uint", "char", "uchar") and points.get(id(x))]
                if pc:
                    x = r.choice(pc); ss.append(es(asg("", un("*", self.leaf(x[0], x[1])), num(fits(x[2][1], r.choice(VALS))))))
            elif c == 7:
                # struct assignment between sub-objects of the same type
                subs = self.subobjects(allo)
                by = {}
                for s in subs: by.setdefault(s[2][1], []).append(s)
                g = [v for v in by.values() if len(v) > 1]
                if g:
                    a, b = r.sample(r.choice(g), 2)
                    if not self.overlap(a, b):
                        ss.append(es(asg("", self.leaf(a[0], a[1]), self.leaf(b[0], b[1]))))
                        # pointers in the copied object now equal those of the source
                        for x in cells:
                            if x[2][0] == "ptr" and x[0] is a[0] and x[1][:len(a[1])] == a[1]:
                                src = [y for y in cells if y[0] is b[0] and y[1] == b[1] + x[1][len(a[1]):]]
                                points[id(x)] = points.get(id(src[0])) if src else "?"
                        cells = [x for x in cells if points.get(id(x)) != "?"]
                        ints = [x for x in cells if x[2][0] != "ptr"]
            elif c == 8: ss += self.sizes(allo)
            elif c == 9: ss += self.pointers(allo)
            elif c == 10: ss += self.walk(allo)
            else: ss += self.offsets(allo)
            for x in r.sample(cells, min(3, len(cells))): ss += observe(x)
        for x in cells: ss += observe(x)
        self.p.func(n, INT, [], block(*ss, ret(num(0))))
    def rv(self, ints):
        x = self.r.choice(ints)
        return self.leaf(x[0], x[1])
    def subobjects(self, objs):
        """struct sub-objects: (object, path, type)"""
        out = []
        def go(o, t, path):
            if t[0] == "arr":
                for i in range(t[2]): go(o, t[1], path + (("i", i, t),))
            elif t[0] == "tag":
                out.append((o, path, t))
                n, u, ms = self.members(t)
                for j, (m, mt) in enumerate(ms):
                    if u and j: break
                    go(o, mt, path + (("m", m, t),))
        for o in objs: go(o, o[1], ())
        return out
    def overlap(self, a, b):
        return a[0] is b[0] and (a[1][:len(b[1])] == b[1] or b[1][:len(a[1])] == a[1])
    def sizes(self, objs):
        r = self.r
        o = r.choice(objs)
        e = I(o[0]); t = o[1]; out = [obs(sizee(e))]
        while t[0] in ("arr", "tag") and r.random() < .8:
            if t[0] == "arr": e = idx(e, num(0)); t = t[1]
            else:
                n, u, ms = self.members(t)
                m, t = r.choice(ms); e = mem(e, m)
            if t[0] in ("int", "uint", "arr", "tag", "ptr", "char", "uchar"): out.append(obs(sizee(e)))
        out.append(obs(sizet(r.choice([INT, CHAR, UCHAR, UINT, ptr(CHAR), ptr(ptr(INT))] + [tag(s[0]) for s in self.structs] + [ptr(tag(s[0])) for s in self.structs]))))
        if r.random() < .3: out.append(obs(bin_("/", sizee(I(o[0])), sizee(idx(I(o[0]), num(0))))) if o[1][0] == "arr" else obs(bin_("*", sizee(I(o[0])), num(3))))
        return out
    def cp(self, e):
        return castx(ptr(CHAR), e)
    def offsets(self, objs):
        """byte offsets of sub-objects inside their object"""
        r = self.r
        o = r.choice(objs)
        paths = [p for p, t in self.leaf_paths(o[1])]
        p1 = r.choice(paths); p2 = r.choice(paths)
        a = lambda p: self.cp(un("&", self.leaf(o, p)))
        out = [obs(bin_("-", a(p1), a(p2)))]
        if o[1][0] == "tag" : out.append(obs(bin_("-", a(p1), self.cp(un("&", self.root(o))))))
        # members of unions all start at the beginning
        for n, u, ms in self.structs:
            subs = [s for s in self.subobjects([o]) if s[2][1] == n]
            if subs:
                s = r.choice(subs); m, mt = r.choice(ms)
                if mt[0] != "arr":
                    out.append(obs(bin_("-", self.cp(un("&", mem(self.leaf(s[0], s[1]), m))), self.cp(un("&", self.leaf(s[0], s[1]))))))
                else: out.append(obs(bin_("-", self.cp(mem(self.leaf(s[0], s[1]), m)), self.cp(un("&", self.leaf(s[0], s[1]))))))
        if r.random() < .5: out.append(obs(bin_(r.choice(["<", "<=", ">", ">=", "==", "!="]), a(p1), a(p2))))
        return out
    def arrays(self, objs):
        out = []
        def go(o, t, path):
            if t[0] == "arr":
                if t[1][0] != "arr": out.append((o, path, t))
                for i in range(t[2]): go(o, t[1], path + (("i", i, t),))
            elif t[0] == "tag":
                n, u, ms = self.members(t)
                for j, (m, mt) in enumerate(ms):
                    if u and j: break
                    go(o, mt, path + (("m", m, t),))
        for o in objs: go(o, o[1], ())
        return out
    def pointers(self, objs):
        r = self.r
        A = self.arrays(objs)
        if not A: return []
        o, path, t = r.choice(A)
        n = t[2]; et = t[1]
        p, q = self.new("p"), self.new("p")
        i, j = r.randrange(n + 1), r.randrange(n + 1)
        base = lambda: self.leaf(o, path)
        out = [decl(p, ptr(et), r.choice([lambda: bin_("+", base(), num(i)), lambda: un("&", idx(base(), num(i)))])()), decl(q, ptr(et), bin_("+", base(), self.index(j)))]
        out += [obs(bin_("-", I(p), I(q))), obs(bin_(r.choice(["<", "<=", ">", ">=", "==", "!="]), I(p), I(q))), obs(bin_("-", I(q), base()))]
        k = r.randint(-j, n - j)
        out += [es(asg("+", I(q), num(k) if r.random() < .5 else bin_("+", I("k0"), num(k)))), obs(bin_("-", I(q), base()))]
        if i > 0:
            out.append(obs(bin_("==", inc(-1, r.random() < .5, I(p)), bin_("+", base(), num(i))))); out.append(obs(bin_("-", I(p), base())))
            out.append(es(asg("-", I(p), bin_("-", I("k1"), num(1))))); out.append(obs(bin_("-", I(p), base())))
        else:
            out.append(obs(bin_("==", inc(1, r.random() < .5, I(p)), base()))); out.append(obs(bin_("-", I(p), base())))
        return [block(*out)]
    def walk(self, objs):
        """fill or sum an array with a moving pointer"""
        r = self.r
        A = [a for a in self.arrays(objs) if a[2][1][0] in ("int", "uint", "char", "uchar")]
        if not A: return []
        o, path, t = r.choice(A)
        n = t[2]; et = t[1]
        p = self.new("p"); i = self.new("i"); base = lambda: self.leaf(o, path)
        c = r.randrange(4)
        if c == 0:
            return [block(decl(p, ptr(et), base()), decl(i, INT, num(r.randrange(-3, 60))), while_(bin_("!=", I(p), bin_("+", base(), num(n))), es(asg("", un("*", inc(1, False, I(p))), inc(1, False, I(i)))))),
                    ] + [obs(idx(base(), num(x))) for x in range(n)]
        if c == 1:
            return [block(decl(p, ptr(et), base()), decl(i, INT), for_(asg("", I(i), num(0)), bin_("<", I(i), num(n)), inc(1, True, I(i)), es(asg("", idx(I(p), I(i)), bin_("*", I(i), num(r.choice([3, 7, 11]))))))) ] + [obs(idx(base(), num(x))) for x in range(n)]
        if c == 2:
            return [block(decl(p, ptr(et), bin_("+", base(), num(n))), decl(i, INT, num(n)), while_(inc(-1, False, I(i)), es(asg("", un("*", inc(-1, True, I(p))), bin_("+", I(i), num(40)))))) ] + [obs(idx(base(), num(x))) for x in range(n)]
        return [block(decl(p, ptr(et), base()), for_(None, bin_("<", I(p), un("&", idx(base(), num(n)))), asg("+", I(p), num(1)), es(asg("", un("*", I(p)), num(fits(et, r.choice(VALS)))))))] + [obs(idx(base(), num(x))) for x in range(n)]

def initial(p, r, k):
    """globals with initialisers, mixed with ones without: (decl items, observing statements)"""
    items = []; ob = []
    for j in range(k):
        n = "h%d" % j
        c = r.randrange(6)
        if c == 0:
            s = bytes(r.choice([65, 66, 10, 92, 34, 39, 9, 200, 1, 255, 48, 97, 32]) for _ in range(r.randrange(0, 9)))
            t = r.choice([CHAR, UCHAR])
            items.append(gvar(n, arr(t, 0), s=list(s) + [0]))
            items[-1]["t"] = arr(t, 0)
            ob += [obs(idx(I(n), num(x))) for x in range(len(s) + 1)] + [obs(sizee(I(n)))]
        elif c < 4:
            t = r.choice(SC)
            v = fits(t, r.choice(VALS))
            e = num(v) if r.random() < .6 else r.choice([bin_("+", num(v - 3 if v > -32000 else v), num(3 if v > -32000 else 0)), un("-", num(-v)) if v not in (-32768,) else num(v)])
            items.append(gvar(n, t, e)); ob.append(obs(I(n)))
        else:
            t = r.choice([INT, CHAR, UINT, arr(INT, 2), arr(CHAR, 3), ptr(INT)])
            items.append(gvar(n, t))
            if t[0] == "arr": ob += [obs(idx(I(n), num(x))) for x in range(t[2])]
            elif t[0] == "ptr": ob.append(obs(un("!", I(n))))
            else: ob.append(obs(I(n)))
    return items, ob

def family_random(seed, count, nops=10):
    progs = []
    for i in range(count):
        r = random.Random("c04/%d/%d" % (seed, i))
        w = Objects(r)
        items, ob = initial(w.p, r, r.randrange(0, 7))
        w.p.add(*items)
        w.slots += sum(1 for x in items if x["t"][0] == "arr")
        w.make_structs()
        objs = []
        for j in range(r.choice([1, 2, 3, 4])):
            t = w.rtype(3, True, 60)
            if w.slots + w.dims(t) > 20: t = INT
            w.slots += w.dims(t)
            n = "g%d" % j
            w.p.add(gvar(n, t)); objs.append((n, t, None))
        names = []
        for f in range(r.choice([1, 2])):
            n = "t%d" % f; names.append(n)
            w.func(n, objs, nops)
        calls = [obs(call(n)) for n in names]
        if r.random() < .5: calls += [obs(call(names[0]))]
        w.p.func("main", INT, [], block(*ob, *calls, *ob, ret(num(0))))
        progs.append(w.p)
    return progs

def family_strings(seed, count):
    """string literals, character pointers, static locals"""
    progs = []
    for i in range(count):
        r = random.Random("c04s/%d/%d" % (seed, i))
        p = Prog(); p.memsz = 900
        ss = []
        lits = []
        for j in range(r.choice([1, 2, 3, 4])):
            b = bytes(r.choice(b"abcXYZ 0189_\n\t\"\\'%/*+?#\x80\xff\x01") for _ in range(r.choice([0, 1, 2, 5, 9, 20])))
            lits.append((p.lit(b), b))
        p.func("len", INT, [("s", ptr(CHAR))], block(decl("n", INT, num(0)), while_(un("*", inc(1, False, I("s"))), es(inc(1, True, I("n")))), ret(I("n"))))
        p.func("sum", UINT, [("s", ptr(UCHAR)), ("k", UINT)], block(decl("n", UINT, I("k")), while_(un("*", I("s")), es(asg("", I("n"), bin_("+", bin_("*", I("n"), num(31)), un("*", inc(1, False, I("s"))))))), ret(I("n"))))
        p.func("cnt", INT, [("d", INT)], block(decl("c", INT, static=True), decl("q", arr(CHAR, 5), static=True), es(asg("+", I("c"), I("d"))), es(inc(1, True, idx(I("q"), bin_("&", I("d"), num(3))))), ret(bin_("+", bin_("*", I("c"), num(16)), idx(I("q"), num(1))))))
        p.func("cnt2", INT, [("d", INT)], block(if_(I("d"), block(decl("c", CHAR, static=True), ret(asg("+", I("c"), num(3)))), block(decl("c", INT, static=True), ret(asg("-", I("c"), num(2))))), ret(num(0))))
        main = ss
        for l, b in lits:
            ss = []
            v = "v%d" % len(main)
            ss += [obs(call("len", l)), decl(v, ptr(CHAR), l), obs(call("sum", I(v), num(r.randrange(9)))), obs(idx(l, num(len(b)))) ]
            if b: ss += [obs(idx(I(v), num(r.randrange(len(b))))), obs(un("*", l)), obs(un("*", bin_("+", l, num(r.randrange(len(b)))))), obs(un("*", inc(1, True, I(v)))), obs(un("*", cond(call("len", l), l, I(v))))]
            ss += [obs(sizee(l)), obs(call("cnt", num(r.randrange(5)))), obs(call("cnt2", num(r.randrange(2))))]
            if r.random() < .5: ss.append(block(decl("w", ptr(CHAR), l), obs(call("len", I("w"))), obs(bin_("-", bin_("+", I("w"), num(len(b))), I("w")))))
            main.append(block(*ss))
        ss = main
        p.func("main", INT, [], block(*ss, obs(call("cnt", num(1))), ret(call("len", lits[0][0]))))
        progs.append(p)
    return progs


EDGE = [1, 2, 3, 4, 5, 13, 14, 29, 30, 31, 60, 61, 62, 63, 64, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 190, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300]
BIG = [1023, 1024, 2047, 2100, 511, 1500, 4095, 4096, 700, 2048]
def family_big(seed, count):
    """the same with objects of thousands of bytes"""
    return family_edges(seed + 7000, count, BIG[seed % len(BIG):] + BIG[:seed % len(BIG)])

def family_edges(seed, count, sizes=None):
    """members and elements at every offset around the displacement and immediate boundaries, seen through names, pointers and bytes"""
    I = ident
    progs = []
    for i in range(count):
        r = random.Random("c04e/%d/%d" % (seed, i))
        n = sizes[i % len(sizes)] if sizes else EDGE[(i + seed) % len(EDGE)] if i < len(EDGE) else r.randrange(1, 300)
        p = Prog(); p.memsz = 12 * n + 1400
        T = tag("#struct S")
        ms = [("p", arr(CHAR, n)), ("c", CHAR), ("i", INT), ("u", UCHAR), ("z", arr(INT, 3)), ("d", CHAR)]
        if r.random() < .4: ms = [("e", CHAR), ("q", CHAR), ("i", INT), ("p", arr(CHAR, n)), ("u", UCHAR), ("c", CHAR), ("z", arr(INT, 3)), ("d", CHAR)]
        offs = {}; o = 0
        for a, t in ms:
            offs[a] = o
            o += {"char": 1, "uchar": 1, "int": 2}.get(t[0], 0) or t[2] * (1 if t[1] == CHAR else 2)
        p.add(struct("#struct S", ms), gvar("ga", arr(T, 2)), gvar("gs", T), gvar("gp", ptr(T)), gvar("gc", arr(CHAR, n + 3)), gvar("gi", arr(INT, 3)))
        names = []
        for f in range(2):
            body = [decl("k", INT, num(1))]
            if r.random() < .5: body.append(decl("x", INT, num(7)))
            body += [decl("ls", T)]
            if r.random() < .5: body.append(decl("y", INT, num(8)))
            else: body.append(decl("y", CHAR, num(8)))
            body += [decl("la", arr(T, 2)), decl("m", INT, num(9)), decl("lp", ptr(T), un("&", I(r.choice(["ls", "gs"])))), decl("bp", ptr(UCHAR)), decl("lc", arr(CHAR, n + 1)), decl("w", INT, num(4))]
            body.append(es(asg("", I("gp"), bin_("+", I(r.choice(["ga", "la"])), num(0)))))
            roots = [("ls", lambda: I("ls")), ("gs", lambda: I("gs")), ("ga0", lambda: idx(I("ga"), num(0))), ("ga1", lambda: idx(I("ga"), num(1))), ("gak", lambda: idx(I("ga"), I("k"))),
                     ("la1", lambda: idx(I("la"), num(1))), ("lak", lambda: idx(I("la"), I("k"))), ("lp", lambda: un("*", I("lp"))), ("gp1", lambda: un("*", bin_("+", I("gp"), num(1)))),
                     ("gp0", lambda: un("*", I("gp")))]
            def acc(rt, m):
                if m == "z": return idx(mem(rt, "z"), r.choice([num(2), I("k")]))
                if m == "p": return idx(mem(rt, "p"), num(r.choice([0, n - 1])))
                return mem(rt, m)
            for j in range(16):
                rn, mk = r.choice(roots)
                m = r.choice([a for a, _ in ms])
                v = r.randrange(1, 120) if m in ("p", "c", "d", "e", "q", "u") else r.choice([0x1234, 30000, -5, 300, 77])
                lv = acc(mk(), m)
                c = r.randrange(8)
                body.append(es(asg("", lv, num(v))))
                if c == 0 and m not in ("p", "z"):   # through bytes
                    body += [es(asg("", I("bp"), castx(ptr(UCHAR), un("&", mk())))), obs(idx(I("bp"), num(offs[m])))]
                elif c == 1 and m not in ("p", "z"):
                    body += [es(asg("", I("bp"), castx(ptr(UCHAR), un("&", mk())))), es(asg("", idx(I("bp"), num(offs[m])), num(33))), obs(lv)]
                elif c == 2: body += [es(asg(r.choice("+-^"), lv, num(r.choice([1, 3])))), obs(lv)]
                elif c == 3: body += [es(inc(r.choice([1, -1]), r.random() < .5, lv)), obs(lv)]
                elif c == 4: body += [obs(bin_("-", castx(ptr(CHAR), un("&", lv)), castx(ptr(CHAR), un("&", mk()))))]
                elif c == 5: body += [obs(lv), obs(bin_("+", lv, I("y")))]
                elif c == 6: body += [es(asg("", I("lp"), un("&", mk()))), obs(arrow(I("lp"), m) if m not in ("p", "z") else sizee(arrow(I("lp"), m)))]
                else: body += [es(asg("", un("*", un("&", lv)), num(5))), obs(lv)]
            # steps over elements of this size
            body += [es(asg("", I("lp"), I("la"))), es(inc(1, r.random() < .5, I("lp"))), obs(bin_("-", castx(ptr(CHAR), I("lp")), castx(ptr(CHAR), I("la")))),
                     obs(bin_("-", I("lp"), I("la"))), es(asg("+", I("lp"), num(1))), es(asg("-", I("lp"), I("k"))), es(inc(-1, False, I("lp"))), obs(bin_("==", I("lp"), I("la"))),
                     obs(bin_("-", castx(ptr(CHAR), bin_("+", I("lp"), I("k"))), castx(ptr(CHAR), I("lp"))))]
            # struct copies in all storages
            a, b = r.sample([x for x in roots if x[0] not in ("lp", "gp1", "gp0", "gak", "lak")], 2)
            body += [es(asg("", mem(a[1](), "d"), num(61))), es(asg("", mem(a[1](), "c"), num(62))), es(asg("", idx(mem(a[1](), "p"), num(n - 1)), num(63))), es(asg("", b[1](), a[1]())),
                     obs(mem(b[1](), "d")), obs(mem(b[1](), "c")), obs(idx(mem(b[1](), "p"), num(n - 1)))]
            body += [es(asg("", idx(I("gc"), num(n)), num(5))), es(asg("", idx(I("lc"), num(n)), num(6))), es(asg("", idx(I("gc"), bin_("+", I("k"), num(n))), num(7))),
                     obs(idx(I("gc"), num(n))), obs(idx(I("lc"), num(n))), obs(idx(I("gc"), num(n + 1))), obs(idx(bin_("+", I("lc"), num(n)), num(0)))]
            body += [obs(I("y")), obs(I("m")), obs(I("w")), obs(I("k")), obs(sizee(I("ls"))), obs(sizee(I("la")))]
            p.func("t%d" % f, VOID, [], block(*body)); names.append("t%d" % f)
        p.func("main", INT, [], block(*[es(call(x)) for x in names], ret(num(0))))
        progs.append(p)
    return progs


def family_unions(seed, count):
    """unions as large as their largest member, at every size, among other objects"""
    I = ident
    progs = []
    for i in range(count):
        r = random.Random("c04u/%d/%d" % (seed, i))
        n = EDGE[(i * 7 + seed) % len(EDGE)] if i % 5 else BIG[(i // 5 + seed) % len(BIG)]
        p = Prog(); p.memsz = 16 * n + 1400
        k = max(1, n // 2 + r.choice([-1, 0, 1]))
        m2 = max(1, n + r.choice([-4, -3, -2, -1, 1]))
        p.add(struct("#struct S", [("a", CHAR), ("b", arr(CHAR, m2)), ("e", INT)]))
        pool = [("p", arr(CHAR, n)), ("q", arr(INT, k)), ("s", tag("#struct S")), ("i", INT), ("c", CHAR), ("g", ptr(INT))]
        ms = r.sample(pool, r.choice([2, 3, 4, 6]))
        if not any(a in "pqs" for a, _ in ms): ms[r.randrange(len(ms))] = r.choice(pool[:3])
        size = {"p": n, "q": 2 * k, "s": m2 + 3, "i": 2, "c": 1, "g": 2}
        U = tag("#union U"); W = tag("#struct W")
        p.add(struct("#union U", ms, True), struct("#struct W", [("h", INT), ("u", U), ("t", INT), ("v", arr(U, 2)), ("z", CHAR)]))
        p.add(gvar("g1", INT), gvar("gu", U), gvar("g2", INT), gvar("gw", W), gvar("g3", INT))
        body = [decl("x", INT, num(7)), decl("lu", U), decl("y", INT, num(8)), decl("lw", W), decl("m", INT, num(1)), decl("up", ptr(U), un("&", I("lu"))), decl("w", CHAR, num(9))]
        body += [es(asg("", I("g1"), num(11))), es(asg("", I("g2"), num(12))), es(asg("", I("g3"), num(13)))]
        for v in ("gw", "lw"): body += [es(asg("", mem(I(v), "h"), num(21))), es(asg("", mem(I(v), "t"), num(22))), es(asg("", mem(I(v), "z"), num(23)))]
        roots = [lambda: I("lu"), lambda: I("gu"), lambda: mem(I("gw"), "u"), lambda: mem(I("lw"), "u"), lambda: idx(mem(I("gw"), "v"), num(1)), lambda: idx(mem(I("lw"), "v"), I("m")),
                 lambda: un("*", I("up")), lambda: idx(mem(I("lw"), "v"), num(0))]
        def last(rt, a):
            return idx(mem(rt, "p"), num(n - 1)) if a == "p" else idx(mem(rt, "q"), num(k - 1)) if a == "q" else mem(mem(rt, "s"), "e") if a == "s" else mem(rt, a)
        big = [a for a, _ in ms if a != "g"]
        for j in range(12):
            rt = r.choice(roots); a = r.choice(big)
            body.append(es(asg("", last(rt(), a), num(r.randrange(1, 120)))))
            c = r.randrange(4)
            if c == 0: body.append(obs(last(rt(), a)))
            elif c == 1: body += [es(asg("", r.choice([I("x"), I("y"), I("g2"), mem(I("lw"), "t"), mem(I("gw"), "t")]), num(r.randrange(300)))), obs(last(rt(), a))]
            elif c == 2: body.append(obs(bin_("-", castx(ptr(CHAR), un("&", last(rt(), a))), castx(ptr(CHAR), un("&", rt())))))
            else: body.append(es(asg("+", last(rt(), a), num(1))))
        body += [obs(I(x)) for x in ("x", "y", "m", "w", "g1", "g2", "g3")]
        for v in ("gw", "lw"):
            body += [obs(mem(I(v), a)) for a in ("h", "t", "z")]
            body += [obs(sizee(I(v))), obs(sizee(mem(I(v), "u"))), obs(bin_("-", castx(ptr(CHAR), un("&", mem(I(v), "t"))), castx(ptr(CHAR), un("&", mem(I(v), "u")))))]
        body += [obs(sizee(I("lu"))), es(inc(1, True, I("up"))), obs(bin_("-", castx(ptr(CHAR), I("up")), castx(ptr(CHAR), un("&", I("lu"))))), ret(num(0))]
        p.func("main", INT, [], block(*body))
        progs.append(p)
    return progs


def family_frames(seed, part, parts, lo=100, hi=136):
    """char and int members at every frame offset around BP-128, even and odd, written by name and read as bytes and the other way round"""
    I = ident
    combos = [(a, lay) for a in range(lo, hi) for lay in range(2)]
    random.Random("c04f%d" % seed).shuffle(combos)
    combos = combos[part::parts]
    progs = []
    for s in range(0, len(combos), 8):
        r = random.Random("c04f/%d/%d/%d" % (seed, part, s))
        p = Prog(); p.memsz = 1500
        ms = [[("a", CHAR), ("b", CHAR), ("i", INT), ("u", UCHAR), ("j", UINT), ("c", CHAR), ("z", arr(CHAR, 4)), ("d", CHAR)],
              [("i", INT), ("a", CHAR), ("j", UINT), ("b", UCHAR), ("z", arr(INT, 2)), ("c", CHAR), ("k", INT)]]
        for n in range(2): p.add(struct("#struct S%d" % n, ms[n]))
        names = []
        for x, (a, lay) in enumerate(combos[s:s + 8]):
            T = tag("#struct S%d" % lay)
            body = [decl("n", INT, num(3)), decl("pad", arr(CHAR, a - 2)), decl("s", T), decl("t", INT, num(77)), decl("q", ptr(UCHAR), castx(ptr(UCHAR), un("&", I("s")))), decl("v", INT)]
            body += [for_(asg("", I("v"), num(0)), bin_("<", I("v"), sizee(I("s"))), inc(1, True, I("v")), es(asg("", idx(I("q"), I("v")), num(9))))]
            o = 0
            for m, t in ms[lay]:
                sz = {"char": 1, "uchar": 1, "int": 2, "uint": 2}.get(t[0]) or t[2] * (1 if t[1] == CHAR else 2)
                if t[0] != "arr":
                    v = r.randrange(20, 120) if sz == 1 else r.choice([0x1234, -2, 0x4321, 257])
                    body += [es(asg("", mem(I("s"), m), num(v))), obs(idx(I("q"), num(o)))]
                    if sz == 2: body.append(obs(idx(I("q"), num(o + 1))))
                    body += [es(asg("", idx(I("q"), num(o)), num(r.randrange(20, 120)))), obs(mem(I("s"), m))]
                    c = r.randrange(5)
                    if c == 0: body += [es(asg(r.choice("+-"), mem(I("s"), m), num(1))), obs(idx(I("q"), num(o)))]
                    elif c == 1: body += [es(inc(1, r.random() < .5, mem(I("s"), m))), obs(idx(I("q"), num(o)))]
                    elif c == 2: body += [es(asg("", un("*", un("&", mem(I("s"), m))), num(3))), obs(idx(I("q"), num(o))), obs(mem(I("s"), m))]
                    elif c == 3: body += [obs(bin_(r.choice("+-&|^"), I("t"), mem(I("s"), m)))]
                else:
                    body += [es(asg("", idx(mem(I("s"), m), num(1)), num(55))), obs(idx(I("q"), num(o + sz // t[2])))]
                o += sz
            body += [for_(asg("", I("v"), num(0)), bin_("<", I("v"), sizee(I("s"))), inc(1, True, I("v")), obs(idx(I("q"), I("v")))), obs(I("t")), obs(I("n"))]
            p.func("t%d" % x, VOID, [], block(*body)); names.append("t%d" % x)
        # the caller's frame must not be touched
        p.func("main", INT, [], block(decl("room", arr(CHAR, 200)), decl("i", INT), for_(asg("", I("i"), num(0)), bin_("<", I("i"), num(200)), inc(1, True, I("i")), es(asg("", idx(I("room"), I("i")), num(1)))),
                                      *[es(call(x)) for x in names],
                                      for_(asg("", I("i"), num(0)), bin_("<", I("i"), num(200)), inc(1, True, I("i")), if_(bin_("!=", idx(I("room"), I("i")), num(1)), obs(I("i")))), ret(num(0))))
        progs.append(p)
    return progs
