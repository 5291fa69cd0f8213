"""Program families for C05 (scopes and names)."""
import random
from cast import *

I = ident
KEYLIKE = ["in", "int_", "iff", "whil", "whilex", "do1", "_return", "returned", "els", "fo", "fork", "cas", "cases", "char1", "unsigne", "struct_", "gotos", "sizeo", "enum0",
           "voi", "breakx", "defaul", "va_lis", "_emi", "_star", "_SBS", "x", "X", "_x", "x_", "xx", "_", "__", "a1", "a2", "aA", "Aa", "L", "main_", "obs1", "bss", "v"]

def sf_hash(s):
    h = 0
    for c in s: h = (h + (h << 4) + ord(c)) & 0xffff
    return h

def names(r, n):
    """spellings meant to collide: shared prefixes, permutations, case variants, keywords' neighbours, equal sums"""
    out = []
    while len(out) < n:
        c = r.randrange(6)
        if c == 0: x = r.choice(KEYLIKE)
        elif c == 1: x = "n" + "".join(r.choice("aAbB01_") for _ in range(r.randrange(1, 5)))
        elif c == 2: x = r.choice("pqz") * r.randrange(1, 9)
        elif c == 3 and out:
            y = r.choice(out); x = r.choice([y + "_", y.swapcase(), y + y[-1], y[:-1] or y, "_" + y, y[::-1]])
        elif c == 4: x = "long_identifier_number_" + "".join(r.choice("xyXY") for _ in range(r.randrange(1, 8)))
        else: x = "".join(r.choice("abc") for _ in range(r.randrange(2, 5)))
        if x[0].isdigit() or x in out or x in RESERVED or len(x) > 40: continue
        out.append(x)
    return out
RESERVED = {"auto", "break", "case", "char", "const", "continue", "default", "do", "else", "enum", "extern", "for", "goto", "if", "int", "long", "register", "return",
            "short", "signed", "sizeof", "static", "struct", "switch", "typedef", "union", "unsigned", "void", "volatile", "while", "va_list", "va_start", "va_end",
            "va_arg", "_emit", "_start", "_SBSS", "_EBSS", "obs", "quit", "main", "double", "float", "ax", "asm", "h"}

class Scoped:
    def __init__(self, rng):
        self.r = rng; r = rng
        self.p = Prog(); self.p.memsz = 1500
        self.pool = names(r, r.choice([4, 6, 9]))
        self.tdefs = ["T%s" % x for x in ("a", "b", "0", "_")]
        self.tags = ["S", "R", self.pool[0]]
        self.scopes = []           # list of dicts name -> descriptor
        self.cnt = 100
        self.nstruct = 0
        self.depth = 0
        self.labels = 0
        self.slots = 0; self.mem_count = 0
    def val(self):
        self.cnt += r7(self.r)
        return self.cnt % 30000
    def look(self, n):
        for s in reversed(self.scopes):
            if n in s: return s[n]
        return None
    def visible(self, kinds):
        seen = {}
        for s in self.scopes:
            for k, v in s.items(): seen[k] = v
        return [(k, v) for k, v in seen.items() if v[0] in kinds]
    def free(self, pool):
        return [x for x in pool if x not in self.scopes[-1]]
    # descriptors: ("var", type) ("con", value) ("td", type) ("tag", members) ("fn", nparams)
    def vtype(self):
        r = self.r
        c = r.randrange(10)
        tds = self.visible(("td",))
        tgs = self.visible(("tag",))
        if c < 5: return r.choice([INT, INT, UINT, CHAR, UCHAR])
        if c < 7 and tds: return td(r.choice(tds)[0])
        if c == 7 and tgs: return tag(r.choice(tgs)[0])
        if c == 8 and self.slots < 18: return arr(r.choice([INT, CHAR]), 3)
        return INT
    def real(self, t):
        while t[0] == "td": t = self.look(t[1])[1]
        return t
    def declare(self):
        """a declaration in the current (inner) scope: statements"""
        r = self.r
        c = r.randrange(14)
        if c == 0:
            f = self.free(self.pool)
            if not f: return []
            ns = r.sample(f, min(len(f), r.choice([1, 2, 3]))); v = r.choice([0, 5, -3, 200, 1000]); out = []
            nxt = 0
            for i, n in enumerate(ns):
                give = r.random() < .6
                if give: nxt = v + i * 7
                out.append((n, nxt if give else None)); self.scopes[-1][n] = ("con", nxt); nxt += 1
            return [enum(*out)]
        if c == 1:
            f = [x for x in self.tdefs if self.look(x) is None]
            if not f: return []
            n = r.choice(f); t = r.choice([INT, CHAR, UINT, UCHAR, ptr(INT)])
            self.scopes[-1][n] = ("td", t)
            return [tdef(n, t)]
        if c == 2 and self.nstruct < 5 and self.mem_count < 22:
            n = "#%s %s" % (r.choice(["struct", "union"]), r.choice(self.tags))
            other = n.replace("struct", "@").replace("union", "struct").replace("@", "union")
            if n in self.scopes[-1] or self.look(other): return []
            ms = []
            for m in r.sample(self.pool, min(len(self.pool), r.choice([1, 2, 3]))):
                ms.append((m, r.choice([INT, CHAR, UINT]))); self.mem_count += 1
            self.nstruct += 1
            self.scopes[-1][n] = ("tag", ms)
            return [struct(n, ms, "union" in n)]
        f = self.free(self.pool)
        if not f: return []
        n = r.choice(f)
        t = self.vtype(); rt = self.real(t)
        st = r.random() < .15 and rt[0] in ("int", "uint", "char", "uchar") and self.nstat < 3
        if rt[0] == "tag":
            self.scopes[-1][n] = ("var", rt, t, self.look(rt[1])[1])
            ms = self.scopes[-1][n][3]
            return [decl(n, t)] + ([es(asg("", mem(I(n), m), num(self.val() % 100))) for m, mt in ms] if "union" not in rt[1] else [es(asg("", mem(I(n), ms[0][0]), num(self.val() % 100)))])
        if rt[0] == "arr":
            self.slots += 1
            self.scopes[-1][n] = ("var", rt, t)
            return [decl(n, t)] + [es(asg("", idx(I(n), num(i)), num(self.val() % 100))) for i in range(3)]
        if rt[0] == "ptr":
            v = [(k, d) for k, d in self.visible(("var",)) if d[1] == rt[1] and k != n]
            if not v: return []
            e = un("&", I(r.choice(v)[0]))
            self.scopes[-1][n] = ("var", rt, t)
            return [decl(n, t, e)]
        if st:
            self.nstat += 1
            self.scopes[-1][n] = ("var", rt, t)
            return [decl(n, t, static=True)]
        e = num(self.val() % (100 if rt[0] in ("char", "uchar") else 30000)) if r.random() < .6 else self.rv(n)
        self.scopes[-1][n] = ("var", rt, t)
        return [decl(n, t, e)]
    def rv(self, exclude=None):
        """a value from a visible name"""
        r = self.r
        v = [(k, d) for k, d in self.visible(("var", "con")) if k != exclude]
        if not v: return num(self.val())
        k, d = r.choice(v)
        if d[0] == "con": return I(k)
        return self.val_of(k, d)
    def val_of(self, k, d):
        r = self.r; t = d[1]
        if t[0] == "tag":
            ms = self.look_tag(d)
            return mem(I(k), r.choice(ms)[0] if "union" not in t[1] else ms[0][0])
        if t[0] == "arr": return idx(I(k), num(r.randrange(3)))
        if t[0] == "ptr": return un("*", I(k))
        return I(k)
    def look_tag(self, d): return d[3]
    def use(self):
        r = self.r
        c = r.randrange(10)
        if c < 6: return [obs(self.rv())]
        if c == 6: return [obs(bin_(r.choice("+-^"), self.rv(), self.rv()))]
        v = [(k, d) for k, d in self.visible(("var",)) if d[1][0] in ("int", "uint", "char", "uchar")]
        if not v: return [obs(self.rv())]
        k, d = r.choice(v)
        if c == 7: return [es(asg(r.choice(["", "+", "-"]), I(k), bin_("+", self.rv(), num(1)))), obs(I(k))]
        if c == 8: return [es(inc(1, True, I(k))), obs(I(k))]
        return [obs(sizee(I(k)))]
    def snapshot_all(self):
        """every name visible here"""
        out = []
        for k, d in sorted(self.visible(("var", "con"))):
            out.append(obs(I(k) if d[0] == "con" else self.val_of(k, d)))
        return out
    def inner(self, d, fns):
        self.scopes.append({})
        ss = []
        sl = self.slots; ns = self.nstruct; mc = self.mem_count
        for _ in range(self.r.choice([2, 3, 4, 5, 6])): ss += self.item(d, fns)
        if self.r.random() < .5: ss += self.snapshot_all()
        self.scopes.pop()
        self.slots = sl; self.nstruct = ns; self.mem_count = mc
        # a tag or typedef of the inner scope may not be the type of outer objects: by construction
        return block(*ss)
    def item(self, d, fns):
        r = self.r
        c = r.randrange(20)
        if c < 8: return self.declare()
        if c < 13 or d <= 0: return self.use()
        if c == 13 and fns:
            n, na = r.choice(fns)
            if self.look(n) is not None and self.look(n)[0] != "fn": return self.use()
            return [obs(call(n, *[self.rv() for _ in range(na)]))]
        if c == 14 and self.labels < 5:
            self.labels += 1
            l = r.choice([x for x in self.pool + ["lab"] if x not in self.used_labels and self.look(x) != "td"] or [None])
            if l is None: return self.use()
            self.used_labels.add(l)
            return [if_(self.rv(), goto(l)), *self.use(), label(l), *self.use()]
        b = self.inner(d - 1, fns)
        c = r.randrange(6)
        if c == 0: return [if_(self.rv(), b, self.inner(d - 1, fns))]
        if c == 1: return [do_(b, num(0))]
        if c == 2:
            cons = self.visible(("con",))
            if cons:
                ks = r.sample(cons, min(len(cons), 2))
                if len(ks) == 2 and (ks[0][1][1] - ks[1][1][1]) % 65536 == 0: ks = ks[:1]
                # at the place of the label the names of the switch block are not declared yet
                body = []
                for k, dd in ks: body += [case(dd[1], k), *self.use(), break_()]
                return [switch(r.choice([I(ks[0][0]), num(ks[0][1][1] + 1), self.rv()]), block(*body, default(), b))]
        return [b]
    def function(self, n, ps, fns, d):
        r = self.r
        self.nstat = 0; self.labels = 0; self.used_labels = set()
        self.scopes.append({a: ("var", t, t) for a, t in ps})
        # the outermost block is a scope of its own for the compiler, but redeclaring a parameter there is not C
        self.scopes.append({a: ("var", t, t) for a, t in ps})
        ss = []
        sl = self.slots; ns = self.nstruct; mc = self.mem_count
        for _ in range(r.choice([4, 6, 8])): ss += self.item(d, fns)
        ss += self.snapshot_all()
        ss.append(ret(self.rv()))
        self.scopes.pop(); self.scopes.pop()
        self.slots = sl; self.nstruct = ns; self.mem_count = mc
        return block(*ss)

def r7(r): return r.choice([1, 2, 7, 13])

def family_random(seed, count):
    progs = []
    for i in range(count):
        r = random.Random("c05/%d/%d" % (seed, i))
        w = Scoped(r)
        w.scopes.append({})
        g = w.scopes[0]
        nf = r.choice([2, 3, 4])
        fnames = []
        for x in names(r, nf + 3):
            if x not in w.pool[:2] and len(fnames) < nf and not x.startswith("T"): fnames.append(x)
        if r.random() < .3 and w.pool[-1] not in fnames: fnames[0] = w.pool[-1]   # a function shadowed by locals
        sigs = []
        for x in fnames:
            ps = r.sample(w.pool, min(len(w.pool), r.choice([0, 1, 2, 3])))
            sigs.append((x, [(a, r.choice([INT, INT, CHAR, UINT])) for a in ps]))
        for x, ps in sigs: g[x] = ("fn", len(ps))
        for x in fnames:
            if r.random() < .5: w.p.fdecl(x, INT, dict(sigs)[x])
        gl = []
        for n in w.pool:
            if n in g: continue
            c = r.randrange(6)
            if c < 3:
                t = r.choice([INT, CHAR, UINT]); v = w.val() % (100 if t == CHAR else 30000)
                if r.random() < .5: w.p.add(gvar(n, t, num(v)))
                else: w.p.add(gvar(n, t)); gl.append(es(asg("", I(n), num(v))))
                g[n] = ("var", t, t)
            elif c == 3:
                v = r.choice([3, -7, 300]); w.p.add(enum((n, v))); g[n] = ("con", v)
            elif c == 4:
                t = arr(INT, 3); w.slots += 1
                w.p.add(gvar(n, t)); g[n] = ("var", t, t)
        if r.random() < .7:
            n = "#struct S"; ms = [(m, r.choice([INT, CHAR])) for m in r.sample(w.pool, min(3, len(w.pool)))]
            w.p.add(struct(n, ms)); g[n] = ("tag", ms); w.nstruct += 1; w.mem_count += len(ms)
        if r.random() < .5:
            w.p.add(tdef("Ta", INT)); g["Ta"] = ("td", INT)
        main = []
        for k, (x, ps) in enumerate(sigs):
            fns = [(y, len(q)) for y, q in sigs[:k]]
            body = w.function(x, ps, fns, 4)
            if nesting(body) > 12: body = block(ret(num(1)))
            w.p.func(x, INT, ps, body)
        for x, ps in sigs:
            for _ in range(2): main.append(obs(call(x, *[num(r.randrange(100)) for _ in ps])))
        for n, d in list(g.items()):
            if d[0] == "var" and d[1][0] != "arr": main.append(obs(I(n)))
            elif d[0] == "con": main.append(obs(I(n)))
        w.p.func("main", INT, [], block(*gl, *main, ret(num(3))))
        progs.append(w.p)
    return progs

AL = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
def bucket(x): return sf_hash(x) % 1024

def family_spelling(seed, count):
    """pairs of identifiers in one hash bucket (or its neighbours) related by prefix, suffix, case, order or a single character; buckets at the end of the table; neighbours of keywords"""
    KW = sorted(RESERVED - {"obs", "quit", "main", "ax", "asm", "h"})
    progs = []
    for i in range(count):
        r = random.Random("c05s/%d/%d" % (seed, i))
        p = Prog(); p.memsz = 1500
        ns = []
        def put(x):
            if x not in ns and x not in RESERVED and not x[0].isdigit() and x not in ("f", "t"): ns.append(x)
        tries = 0
        while len(ns) < 40 and tries < 4000:
            tries += 1
            c = r.randrange(6)
            if c < 2:       # one a prefix of the other, same bucket
                y = "".join(r.choice(AL[:53]) for _ in range(r.randrange(1, 4)))
                for _ in range(3000):
                    z = y + "".join(r.choice(AL) for _ in range(r.choice([2, 2, 3])))
                    if bucket(z) == bucket(y):
                        for x in r.sample([y, z], 2): put(x)
                        break
            elif c == 2:    # suffix of the other, same bucket
                y = "".join(r.choice(AL[:53]) for _ in range(2))
                for _ in range(3000):
                    z = "".join(r.choice(AL[:53]) for _ in range(2)) + y
                    if bucket(z) == bucket(y):
                        for x in r.sample([y, z], 2): put(x)
                        break
            elif c == 3:    # the end of the table
                for _ in range(3000):
                    z = "".join(r.choice(AL[:53]) for _ in range(3))
                    if bucket(z) >= 1021: put(z); break
            elif c == 4:    # the bucket of a keyword
                k = r.choice(KW)
                for _ in range(3000):
                    z = r.choice([k[:r.randrange(1, len(k) + 1)], "".join(r.choice(AL[:53]) for _ in range(len(k) - 1)) or "q"]) + "".join(r.choice(AL) for _ in range(2))
                    if (bucket(z) - bucket(k)) % 1024 < 2: put(z); break
            else:           # same length, same bucket, one or two characters differ
                y = "".join(r.choice(AL[:53]) for _ in range(4))
                for _ in range(3000):
                    q = r.randrange(3); z = y[:q] + "".join(r.choice(AL[:53]) for _ in range(2)) + y[q + 2:]
                    if z != y and bucket(z) == bucket(y):
                        for x in r.sample([y, z], 2): put(x)
                        break
        g = ns[::2]; l = ns[1::2]
        if i % 2: g, l = ns, []
        for j, n in enumerate(g): p.add(gvar(n, INT, num(j + 1) if r.random() < .5 else None))
        p.func("t", INT, [(x, INT) for x in l[:4]], block(*[decl(x, INT, num(500 + j)) for j, x in enumerate(l[4:])], *[obs(I(x)) for x in ns], ret(num(1))))
        p.func("main", INT, [], block(*[es(asg("", I(n), num(j * 5 + 3))) for j, n in enumerate(g)], obs(call("t", *[num(900 + j) for j, _ in enumerate(l[:4])])), *[obs(I(n)) for n in g], ret(num(0))))
        progs.append(p)
    return progs

def colliding(r, n):
    """identifiers in few hash buckets of a 1024 entry table with the hash h*17+c"""
    target = r.randrange(1024); out = []; seen = set()
    al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
    while len(out) < n:
        x = "".join(r.choice(al[:53]) if k == 0 else r.choice(al) for k in range(3))
        for c in al:
            if (sf_hash(x + c) - target) % 1024 < 3 and x + c not in seen:
                seen.add(x + c); out.append(x + c); break
    return out

def family_tables(seed, count):
    """many identifiers: colliding hashes, near the limits of the tables"""
    progs = []
    for i in range(count):
        r = random.Random("c05t/%d/%d" % (seed, i))
        p = Prog(); p.memsz = 3500
        k = r.choice([30, 80, 150, 200])
        if i % 3 == 0: ns = colliding(r, min(k, 80))
        elif i % 3 == 1: ns = ["v%d" % j for j in range(k)]
        else: ns = list(dict.fromkeys("".join(r.choice("ab_A") for _ in range(r.randrange(3, 9))) for _ in range(k)))
        ns = [x for x in ns if x not in RESERVED and x not in ("f0", "f1", "t")]
        half = len(ns) // 2
        for j, n in enumerate(ns[:half]): p.add(gvar(n, r.choice([INT, INT, CHAR]), num(j % 120) if r.random() < .4 else None))
        ss = [es(asg("", I(n), num((j * 3) % 120))) for j, n in enumerate(ns[:half])]
        # locals in nested blocks shadow globals, some new
        loc = r.sample(ns, min(len(ns), 60))
        def blockof(names, d):
            out = []
            for x in names[:8]: out.append(decl(x, INT, num(1000 + len(x) * 7 + d)))
            if names[8:]: out.append(blockof(names[8:], d + 1))
            for x in r.sample(names[:8], min(3, len(names[:8]))): out.append(obs(I(x)))
            return block(*out)
        body = blockof(loc, 0)
        p.func("t", INT, [], block(body, *[obs(I(n)) for n in r.sample(ns[:half], min(20, half))], ret(num(0))))
        p.func("main", INT, [], block(*ss, obs(call("t")), *[obs(I(n)) for n in ns[:half]], ret(num(0))))
        progs.append(p)
    return progs
