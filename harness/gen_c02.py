"""Program families for C02 (control flow)."""
import random
from cast import *

I = ident

class Flow:
    """random structured function bodies; every loop is bounded by its own counter"""
    def __init__(self, rng, padmode):
        self.r = rng; self.padmode = padmode
        self.p = Prog(); self.p.memsz = 900
        self.nid = 0; self.tag = 100
        self.budget = 0
    def new(self, pfx):
        self.nid += 1
        return "%s%d" % (pfx, self.nid)
    def mark(self):
        self.tag += 1
        return obs(num(self.tag))
    def pad(self):
        r = self.r
        if self.padmode == 0 or r.random() < .75: return []
        return [pad(r.choice([1, 5, 40, 90, 100, 110, 118, 122, 126, 130, 200]))]
    # -- conditions ---------------------------------------------------------
    def cond(self, vs, d=2):
        r = self.r
        v = lambda: I(r.choice(vs))
        c = r.randrange(16)
        if c < 5: return bin_(r.choice(["<", "<=", ">", ">=", "==", "!="]), v(), r.choice([v(), num(r.choice([0, 1, 2, 3, 5, -1]))]))
        if c == 5: return v()
        if c == 6: return un("!", v())
        if c == 7: return bin_("&", v(), num(r.choice([1, 2, 3, 4])))
        if c == 8: return num(r.choice([0, 1, 1, 7]))
        if c == 9: return un("*", I("gp"))
        if c == 10: return call("cf", v(), num(r.randrange(4)))
        if c == 11: return comma(asg("", I("gx"), bin_("+", I("gx"), num(1))), bin_("&", I("gx"), num(r.choice([1, 2, 3]))))
        if d <= 0: return v()
        if c == 12 or c == 13: return and_(self.ncond(vs, d - 1), self.ncond(vs, d - 1))
        if c == 14: return or_(self.ncond(vs, d - 1), self.ncond(vs, d - 1))
        return un("!", r.choice([and_, or_])(self.ncond(vs, d - 1), self.ncond(vs, d - 1)))
    def ncond(self, vs, d):
        while True:
            c = self.cond(vs, d)
            if c["k"] != "num": return c
    def pure(self, vs):
        r = self.r
        return r.choice([lambda: I(r.choice(vs)), lambda: num(r.choice([0, 1, 2, 3, 7, -1])),
                         lambda: bin_(r.choice("+-^"), I(r.choice(vs)), num(r.randrange(1, 5)))])()
    # -- statements -----------------------------------------------------------
    def body(self, vs, d, ctx):
        """a statement as the body of a construct: block or single statement"""
        r = self.r
        if r.random() < .25: return self.stmt(vs, d - 1, ctx, single=True)
        return block(*self.seq(vs, d - 1, ctx))
    def seq(self, vs, d, ctx):
        r = self.r
        vs = list(vs); out = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            c = r.random()
            if c < .22 and len(vs) < 12:
                n = self.new("v"); t = r.choice([INT, INT, UINT, CHAR, UCHAR])
                out.append(decl(n, t, num(r.randrange(6)) if r.random() < .5 else self.pure(vs)))
                vs.append(n)
            elif c < .27:
                n = self.new("a")
                out += [decl(n, arr(r.choice([INT, CHAR]), r.choice([1, 3, 5]))), es(asg("", idx(I(n), num(0)), self.pure(vs))), obs(idx(I(n), num(0)))]
            s = self.stmt(vs, d, ctx)
            out += s if isinstance(s, list) else [s]
            out += self.pad()
        if r.random() < .5: out.append(obs(I(r.choice(vs))))
        return out
    def simple(self, vs):
        r = self.r
        w = [v for v in vs if v[0] in "v"]
        c = r.randrange(5)
        if c == 0 and w: return es(asg(r.choice(["", "+", "-", "^"]), I(r.choice(w)), self.pure(vs)))
        if c == 1 and w: return es(inc(r.choice([1, -1]), r.random() < .5, I(r.choice(w))))
        if c == 2: return obs(I(r.choice(vs)))
        if c == 3: return obs(call("cf", I(r.choice(vs)), I(r.choice(vs))))
        return self.mark()
    def stmt(self, vs, d, ctx, single=False):
        r = self.r
        self.budget -= 1
        if d <= 0 or self.budget < 0: return self.simple(vs)
        c = r.randrange(100)
        if c < 22: return self.simple(vs)
        if c < 40: return if_(self.cond(vs), self.body(vs, d, ctx), self.body(vs, d, ctx) if r.random() < .5 else None)
        if c < 46 and ctx["loop"]: return if_(self.cond(vs), r.choice([break_, continue_])()) if r.random() < .7 else r.choice([break_, continue_])()
        if c < 49 and ctx["sw"]: return if_(self.cond(vs), break_())
        if c < 52: return if_(self.cond(vs), ret(self.pure(vs))) if ctx["ret"] else self.simple(vs)
        if c < 55: return empty() if single else self.simple(vs)
        if c < 58 and ctx["lab"]:
            l = r.choice(ctx["lab"])
            return if_(self.cond(vs), goto(l))
        if c < 80: s = self.loop(vs, d, ctx)
        else: s = self.switch(vs, d, ctx)
        return block(*s) if single else s
    def loop(self, vs, d, ctx):
        r = self.r
        n = self.new("i"); lim = r.choice([0, 1, 2, 3, 3, 4])
        inner = dict(ctx, loop=True, sw=False)
        k = r.randrange(7)
        t = r.choice([INT, INT, UINT, CHAR])
        lt = bin_("<", I(n), num(lim))
        if r.random() < .3: lt = and_(lt, self.ncond(vs, 1)) if r.random() < .6 else and_(self.ncond(vs, 1), lt)
        bd = lambda: self.body(vs + [n], d, inner)
        if k == 0: return [decl(n, t), for_(asg("", I(n), num(0)), lt, inc(1, r.random() < .5, I(n)), bd()), obs(I(n))]
        if k == 1: return [decl(n, t, num(0)), while_(bin_("<", inc(1, False, I(n)), num(lim)), bd()), obs(I(n))]
        if k == 2: return [decl(n, t, num(0)), do_(self.blk(bd()), bin_("<", inc(1, True, I(n)), num(lim)))]
        if k == 3: return [decl(n, t, num(lim)), while_(inc(-1, False, I(n)), bd()), obs(I(n))]
        if k == 4:   # for (;;) with break at the top
            b = self.blk(bd())
            b["ss"] = [if_(bin_(">=", inc(1, False, I(n)), num(lim)), break_())] + b["ss"]
            return [decl(n, t, num(0)), r.choice([lambda: for_(None, None, None, b), lambda: while_(num(1), b), lambda: do_(b, num(1))])()]
        if k == 5:
            b = self.blk(bd())
            b["ss"] = [es(asg("+", I(n), num(1)))] + b["ss"]
            return [decl(n, t, num(0)), for_(None, lt, None, b), obs(I(n))]
        b = self.blk(bd())
        b["ss"] = [es(inc(1, True, I(n)))] + b["ss"]
        return [decl(n, t, num(0)), do_(b, lt), obs(I(n))]
    def blk(self, b):
        return b if b["k"] == "block" else block(b)
    def switch(self, vs, d, ctx):
        r = self.r
        inner = dict(ctx, sw=True)
        vals = r.sample([0, 1, 2, 3, 4, 5, -1, 7, 100, 255, 256, 65, -128], r.randint(0, 6))
        groups = []
        while vals:
            k = min(len(vals), r.choice([1, 1, 2, 3])); groups.append([("c", v) for v in vals[:k]]); vals = vals[k:]
        if r.random() < .7:
            if groups and r.random() < .4: 
                g = r.choice(groups); g.insert(r.randrange(len(g) + 1), ("d", 0))
            else: groups.insert(r.randrange(len(groups) + 1), [("d", 0)])
        out = []
        svs = list(vs)
        if r.random() < .15:
            n = self.new("v"); out.append(decl(n, INT)); late = n
        else: late = None
        for g in groups:
            for kind, v in g:
                out.append(default() if kind == "d" else case(v, "'A'" if v == 65 else None))
            if late: out.append(es(asg("", I(late), num(r.randrange(9)))))
            sq = self.seq(svs + ([late] if late else []), d - 1, inner)
            if r.random() < .8 or any(x["k"] == "decl" for x in sq): sq = [block(*sq)] if r.random() < .9 or any(x["k"] == "decl" and x["n"][0] == "i" for x in sq) else sq
            out += sq
            if r.random() < .6: out.append(break_())
        e = r.choice([lambda: I(r.choice(vs)), lambda: bin_("&", I(r.choice(vs)), num(7)), lambda: call("cf", I(r.choice(vs)), num(3)),
                      lambda: castx(CHAR, I(r.choice(vs))), lambda: bin_("-", I(r.choice(vs)), num(1)), lambda: num(r.randrange(4))])()
        return [switch(e, block(*out))]
    def func(self, n, d, budget, goto_=False):
        while True:
            b = self.func1(d, budget, goto_)
            if nesting(b) <= 13: break
        self.p.func(n, INT, [("p0", INT), ("p1", CHAR)], b)
    def func1(self, d, budget, goto_):
        r = self.r
        self.budget = budget
        vs = ["p0", "p1", "gx"]
        ss = []
        for _ in range(r.randrange(4)):
            v = self.new("v"); ss.append(decl(v, r.choice([INT, INT, CHAR, UINT]), self.pure(vs))); vs.append(v)
        labs = []
        ctx = dict(loop=False, sw=False, ret=True, lab=[])
        if goto_:
            labs = [self.new("l") for _ in range(r.choice([1, 2, 3]))]
            cnt = self.new("i")
            ss.append(decl(cnt, INT, num(0)))
            fw = labs
            parts = []
            for j, l in enumerate(labs):
                # forward gotos to later labels from anywhere, backward ones bounded by the counter
                c2 = dict(ctx, lab=labs[j:])
                q = self.seq(vs, d, c2)
                parts.append((q, l, labs[:j + 1]))
            for q, l, back in parts:
                # declarations must not be jumped over into their use: keep them in a block
                ss.append(block(*q)); ss.append(label(l)); ss.append(self.simple(vs))
                ss.append(if_(bin_("<", inc(1, False, I(cnt)), num(r.choice([0, 1, 3]))), block(*self.pad(), goto(r.choice(back)))))
        ss += self.seq(vs, d, ctx)
        ss += [obs(I(v)) for v in vs[3:6]]
        ss.append(ret(self.pure(vs)))
        return block(*ss)

def family_random(seed, count, depth=4, budget=28):
    progs = []
    for i in range(count):
        r = random.Random("c02/%d/%d" % (seed, i))
        f = Flow(r, r.random() < .5)
        f.p.add(gvar("gx", INT), gvar("gp", ptr(INT)))
        f.p.func("cf", INT, [("a", INT), ("b", INT)], block(obs(I("a")), ret(bin_("&", I("a"), I("b")))))
        names = []
        for k in range(4):
            n = "t%d" % k; names.append(n)
            f.func(n, depth, budget, k % 2 == 1)
        ss = [es(asg("", I("gp"), un("&", I("gx"))))]
        for n in names:
            for a, b in ((0, 1), (2, r.randrange(-3, 8)), (r.choice([3, 5, 65, 255, -1]), 3)):
                ss += [es(asg("", I("gx"), num(r.randrange(4)))), obs(call(n, num(a), num(b))), obs(I("gx"))]
        f.p.func("main", INT, [], block(*ss, ret(num(i % 251))))
        progs.append(f.p)
    return progs

# ---- every construct x distance around the limits of short jumps --------------------------
def shapes(r):
    """name -> body maker (pad bytes a, b) of int t(int x): x is 0 or 1..3"""
    x = lambda: I("x")
    P = lambda n: [pad(n)] if n else []
    lt = lambda a, b: bin_("<", a, num(b))
    S = {}
    S["if"] = lambda a, b: [if_(x(), block(obs(num(1)), *P(a))), obs(num(2))]
    S["ifrel"] = lambda a, b: [if_(bin_(r.choice(["<", ">", "==", "!=", "<=", ">="]), x(), num(1)), block(obs(num(1)), *P(a))), obs(num(2))]
    S["ifelse"] = lambda a, b: [if_(x(), block(*P(a), obs(num(1))), block(obs(num(2)), *P(b))), obs(num(3))]
    S["while"] = lambda a, b: [decl("i", INT, num(0)), while_(lt(I("i"), 2), block(obs(I("i")), *P(a), es(inc(1, True, I("i"))))), obs(I("i"))]
    S["do"] = lambda a, b: [decl("i", INT, num(0)), do_(block(obs(I("i")), *P(a), es(inc(1, True, I("i")))), lt(I("i"), 2)), obs(I("i"))]
    S["doc"] = lambda a, b: [decl("i", INT, num(0)), do_(block(obs(I("i")), *P(a), if_(x(), continue_()), es(asg("", I("i"), num(5)))), bin_("<", inc(1, False, I("i")), num(2))), obs(I("i"))]
    S["for"] = lambda a, b: [decl("i", INT), for_(asg("", I("i"), num(0)), lt(I("i"), 2), inc(1, True, I("i")), block(obs(I("i")), *P(a))), obs(I("i"))]
    S["forbrk"] = lambda a, b: [decl("i", INT), for_(asg("", I("i"), num(0)), lt(I("i"), 4), inc(1, True, I("i")), block(if_(bin_("==", I("i"), x()), break_()), obs(I("i")), *P(a))), obs(I("i"))]
    S["forcont"] = lambda a, b: [decl("i", INT), for_(asg("", I("i"), num(0)), lt(I("i"), 3), inc(1, True, I("i")), block(*P(b), if_(bin_("==", I("i"), x()), continue_()), obs(I("i")), *P(a))), obs(I("i"))]
    S["whcont"] = lambda a, b: [decl("i", INT, num(0)), while_(lt(inc(1, False, I("i")), 3), block(*P(b), if_(bin_("==", I("i"), x()), continue_()), obs(I("i")), *P(a))), obs(I("i"))]
    S["inf"] = lambda a, b: [decl("i", INT, num(0)), for_(None, None, None, block(if_(bin_(">=", I("i"), num(2)), break_()), *P(a), es(inc(1, False, I("i"))))), obs(I("i"))]
    S["switch"] = lambda a, b: [switch(x(), block(case(1), obs(num(1)), *P(a), break_(), case(2), case(3), obs(num(2)), *P(b), default(), obs(num(9))))]
    S["swdef"] = lambda a, b: [switch(x(), block(default(), obs(num(9)), *P(a), case(1), obs(num(1)), *P(b), break_(), case(3), obs(num(3))))]
    S["and"] = lambda a, b: [if_(and_(x(), bin_(">", call("h", x()), num(1))), block(obs(num(1)), *P(a)), block(obs(num(2)), *P(b)))]
    S["or"] = lambda a, b: [if_(or_(x(), bin_("==", call("h", x()), num(0))), block(obs(num(1)), *P(a)), block(obs(num(2)), *P(b)))]
    S["wand"] = lambda a, b: [decl("i", INT, num(0)), while_(and_(lt(I("i"), 3), bin_("!=", I("i"), x())), block(obs(I("i")), *P(a), es(inc(1, True, I("i"))))), obs(I("i"))]
    S["gofwd"] = lambda a, b: [if_(x(), goto("l")), obs(num(1)), *P(a), label("l"), obs(num(2))]
    S["goback"] = lambda a, b: [decl("i", INT, num(0)), label("l"), obs(I("i")), *P(a), if_(lt(inc(1, True, I("i")), 3), goto("l")), obs(I("i"))]
    S["goout"] = lambda a, b: [decl("i", INT, num(0)), while_(lt(I("i"), 3), block(decl("j", INT, I("i")), while_(num(1), block(decl("k", INT, I("j")), if_(bin_("==", I("k"), x()), goto("l")), obs(I("k")), *P(a), break_())), es(inc(1, False, I("i"))))), label("l"), obs(I("i"))]
    S["gobig"] = lambda a, b: [decl("q", arr(CHAR, 200)), es(asg("", idx(I("q"), num(7)), num(5))), if_(x(), block(decl("z", arr(INT, 50)), es(asg("", idx(I("z"), num(1)), num(4))), *P(a), goto("l"))), obs(num(1)), label("l"), obs(idx(I("q"), num(7)))]
    S["ret"] = lambda a, b: [decl("i", INT, num(3)), if_(x(), block(*P(b), ret(I("i")))), obs(num(1)), *P(a)]
    S["retv"] = lambda a, b: [if_(x(), ret(num(4))), obs(num(1)), *P(a)]
    S["not"] = lambda a, b: [if_(un("!", x()), block(obs(num(1)), *P(a)), block(*P(b), obs(num(2))))]
    S["andor"] = lambda a, b: [if_(or_(and_(x(), call("h", num(0))), un("!", call("h", x()))), block(obs(num(1)), *P(a))), obs(num(3))]
    S["blkloc"] = lambda a, b: [decl("i", INT, num(0)), while_(num(1), block(decl("w", arr(INT, 3)), es(asg("", idx(I("w"), num(2)), I("i"))), if_(bin_(">=", inc(1, False, I("i")), num(2)), break_()), *P(a), if_(x(), continue_()), obs(idx(I("w"), num(2))))), obs(I("i"))]
    S["duff"] = lambda a, b: [decl("i", INT, num(2)), switch(x(), block(case(0), do_(block(obs(num(10)), *P(a), case(3), obs(num(13)), case(2), obs(num(12)), *P(b), case(1), obs(num(11))), bin_(">", inc(-1, True, I("i")), num(0))), break_(), default(), obs(num(99)))), obs(I("i"))]
    S["caseif"] = lambda a, b: [switch(x(), block(case(0), if_(x(), block(obs(num(1)), case(2), obs(num(2)), *P(a)), block(obs(num(3)), case(1), *P(b), obs(num(4)))), obs(num(5)), break_(), default(), obs(num(6))))]
    S["swloop"] = lambda a, b: [decl("i", INT, num(0)), while_(lt(inc(1, False, I("i")), 4), block(decl("m", INT, bin_("*", I("i"), num(3))), switch(bin_("+", I("i"), x()), block(case(1), case(4), *P(a), continue_(), case(2), obs(I("m")), *P(b), break_(), default(), switch(x(), block(case(1), obs(num(7)), break_(), default(), obs(num(8)), case(2), continue_())), obs(num(6)))), obs(I("m")))), obs(I("i"))]
    S["swdecl"] = lambda a, b: [decl("k", INT, num(70)), switch(x(), block(decl("m", INT), case(1), es(asg("", I("m"), num(5))), obs(call("h", I("m"))), decl("n", INT, num(4)), *P(a), obs(I("n")), case(2), es(asg("", I("m"), num(6))), es(asg("", I("n"), num(8))), *P(b), obs(bin_("+", call("h", I("m")), I("n"))), break_(), default(), obs(num(3)))), decl("o", INT, num(9)), obs(bin_("+", call("h", I("k")), I("o"))), obs(I("k"))]
    S["swgoto"] = lambda a, b: [decl("i", INT, num(0)), label("l"), switch(bin_("+", x(), I("i")), block(case(0), decl("z", arr(INT, 3)), es(asg("", idx(I("z"), num(2)), num(3))), obs(num(1)), es(inc(1, True, I("i"))), *P(a), goto("l"), case(1), case(3), obs(num(2)), if_(bin_("<", inc(1, True, I("i")), num(4)), goto("l")))), *P(b), obs(I("i"))]
    S["swin"] = lambda a, b: [decl("i", INT, num(5)), if_(bin_("==", x(), num(2)), goto("in")), switch(x(), block(case(1), obs(num(1)), label("in"), obs(I("i")), *P(a), case(3), obs(num(3)), break_(), case(0), obs(num(0)))), obs(num(7))]
    def many(a, b):
        n = 3 + (a * 31 + b) % 58
        vs = [v * 7 - 90 for v in r.sample(range(16, 90), n)]
        for v, at in ((1, 0), (2, r.randrange(n)), (3, r.choice([n - 1, n - 2]))): vs[at] = v
        g = [case(v) for v in vs]
        if r.random() < .3: g.insert(r.randrange(n), default())
        return [switch(x(), block(*g, obs(num(1)), *P(a), case(200), obs(num(2)), break_(), *([] if any(q["k"] == "default" for q in g) else [default()]), obs(num(3))))]
    S["manycase"] = many
    return S

def family_distance(seed, part, parts, lo=96, hi=140):
    r = random.Random("c02d%d" % seed)
    S = shapes(r)
    combos = [(n, a) for n in S for a in range(lo, hi)]
    combos += [(n, a) for n in S for a in (0, 1, 2, 3, 250, 260)]
    combos += [("manycase", a) for a in range(60)]
    r.shuffle(combos)
    combos = combos[part::parts]
    progs = []
    per = 24
    for s in range(0, len(combos), per):
        p = Prog()
        p.func("h", INT, [("x", INT)], block(obs(num(50)), ret(I("x"))))
        names = []
        for j, (n, a) in enumerate(combos[s:s + per]):
            b = r.choice([0, 0, r.randrange(100, 135), r.randrange(1, 30)])
            body = S[n](a, b)
            f = "t%d" % j; names.append(f)
            p.func(f, INT, [("x", INT)], block(*([decl("keep", INT, num(j))] if r.random() < .5 else []), *body, ret(num(a))))
        ss = []
        for f in names:
            for v in (0, 1, 2, 3): ss.append(obs(call(f, num(v))))
        p.func("main", INT, [], block(*ss, ret(num(0))))
        progs.append(p)
    return progs
