"""Program families for C03 (calls, arguments, recursion, varargs, function pointers)."""
import random
from cast import *

I = ident
VALS = [0, 1, 2, 3, 7, 9, 100, 127, 128, 200, 255, 256, 257, 1000, 32767, -1, -2, -100, -128, -129, -255, -32768, 12345, 0x5a5a]
ATYPES = [INT, INT, INT, UINT, CHAR, UCHAR]
RTYPES = [INT, INT, UINT, CHAR, UCHAR, INT]

def fits(t, v):
    """value v as a value of type t"""
    v &= 65535
    s = (v ^ 0x8000) - 0x8000
    if t == CHAR: return ((v & 255) ^ 128) - 128
    if t == UCHAR: return v & 255
    return v if t == UINT else s

class Calls:
    def __init__(self, rng):
        self.r = rng; r = rng
        self.p = Prog(); self.p.memsz = 3000
        self.quiet = []; self.noisy = []; self.tag = 100
        P = self.p
        P.add(struct("#struct S", [("c", CHAR), ("a", INT), ("u", UINT), ("z", arr(INT, 3))]))
        P.add(struct("#struct F", [("c", CHAR), ("f", ptr(["fn", INT])), ("x", INT), ("g", ptr(["fn", INT]))]))
        P.add(gvar("gi", INT), gvar("gu", UINT), gvar("gc", CHAR), gvar("ga", arr(INT, 8)), gvar("gs", tag("#struct S")), gvar("gt", arr(tag("#struct S"), 2)),
              gvar("gf", tag("#struct F")), gvar("gv", arr(tag("#struct F"), 2)), gvar("gb", arr(CHAR, 6)))
        self.str = P.lit(b"call")
        # helpers with known signatures, without side effects
        P.func("fact", INT, [("n", INT)], block(ret(cond(bin_(">", I("n"), num(1)), bin_("*", I("n"), call("fact", bin_("-", I("n"), num(1)))), num(1)))))
        P.func("fib", INT, [("n", INT)], block(if_(bin_("<", I("n"), num(2)), ret(I("n"))), ret(bin_("+", call("fib", bin_("-", I("n"), num(1))), call("fib", bin_("-", I("n"), num(2)))))))
        P.func("mix", INT, [("a", INT), ("b", INT), ("c", INT)], block(ret(bin_("-", bin_("+", bin_("*", I("a"), num(3)), I("b")), bin_("*", I("c"), num(5))))))
        P.func("eight", INT, [(x, INT) for x in "abcdefgh"], block(ret(bin_("+", bin_("-", bin_("^", bin_("*", I("a"), num(2)), bin_("*", I("b"), num(3))), bin_("*", I("c"), num(5))),
                                                               bin_("-", bin_("^", bin_("*", I("d"), num(7)), bin_("*", I("e"), num(11))), bin_("+", bin_("*", I("f"), num(13)), bin_("^", I("g"), bin_("*", I("h"), num(17)))))))))
        P.func("elem", ptr(INT), [("i", INT)], block(ret(bin_("+", I("ga"), bin_("&", I("i"), num(7))))))
        P.func("st", ptr(tag("#struct S")), [("p", ptr(tag("#struct S"))), ("i", INT)], block(ret(bin_("+", I("p"), bin_("&", I("i"), num(1))))))
        P.func("chp", ptr(CHAR), [("p", ptr(CHAR)), ("i", INT)], block(ret(un("&", idx(I("p"), I("i"))))))
        P.func("isp", INT, [("a", INT)], block(ret(bin_(">", I("a"), num(0)))))
        P.func("nar", CHAR, [("a", INT)], block(ret(I("a"))))
        P.func("unar", UCHAR, [("a", INT)], block(ret(I("a"))))
        P.func("usub", UINT, [("a", UINT), ("b", UINT)], block(ret(bin_("-", I("a"), I("b")))))
        FP = ptr(["fn", INT])
        P.func("app", INT, [("f", FP), ("x", INT)], block(ret(call(I("f"), I("x"), num(3)))))
        P.func("app2", INT, [("x", INT), ("f", FP), ("g", FP)], block(ret(bin_("-", call(I("f"), I("x"), num(1)), call(un("*", I("g")), call(I("f"), num(2), I("x")), I("x"))))))
        P.func("sub2", INT, [("a", INT), ("b", INT)], block(ret(bin_("-", bin_("*", I("a"), num(2)), I("b")))))
        P.func("add2", INT, [("a", INT), ("b", INT)], block(ret(bin_("+", I("a"), bin_("*", I("b"), num(3))))))
        P.func("pick", INT, [("n", INT)], block(decl("ap", ptr(CHAR)), ret(I("n"))))
        VA = ptr(CHAR)
        # n int arguments follow: weighted sum
        P.func("vsum", INT, [("n", INT)], block(decl("ap", ["ptr", ["char"], "va"]), decl("s", INT, num(0)), decl("k", INT, num(1)), es(vastart(I("ap"), I("n"))),
               while_(inc(-1, False, I("n")), block(es(asg("+", I("s"), bin_("*", vaarg(I("ap"), INT), inc(1, False, I("k")))))) if r.random() < .5 else
                      block(decl("v", INT, vaarg(I("ap"), INT)), es(asg("", I("s"), bin_("+", I("s"), bin_("*", I("v"), I("k"))))), es(inc(1, True, I("k"))))), ret(I("s"))), va=True)
        # a, then (char*, int) pairs
        P.func("vstr", INT, [("a", INT), ("n", CHAR)], block(decl("ap", ["ptr", ["char"], "va"]), decl("s", ptr(CHAR)), es(vastart(I("ap"), I("n"))),
               while_(bin_(">", inc(-1, False, I("n")), num(0)), block(es(asg("", I("s"), vaarg(I("ap"), ptr(CHAR)))), es(asg("", I("a"), bin_("+", bin_("+", I("a"), idx(I("s"), num(1))), bin_("*", num(3), vaarg(I("ap"), UINT))))))), ret(I("a"))), va=True)
    # expressions: quiet ones may call helpers; no side effects
    def q(self, vs, d):
        r = self.r
        c = r.randrange(30)
        if d <= 0 or c < 6:
            return r.choice([lambda: I(r.choice(vs)), lambda: I(r.choice(vs)), lambda: num(r.choice(VALS)), lambda: I(r.choice(["gi", "gu", "gc"])),
                             lambda: idx(I("ga"), bin_("&", I(r.choice(vs)), num(7))), lambda: mem(I("gs"), r.choice("cau"))])()
        q = lambda: self.q(vs, d - 1)
        if c < 13: return bin_(r.choice(["+", "-", "*", "&", "^", "|"]), q(), q())
        if c == 13: return bin_(r.choice(["<", ">", "==", "<="]), I(r.choice(vs)), q())
        if c == 14: return cond(I(r.choice(vs)), q(), q())
        if c == 15: return r.choice([and_, or_])(I(r.choice(vs)), call("isp", q()))
        if c == 16: return un("-", bin_("+", q(), num(1)))
        if c == 17: return call("mix", q(), q(), q())
        if c == 18: return call("eight", *[q() if r.random() < .3 else self.q(vs, 0) for _ in range(8)])
        if c == 19: return un("*", call("elem", q()))
        if c == 20: return arrow(call("st", I("gt"), q()), r.choice("cau"))
        if c == 21: return idx(call("elem", num(r.randrange(4))), num(r.randrange(4)))
        if c == 22: return call(r.choice(["nar", "unar", "isp"]), q())
        if c == 23: return call("usub", q(), q())
        if c == 24: return bin_(">>", call("usub", q(), q()), num(r.randrange(4)))
        if c == 25: return call("fact", bin_("&", q(), num(7)))
        if c == 26:
            n = r.choice([r.randrange(0, 8), r.randrange(0, 8), r.randrange(8, 20)])
            return call("vsum", num(n), *[q() if r.random() < .4 else self.q(vs, 0) for _ in range(n)])
        if c == 27:
            n = r.choice([r.randrange(0, 4), r.randrange(0, 4), r.randrange(4, 9)])
            a = []
            for _ in range(n): a += [r.choice([self.str, I("gb")]), self.q(vs, d - 1)]
            return call("vstr", q(), num(n), *a)
        if c == 28: return self.indirect(q(), q())
        return call("app", self.fp(), q())
    def fp(self):
        r = self.r
        return r.choice([lambda: I(r.choice(["sub2", "add2"])), lambda: un("&", I(r.choice(["sub2", "add2"]))), lambda: I("lf"), lambda: mem(I("gf"), r.choice("fg")),
                         lambda: mem(idx(I("gv"), num(r.randrange(2))), r.choice("fg")), lambda: arrow(I("pf"), r.choice("fg")),
                         lambda: cond(I("gi"), I("lf"), I("sub2"))])()
    def indirect(self, a, b):
        r = self.r
        f = r.choice([lambda: I("lf"), lambda: un("*", I("lf")), lambda: mem(I("gf"), r.choice("fg")), lambda: un("*", mem(I("gf"), r.choice("fg"))),
                      lambda: arrow(I("pf"), r.choice("fg")), lambda: mem(idx(I("gv"), bin_("&", I("gi"), num(1))), r.choice("fg")), lambda: cond(I("gi"), I("lf"), mem(I("gf"), "f")),
                      lambda: un("*", I("add2")), lambda: un("&", I("sub2"))])()
        return call(f, a, b)
    # noisy functions: observe their parameters; a full expression calls at most a nest of them
    def noisy_call(self, vs, d, before):
        """call of an earlier (or with before=False any later) noisy function; one argument may be noisy itself"""
        r = self.r
        if not before: return self.q(vs, d)
        n, ps = r.choice(before)
        k = r.randrange(len(ps)) if ps and d > 0 and r.random() < .5 else -1
        return call(n, *[self.noisy_call(vs, d - 1, before) if i == k else self.q(vs, d if r.random() < .3 else 0) for i in range(len(ps))])
    def noisy_func(self, n, ps, rt, before):
        r = self.r
        vs = [a for a, t in ps] or ["gi"]
        ss = []
        if r.random() < .3: ss.append(decl("big", arr(CHAR, r.choice([40, 100, 126, 150]))))
        ss += [decl("lf", ptr(["fn", INT]), I(r.choice(["sub2", "add2"]))), decl("pf", ptr(tag("#struct F")), r.choice([lambda: un("&", I("gf")), lambda: bin_("+", I("gv"), num(1))])())]
        for j in range(r.randrange(4)):
            ss.append(decl("l%d" % j, r.choice(ATYPES), self.q(vs, 1))); vs = vs + ["l%d" % j]
        for a, t in ps:
            if r.random() < .7: ss.append(obs(I(a)))
        for _ in range(r.choice([1, 2, 3])):
            c = r.randrange(9)
            if c < 2: ss.append(obs(self.q(vs, 3)))
            elif c == 2: ss.append(obs(bin_(r.choice("+-^"), self.q(vs, 1), self.noisy_call(vs, 1, before))))
            elif c == 3: ss.append(obs(bin_(r.choice("+-^"), self.noisy_call(vs, 1, before), self.q(vs, 2))))
            elif c == 4: ss.append(if_(self.noisy_call(vs, 1, before), obs(self.q(vs, 1)), obs(self.q(vs, 1))))
            elif c == 5: ss.append(es(asg(r.choice(["", "+", "-"]), un("*", call("elem", self.q(vs, 1))), self.noisy_call(vs, 0, before) if False else self.q(vs, 2))))
            elif c == 6: ss.append(es(asg(r.choice(["", "+", "^"]), arrow(call("st", I("gt"), self.q(vs, 1)), r.choice("cau")), bin_("+", self.q(vs, 2), num(1)))))
            elif c == 7 and ps:
                a, t = r.choice(ps)
                ss.append(es(asg(r.choice(["", "+"]), I(a), bin_("+", self.q(vs, 1), num(2))))); ss.append(obs(I(a)))
            else: ss.append(es(self.noisy_call(vs, 1, before)) if before else obs(self.q(vs, 2)))
        for v in vs:
            if r.random() < .5: ss.append(obs(I(v)))
        ss.append(ret(self.q(vs, 2)))
        self.p.func(n, rt, ps, block(*ss))

def family_random(seed, count):
    progs = []
    for i in range(count):
        r = random.Random("c03/%d/%d" % (seed, i))
        c = Calls(r)
        K = r.choice([2, 3, 4])
        sigs = []
        for k in range(K):
            na = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 8])
            sigs.append(("n%d" % k, [("p%d" % j, r.choice(ATYPES)) for j in range(na)], r.choice(RTYPES)))
        order = list(range(K)); r.shuffle(order)
        if r.random() < .5:
            for n, ps, rt in sigs: c.p.fdecl(n, rt, ps)
            free = True
        else: free = False
        done = set()
        def sig_ok(k):     # undeclared functions return int
            return free or k in done or (sigs[k][2] == INT)
        late = 0
        for k in order:
            before = [(sigs[j][0], sigs[j][1]) for j in range(k) if sig_ok(j)]
            n, ps, rt = sigs[k]
            c.noisy_func(n, ps, rt, before)
            done.add(k)
        ss = [es(asg("", I("gi"), num(r.choice([0, 1, 5])))), es(asg("", I("gu"), num(r.choice(VALS)))), es(asg("", I("gc"), num(r.choice([5, -7, 127]))))]
        for j in range(8): ss.append(es(asg("", idx(I("ga"), num(j)), num(r.choice(VALS)))))
        for b in (I("gs"), idx(I("gt"), num(0)), idx(I("gt"), num(1))):
            for m, t in (("c", CHAR), ("a", INT), ("u", UINT)): ss.append(es(asg("", mem(b, m), num(fits(t, r.choice(VALS))))))
        for b in (I("gf"), idx(I("gv"), num(0)), idx(I("gv"), num(1))):
            for m in "fg": ss.append(es(asg("", mem(b, m), I(r.choice(["sub2", "add2"])))))
        for j in range(6): ss.append(es(asg("", idx(I("gb"), num(j)), num(r.choice([1, -3, 99])))))
        ss += [decl("lf", ptr(["fn", INT]), I("add2")), decl("pf", ptr(tag("#struct F")), un("&", I("gf"))), decl("m", INT, num(r.choice(VALS)))]
        for n, ps, rt in sigs:
            ss.append(obs(call(n, *[num(fits(t, r.choice(VALS))) if r.random() < .7 else castx(t, I("m")) for a, t in ps])))
        ss.append(obs(c.q(["m", "gi"], 4)))
        ss += [obs(idx(I("ga"), num(j))) for j in range(8)]
        ss.append(ret(I("m")))
        c.p.func("main", INT, [], block(*ss))
        progs.append(c.p)
    return progs

def family_recursion(seed, count):
    """recursive and mutually recursive functions with locals of all sizes, varying depth"""
    progs = []
    for i in range(count):
        r = random.Random("c03r/%d/%d" % (seed, i))
        p = Prog(); p.memsz = 12000
        p.add(gvar("depth", INT), gvar("maxd", INT), gvar("log", arr(INT, 4)))
        na = r.choice([1, 2, 3, 4, 6, 8])
        ps = [("n", INT)] + [("a%d" % j, r.choice([INT, INT, CHAR, UINT])) for j in range(na - 1)]
        K = r.choice([1, 2, 3])
        depth = r.choice([3, 10, 40, 60])
        names = ["r%d" % k for k in range(K)]
        for n in names: p.fdecl(n, INT, ps)
        for k, n in enumerate(names):
            nxt = names[(k + 1) % K]
            ss = []
            lt = r.choice([INT, CHAR, UINT])
            ss.append(decl("x", lt, bin_("+", I("n"), num(r.randrange(5)))))
            if r.random() < .5:
                ss.append(decl("v", arr(r.choice([INT, CHAR]), r.choice([1, 3, 8])))); ss.append(es(asg("", idx(I("v"), num(0)), bin_("*", I("n"), num(3))))); hv = True
            else: hv = False
            ss.append(if_(bin_("<=", I("n"), num(0)), block(obs(I(ps[-1][0])), ret(I("x")))))
            rec = call(nxt, bin_("-", I("n"), num(1)), *[r.choice([lambda: I(ps[(j + 2) % na][0]), lambda: bin_("+", I(ps[j + 1][0]), num(1)), lambda: bin_("^", I("x"), I(ps[j + 1][0])), lambda: num(r.choice(VALS))])() for j in range(na - 1)])
            form = r.randrange(6)
            if form == 0: e = rec
            elif form == 1: e = bin_("+", bin_("*", I("n"), num(2)), rec)
            elif form == 2: e = bin_("-", rec, bin_("*", I("x"), num(3)))
            elif form == 3: e = bin_("+", I("x"), bin_("^", bin_("-", I("n"), rec), I(ps[-1][0])))
            elif form == 4: e = cond(bin_("&", I("n"), num(1)), rec, bin_("+", rec, num(1)))
            else: e = comma(asg("+", I("depth"), num(1)), rec)
            ss.append(decl("res", INT, e))
            if r.random() < .5: ss.append(obs(I("x")))
            if hv: ss.append(obs(idx(I("v"), num(0))))
            ss.append(ret(bin_("+", I("res"), I(r.choice([a for a, t in ps])))))
            p.func(n, INT, ps, block(*ss))
        p.func("main", INT, [], block(decl("keep", INT, num(77)), obs(call("r0", num(depth), *[num(fits(t, r.choice(VALS))) for a, t in ps[1:]])), obs(I("keep")), obs(I("depth")), ret(num(0))))
        progs.append(p)
    return progs
