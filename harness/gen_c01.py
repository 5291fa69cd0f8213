"""Program families for C01 (expressions)."""
import random
from cast import *

BOUND = [0, 1, 2, 3, 5, 7, 8, 15, 16, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 32767, -1, -2, -3, -7, -8, -100, -127, -128,
         -129, -255, -256, -257, -1000, -4096, -32767, -32768, 12345, -12345, 0x5555, 0x1234, 513, 17, 10, 9]
CB = [0, 1, 2, 7, 10, 65, 127, -1, -2, -7, -127, -128, -65, 64]
UB = [0, 1, 2, 7, 10, 65, 127, 128, 129, 200, 254, 255]

class World:
    """A program with objects of every kind holding random boundary values, and test functions using them."""
    def __init__(self, rng, frame=0):
        self.r = rng
        self.p = Prog()
        self.p.memsz = 1400
        self.frame = frame       # extra local bytes, to move locals past the 8-bit displacement range
        r = rng
        P = self.p
        P.add(enum(("EA", r.choice(BOUND)), ("EB", None) if False else ("EB", r.choice([1, 2, 3, 77])), ("EC", -5)))
        P.add(struct("#struct S", [("a", INT), ("c", CHAR), ("u", UINT), ("d", UCHAR), ("b", INT), ("q", ptr(INT)), ("z", arr(INT, 4))]))
        P.add(struct("#union U", [("a", INT), ("c", arr(CHAR, 4))], True))
        self.strs = [P.lit(b"hello"), P.lit(bytes([200, 7, 255, 1, 0]))]
        # globals: half initialised statically
        for n, t in (("gi", INT), ("gj", INT), ("gu", UINT), ("gv", UINT), ("gc", CHAR), ("gd", UCHAR)):
            if r.random() < .4: P.add(gvar(n, t, num(self.val(t))))
            else: P.add(gvar(n, t))
        P.add(gvar("ga", arr(INT, 8)), gvar("gb", arr(CHAR, 8)), gvar("gw", arr(UINT, 4)), gvar("ge", arr(UCHAR, 4)),
              gvar("gm", arr(arr(INT, 4), 2)), gvar("gs", tag("#struct S")), gvar("gt", arr(tag("#struct S"), 2)),
              gvar("gp", ptr(INT)), gvar("gq", ptr(CHAR)), gvar("gz", tag("#union U")),
              gvar("wi", INT), gvar("wu", UINT), gvar("wc", CHAR), gvar("wd", UCHAR), gvar("wa", arr(INT, 4)), gvar("wb", arr(CHAR, 4)),
              gvar("ws", tag("#struct S")), gvar("wp", ptr(INT)), gvar("wr", ptr(CHAR)), gvar("cnt", INT), gvar("wv", arr(UINT, 4)))
        P.func("f1", INT, [("a", INT)], block(ret(bin_("+", bin_("*", ident("a"), num(3)), num(7)))))
        P.func("f2", UINT, [("a", UINT), ("b", INT)], block(ret(bin_("-", ident("a"), ident("b")))))
        P.func("fc", CHAR, [("a", INT)], block(ret(bin_("+", ident("a"), num(1)))))
        P.func("fb", UCHAR, [("a", INT)], block(ret(ident("a"))))
        P.func("fx", INT, [("a", INT)], block(ret(bin_("<", ident("a"), num(100)))))
        P.func("f0", INT, [], block(ret(num(r.choice(BOUND)))))
        P.func("fp", ptr(INT), [("i", INT)], block(ret(bin_("+", ident("ga"), bin_("&", ident("i"), num(7))))))
        P.func("f5", INT, [(x, INT) for x in "abcde"], block(ret(bin_("-", bin_("+", bin_("-", ident("a"), ident("b")), bin_("^", ident("c"), ident("d"))), ident("e")))))
        P.func("tr", INT, [("a", INT)], block(obs(bin_("+", ident("a"), num(1))), ret(ident("a"))))
        self.tests = []
        self.nt = 0
    def val(self, t):
        return self.r.choice(CB if t == CHAR else UB if t == UCHAR else BOUND)
    def setup_globals(self):
        r = self.r; ss = []
        def s(l, t): ss.append(es(asg("", l, num(self.val(t)))))
        for n, t in (("gi", INT), ("gj", INT), ("gu", UINT), ("gv", UINT), ("gc", CHAR), ("gd", UCHAR)): s(ident(n), t)
        for i in range(8): s(idx(ident("ga"), num(i)), INT); s(idx(ident("gb"), num(i)), CHAR)
        for i in range(4): s(idx(ident("gw"), num(i)), UINT); s(idx(ident("ge"), num(i)), UCHAR)
        for i in range(2):
            for j in range(4): s(idx(idx(ident("gm"), num(i)), num(j)), INT)
        for b in (ident("gs"), idx(ident("gt"), num(0)), idx(ident("gt"), num(1))):
            for m, t in (("a", INT), ("c", CHAR), ("u", UINT), ("d", UCHAR), ("b", INT)): s(mem(b, m), t)
            ss.append(es(asg("", mem(b, "q"), un("&", idx(ident("ga"), num(r.randrange(8)))))))
            for j in range(4): s(idx(mem(b, "z"), num(j)), INT)
        ss.append(es(asg("", ident("gp"), bin_("+", ident("ga"), num(2)))))
        ss.append(es(asg("", ident("gq"), un("&", idx(ident("gb"), num(1))))))
        s(mem(ident("gz"), "a"), INT); s(idx(mem(ident("gz"), "c"), num(2)), CHAR); s(idx(mem(ident("gz"), "c"), num(3)), CHAR)
        ss.append(es(asg("", ident("wp"), ident("wa")))); ss.append(es(asg("", ident("wr"), ident("wb"))))
        return ss
    def local_decls(self):
        """declarations (with initial values) of the locals of a test function"""
        r = self.r; d = []
        if self.frame: d.append(decl("big", arr(CHAR, self.frame)))
        for n, t in (("li", INT), ("lj", INT), ("lu", UINT), ("lc", CHAR), ("ld", UCHAR)):
            d.append(decl(n, t, num(self.val(t))))
        d += [decl("la", arr(INT, 4)), decl("lb", arr(CHAR, 4)), decl("ls", tag("#struct S")),
              decl("lp", ptr(INT), un("&", idx(ident("la"), num(1)))), decl("lq", ptr(CHAR), ident("lb")),
              decl("ps", ptr(tag("#struct S")), un("&", ident("gs"))), decl("pt", ptr(tag("#struct S")), ident("gt")),
              decl("pp", ptr(ptr(INT)), un("&", ident("gp"))),
              decl("xi", INT, num(0)), decl("xu", UINT, num(0)), decl("xc", CHAR, num(0)), decl("xd", UCHAR, num(0)),
              decl("xp", ptr(INT), un("&", idx(ident("wa"), num(1)))), decl("xq", ptr(CHAR), un("&", idx(ident("wb"), num(1)))),
              decl("xs", ptr(tag("#struct S")), un("&", ident("ws"))), decl("xa", arr(INT, 4))]
        for i in range(4):
            d.append(es(asg("", idx(ident("la"), num(i)), num(self.val(INT)))))
            d.append(es(asg("", idx(ident("lb"), num(i)), num(self.val(CHAR)))))
            d.append(es(asg("", idx(ident("xa"), num(i)), num(0))))
        for m, t in (("a", INT), ("c", CHAR), ("u", UINT), ("d", UCHAR), ("b", INT)):
            d.append(es(asg("", mem(ident("ls"), m), num(self.val(t)))))
        d.append(es(asg("", mem(ident("ls"), "q"), bin_("+", ident("ga"), num(3)))))
        for j in range(4): d.append(es(asg("", idx(mem(ident("ls"), "z"), num(j)), num(self.val(INT)))))
        return d
    def test(self, stmts):
        self.nt += 1
        n = "t%d" % self.nt
        self.p.func(n, INT, [("ai", INT), ("au", UINT), ("ac", CHAR), ("ap", ptr(INT))],
                    block(*self.local_decls(), *stmts, ret(num(0))))
        self.tests.append(n)
    def done(self, main_extra=()):
        r = self.r
        ss = self.setup_globals()
        for n in self.tests:
            ss.append(es(call(n, num(self.val(INT)), num(self.val(INT)), num(self.val(CHAR)), bin_("+", ident("ga"), num(r.randrange(4))))))
        self.p.func("main", INT, [], block(*ss, *main_extra, ret(num(r.randrange(200)))))
        return self.p

    # ---- atoms: ways to denote an arithmetic value ------------------------------
    def atoms(self):
        r = self.r
        I = ident
        c = lambda k: num(r.randrange(k))
        return [
            lambda: num(r.choice(BOUND)), lambda: num(r.choice([0, 1, 2, 4, 8, 10, 255, 256, -1])), lambda: I(r.choice(["EA", "EB", "EC"])),
            lambda: I("gi"), lambda: I("gj"), lambda: I("gu"), lambda: I("gv"), lambda: I("gc"), lambda: I("gd"),
            lambda: I("li"), lambda: I("lj"), lambda: I("lu"), lambda: I("lc"), lambda: I("ld"),
            lambda: I("ai"), lambda: I("au"), lambda: I("ac"),
            lambda: idx(I("ga"), c(8)), lambda: idx(I("gb"), c(8)), lambda: idx(I("gw"), c(4)), lambda: idx(I("ge"), c(4)),
            lambda: idx(I("la"), c(4)), lambda: idx(I("lb"), c(4)), lambda: idx(idx(I("gm"), c(2)), c(4)),
            lambda: mem(I("gs"), r.choice("acudb")), lambda: mem(I("ls"), r.choice("acudb")), lambda: arrow(I("ps"), r.choice("acudb")),
            lambda: idx(mem(I("gs"), "z"), c(4)), lambda: idx(mem(I("ls"), "z"), c(4)), lambda: idx(arrow(I("ps"), "z"), c(4)),
            lambda: mem(idx(I("gt"), c(2)), r.choice("acudb")), lambda: arrow(bin_("+", I("pt"), c(2)), r.choice("acudb")),
            lambda: un("*", I("gp")), lambda: un("*", I("lp")), lambda: un("*", I("gq")), lambda: un("*", I("lq")),
            lambda: idx(I("gp"), c(4)), lambda: idx(I("ap"), c(4)), lambda: un("*", mem(I("ls"), "q")), lambda: un("*", arrow(I("ps"), "q")),
            lambda: un("*", un("*", I("pp"))), lambda: idx(self.strs[0], c(6)), lambda: idx(self.strs[1], c(5)),
            lambda: mem(I("gz"), "a"), lambda: idx(mem(I("gz"), "c"), c(4)),
        ]
    def kinds(self):
        """operand kinds for the systematic part: name -> (maker, constant?)"""
        r = self.r; I = ident
        k = {}
        k["cs"] = (lambda: num(r.choice([1, 2, 3, 5, 7, 10, 100])), 1)
        k["c0"] = (lambda: num(0), 1)
        k["cp2"] = (lambda: num(r.choice([2, 4, 8, 16, 64, 256])), 1)
        k["cb"] = (lambda: num(r.choice([-1, -2, -128, 255, 256, 32767, -32768, 1000])), 1)
        k["gi"] = (lambda: I(r.choice(["gi", "gj"])), 0); k["gu"] = (lambda: I(r.choice(["gu", "gv"])), 0)
        k["gc"] = (lambda: I("gc"), 0); k["gd"] = (lambda: I("gd"), 0)
        k["li"] = (lambda: I(r.choice(["li", "lj"])), 0); k["lu"] = (lambda: I("lu"), 0)
        k["lc"] = (lambda: I("lc"), 0); k["ld"] = (lambda: I("ld"), 0)
        k["pi"] = (lambda: I("ai"), 0); k["pc"] = (lambda: I("ac"), 0)
        k["gac"] = (lambda: idx(I("ga"), num(r.randrange(8))), 0)
        k["gav"] = (lambda: idx(I("ga"), bin_("&", I(r.choice(["li", "gi", "lc"])), num(7))), 0)
        k["lac"] = (lambda: idx(I("la"), num(r.randrange(4))), 0)
        k["lav"] = (lambda: idx(I("la"), bin_("&", I(r.choice(["lj", "gj", "gd"])), num(3))), 0)
        k["gbv"] = (lambda: idx(I("gb"), bin_("&", I(r.choice(["li", "gu"])), num(7))), 0)
        k["gs"] = (lambda: mem(I("gs"), r.choice("acudb")), 0); k["ls"] = (lambda: mem(I("ls"), r.choice("acudb")), 0)
        k["ps"] = (lambda: arrow(I("ps"), r.choice("acudb")), 0)
        k["dp"] = (lambda: un("*", I(r.choice(["gp", "lp", "ap"]))), 0); k["dq"] = (lambda: un("*", I(r.choice(["gq", "lq"]))), 0)
        k["call"] = (lambda: call("f1", I(r.choice(["li", "gi", "lc"]))), 0)
        k["callc"] = (lambda: call(r.choice(["fc", "fb"]), I(r.choice(["li", "gi"]))), 0)
        k["neg"] = (lambda: un(r.choice("-~"), I(r.choice(["li", "gi", "gc", "lu"]))), 0)
        k["not"] = (lambda: un("!", I(r.choice(["li", "gi", "gc", "lu"]))), 0)
        k["rel"] = (lambda: bin_(r.choice(["<", ">", "<=", ">=", "==", "!="]), I(r.choice(["li", "gi", "lu"])), I(r.choice(["lj", "gc"]))), 0)
        k["add"] = (lambda: bin_(r.choice("+-"), I(r.choice(["li", "gi", "lu"])), I(r.choice(["lj", "gc"]))), 0)
        k["mul"] = (lambda: bin_(r.choice(["*", "&", "|", "^"]), I(r.choice(["li", "gi", "lu"])), I(r.choice(["lj", "gc"]))), 0)
        k["cast"] = (lambda: castx(r.choice([CHAR, UCHAR, UINT, INT]), I(r.choice(["li", "gi", "lu", "gc"]))), 0)
        k["log"] = (lambda: r.choice([and_, or_])(I(r.choice(["li", "gi"])), I(r.choice(["lj", "gc"]))), 0)
        k["cond"] = (lambda: cond(I(r.choice(["li", "gc", "lu"])), I(r.choice(["lj", "gu"])), num(r.choice([1, 5, -3]))), 0)
        k["asg"] = (lambda: asg("", I(r.choice(["wi", "xi", "wc", "xu"])), I(r.choice(["li", "gi"]))), 0)
        k["inc"] = (lambda: inc(r.choice([1, -1]), r.random() < .5, I(r.choice(["wi", "xi", "wc", "xd"]))), 0)
        k["comma"] = (lambda: comma(asg("", I("wi"), num(3)), I(r.choice(["li", "gi"]))), 0)
        k["sz"] = (lambda: sizee(I(r.choice(["ga", "li", "gs"]))), 1)
        return k

BINOPS = ["+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|", "<", "<=", ">", ">=", "==", "!="]
REL = ["<", "<=", ">", ">=", "==", "!="]

def is_const(e):
    k = e["k"]
    if k in ("num", "sizet", "sizee"): return True
    if k == "id": return e["n"] in ("EA", "EB", "EC")
    if k == "un": return e["op"] in "+-~!" and is_const(e["e"])
    if k == "bin": return is_const(e["l"]) and is_const(e["r"])
    return False
def is_bool(e):
    """the compiler may have this value in a condition code: - ~ and compound assignments do not take it"""
    k = e["k"]
    if k == "bin": return e["op"] in REL
    if k in ("and", "or"): return True
    if k == "un": return e["op"] == "!" or (e["op"] == "+" and is_bool(e["e"]))
    if k == "comma": return is_bool(e["r"])
    return False
def writes(e, acc=None):
    """names written by e"""
    if acc is None: acc = set()
    if e["k"] in ("asg", "inc"):
        acc.add(repr(e.get("l", e["e"] if "e" in e else None)))
    for x in e.values():
        if isinstance(x, dict): writes(x, acc)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, dict): writes(y, acc)
    return acc
def reads(e, acc=None):
    """identifiers mentioned by e"""
    if acc is None: acc = []
    if e["k"] == "id": acc.append(e["n"])
    for x in e.values():
        if isinstance(x, dict): reads(x, acc)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, dict): reads(y, acc)
    return acc
WNAMES = {"wi", "wu", "wc", "wd", "wa", "wb", "ws", "wp", "wr", "xi", "xu", "xc", "xd", "xp", "xq", "xs", "xa", "wv"}
def conflict(l, r):
    """l and r unsequenced: does one write what the other mentions?"""
    a = WNAMES & set(reads(l)); b = WNAMES & set(reads(r))
    if not (writes(l) or writes(r)): return False
    alias = {"wp": "wa", "xp": "wa", "wr": "wb", "xq": "wb", "xs": "ws"}
    a |= {alias[x] for x in a if x in alias}; b |= {alias[x] for x in b if x in alias}
    return bool(a & b)

def safe_bin(w, op, l, r):
    """a binary expression without undefined or unsupported cases, or None"""
    if conflict(l, r): return None
    cl, cr = is_const(l), is_const(r)
    if op in REL and cl and cr: return None      # not supported by the compiler
    if r["k"] == "comma" and is_const(r["r"]): return None   # likewise
    if op in ("/", "%"):
        if cr:
            if cval(r) == 0: return None
            if cval(r) == -1 and not cl: return None
        else: r = bin_("|", r, num(1))
    if op in ("<<", ">>"):
        if cr:
            if not 0 <= cval(r) <= 15: r = num(w.r.randrange(16))
        else: r = bin_("&", r, num(w.r.choice([15, 7, 3])))
    return bin_(op, l, r)

CONSTS = {}
def cval(e):
    k = e["k"]
    if k == "num": return (e["v"] + 32768) % 65536 - 32768
    if k == "un":
        v = cval(e["e"])
        v = {"-": -v, "+": v, "~": ~v, "!": int(not v)}[e["op"]]
        return (v + 32768) % 65536 - 32768
    return 1 if k != "bin" else 3

def contexts(w, e):
    """ways to use the value of e: list of statements"""
    r = w.r; I = ident
    c = r.randrange(22)
    if e["k"] == "comma" and is_const(e["r"]): c = 0
    if c < 5: return [obs(e)]
    if c == 5: return [if_(e, obs(num(1)), obs(num(2)))]
    if c == 6 and not is_const(e): return [if_(un("!", e), obs(num(1)), obs(num(2)))]
    if c == 7:
        t = [x for x in ["wi", "wu", "wc", "wd", "xi", "xu", "xc", "xd"] if x not in reads(e)]
        v = r.choice(t)
        return [es(asg("", I(v), e)), obs(I(v))]
    if c == 8: return [obs(cond(e, num(r.choice(BOUND)), I("li")))] if not is_const(e) else [obs(e)]
    if c == 9: return [obs(call("f2", e, num(r.choice(BOUND))))]
    if c == 10: return [obs(idx(I("ga"), bin_("&", e, num(7))))]
    if c == 11: return [obs(bin_(r.choice("+-^"), I(r.choice(["gj", "li", "lc", "gv"])), e))]
    if c == 12: return [obs(bin_(r.choice("+-^"), e, I(r.choice(["gj", "li", "lc", "gv"]))))]
    if c == 13 and not is_const(e): return [obs(and_(e, I(r.choice(["gj", "li"]))))]
    if c == 14 and not is_const(e): return [obs(or_(e, I(r.choice(["gj", "li"]))))]
    if c == 15 and not is_const(e): return [if_(and_(I(r.choice(["gj", "li"])), e), obs(num(3)), obs(num(4)))]
    if c == 16 and not is_const(e): return [if_(or_(I(r.choice(["gj", "li"])), e), obs(num(3)), obs(num(4)))]
    if c == 17:
        w.nt += 1
        n = "v%d" % w.nt
        return [block(decl(n, r.choice([INT, UINT, CHAR, UCHAR]), e), obs(I(n)))]
    if c == 18: return [es(asg("", idx(I("xa"), num(2)), e)), obs(idx(I("xa"), num(2)))] if "xa" not in reads(e) else [obs(e)]
    if c == 19: return [obs(castx(r.choice([CHAR, UCHAR, UINT, INT]), e))]
    if c == 20: return [obs(call("f5", num(1), e, I("li"), num(-7), I("gu")))]
    return [obs(e)]

def family_pairs(seed, part, parts):
    """every operator x operand kind x operand kind, in varying contexts"""
    rng = random.Random("c01pairs%d" % seed)
    combos = []
    w0 = World(random.Random(0))
    ks = list(w0.kinds())
    for op in BINOPS + ["&&", "||", ","]:
        for a in ks:
            for b in ks: combos.append((op, a, b))
    for op in ("+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|", ""):
        for lv in range(19):
            for b in ks: combos.append(("@" + op, lv, b))
    rng.shuffle(combos)
    n = len(combos)
    combos = combos[n * part // parts: n * (part + 1) // parts]
    progs = []
    per = 36
    for s in range(0, len(combos), per):
        r = random.Random("%d/%d/%d" % (seed, part, s))
        w = World(r, r.choice([0, 0, 90, 140]))
        ks = w.kinds()
        st = []
        for i, (op, a, b) in enumerate(combos[s:s + per]):
            if op[0] == "@":
                st += compound(w, op[1:], a, ks[b][0]())
            else:
                x, y = ks[a][0](), ks[b][0]()
                if op in ("&&", "||"):
                    e = (and_ if op == "&&" else or_)(x, y)
                elif op == ",": e = comma(x, y)
                else:
                    e = safe_bin(w, op, x, y)
                if e is None: continue
                st += contexts(w, e)
            if i % 18 == 17:
                w.test(st); st = []
        if st: w.test(st)
        progs.append(w.done())
    return progs

def lvalues(w):
    r = w.r; I = ident
    return [I("wi"), I("wu"), I("wc"), I("wd"), I("xi"), I("xc"), idx(I("wa"), num(r.randrange(4))),
            idx(I("wb"), bin_("&", I("li"), num(3))), mem(I("ws"), r.choice("acudb")), arrow(I("xs"), r.choice("acudb")),
            un("*", I("xp")), un("*", I("wr")), I("xu"), I("xd"), idx(I("xa"), bin_("&", I("gi"), num(3))),
            idx(I("wv"), num(r.randrange(4))), idx(mem(I("ws"), "z"), num(r.randrange(4))), un("*", bin_("+", I("wp"), num(r.randrange(3)))), idx(I("xq"), num(1))]

def compound(w, op, li, rhs):
    r = w.r
    L = lvalues(w)
    l = L[li]
    if conflict(asg("", l, num(0)), rhs): return []
    if op and is_bool(rhs):
        rhs = bin_("+", rhs, ident("lj"))
    if op in ("/", "%"):
        if is_const(rhs):
            if cval(rhs) in (0, -1): rhs = num(r.choice([3, 10, -7, 16]))
        else: rhs = bin_("|", rhs, num(1))
    if op in ("<<", ">>"):
        rhs = num(r.randrange(16)) if is_const(rhs) else bin_("&", rhs, num(r.choice([15, 7])))
    t = None
    pre = [es(asg("", l, num(r.choice(BOUND))))]
    e = asg(op, l, rhs)
    c = r.randrange(6)
    if c < 3: return pre + [es(e), obs(l)]
    if c == 3: return pre + [obs(e), obs(l)]
    if c == 4: return pre + [if_(e, obs(num(1)), obs(num(2))), obs(l)]
    return pre + [obs(bin_(r.choice("+-|"), ident("li"), e)), obs(l)]

class ExprGen:
    """random expressions; imp: this subexpression may have side effects"""
    def __init__(self, w):
        self.w = w; self.r = w.r
        self.at = w.atoms()
        self.free = None
    def full(self, d):
        self.free = ["wi", "wu", "wc", "wd", "xi", "xu", "xc", "xd", "wa", "wb", "ws", "xa"]
        self.r.shuffle(self.free)
        return self.e(d, True)
    def target(self):
        """an lvalue not used elsewhere in this expression"""
        if not self.free: return None
        n = self.free.pop()
        I = ident; r = self.r
        if n == "wa": return r.choice([lambda: idx(I("wa"), num(r.randrange(4))), lambda: un("*", I("xp")), lambda: idx(I("wp"), bin_("&", I("li"), num(3)))])()
        if n == "wb": return r.choice([lambda: idx(I("wb"), num(r.randrange(4))), lambda: un("*", I("xq")), lambda: idx(I("wr"), bin_("&", I("gj"), num(3)))])()
        if n == "ws": return r.choice([lambda: mem(I("ws"), r.choice("acudb")), lambda: arrow(I("xs"), r.choice("acudb")), lambda: idx(arrow(I("xs"), "z"), num(r.randrange(4)))])()
        if n == "xa": return idx(I("xa"), bin_("&", I("gi"), num(3)))
        return I(n)
    def pexpr(self, d):
        """a pointer to int, valid for reading at [0..3]"""
        r = self.r; I = ident
        c = r.randrange(7)
        if c == 0: return bin_("+", I("ga"), bin_("&", self.e(d - 1, False), num(3)))
        if c == 1: return un("&", idx(I("ga"), bin_("&", self.e(d - 1, False), num(3))))
        if c == 2: return cond(self.e(d - 1, False, nc=True), I("gp"), I("ap"))
        if c == 3: return call("fp", bin_("&", self.e(d - 1, False), num(3)))
        if c == 4: return bin_("-", bin_("+", I("gp"), num(2)), num(r.randrange(3)))
        if c == 5: return I(r.choice(["gp", "ap", "la"]))
        return bin_("+", bin_("&", self.e(d - 1, False), num(3)), I("ga"))
    def e(self, d, imp, nc=False):
        """nc: must not be constant"""
        r = self.r; w = self.w
        for _ in range(50):
            x = self.e0(d, imp)
            if x is None: continue
            if nc and is_const(x): continue
            return x
        return ident("li")
    def e0(self, d, imp):
        r = self.r; w = self.w; I = ident
        if d <= 0: return r.choice(self.at)()
        c = r.randrange(100)
        if c < 10: return r.choice(self.at)()
        if c < 45:
            op = r.choice(BINOPS)
            side = r.random() < .5
            l = self.e(d - 1, imp and side); rr = self.e(d - 1, imp and not side)
            return safe_bin(w, op, l, rr)
        if c < 53: return (and_ if r.random() < .5 else or_)(self.e(d - 1, imp, True), self.e(d - 1, imp, True))
        if c < 60:
            cc = self.e(d - 1, imp, True)
            return cond(cc, self.e(d - 1, imp), self.e(d - 1, imp))
        if c < 67:
            x = self.e(d - 1, imp)
            return un("!" if is_bool(x) else r.choice("-~!+"), x)
        if c < 71: return castx(r.choice([CHAR, UCHAR, UINT, INT]), self.e(d - 1, imp))
        if c < 75: return idx(self.pexpr(d - 1), num(r.randrange(4)))
        if c < 78: return un("*", self.pexpr(d - 1))
        if c < 80:
            op = r.choice(["==", "!=", "<", "<=", ">", ">=", "-"])
            a, b = [r.choice([lambda: bin_("+", I("ga"), num(r.randrange(6))), lambda: I("gp"), lambda: un("&", idx(I("ga"), bin_("&", self.e(d - 1, False), num(7))))])() for _ in range(2)]
            return bin_(op, a, b)
        if c < 86:
            f = r.choice(["f1", "fc", "fb", "fx", "f2", "f5", "f0"])
            na = {"f2": 2, "f5": 5, "f0": 0}.get(f, 1)
            k = r.randrange(na) if na else 0
            return call(f, *[self.e(d - 1, imp and i == k) for i in range(na)])
        if c < 88: return sizee(r.choice(self.at)()) if r.random() < .5 else sizet(r.choice([INT, CHAR, ptr(CHAR), tag("#struct S"), arr(INT, 5)]))
        if not imp: return r.choice(self.at)()
        if c < 90: return call("tr", self.e(d - 1, False))
        t = self.target()
        if t is None: return r.choice(self.at)()
        if c < 94: return inc(r.choice([1, -1]), r.random() < .5, t)
        if c < 97: return asg("", t, self.e(d - 1, imp))
        if c < 98: return comma(asg("", t, self.e(d - 1, imp)), bin_(r.choice("+-&"), t, self.e(d - 1, False)))
        op = r.choice(["+", "-", "*", "&", "|", "^", "<<", ">>", "/", "%"])
        rhs = self.e(d - 1, imp)
        if op in ("/", "%"): rhs = num(r.choice([3, 10, -7, 16, 1])) if is_const(rhs) else bin_("|", rhs, num(1))
        elif op in ("<<", ">>"): rhs = num(r.randrange(16)) if is_const(rhs) else bin_("&", rhs, num(15))
        elif not is_const(rhs): rhs = bin_("+", rhs, I("li"))
        return asg(op, t, rhs)

def family_random(seed, count, depth=(2, 4), per=6):
    progs = []
    for i in range(count):
        r = random.Random("c01rand/%d/%d" % (seed, i))
        w = World(r, r.choice([0, 0, 0, 60, 100, 140, 200]))
        g = ExprGen(w)
        st = []
        for j in range(per):
            e = g.full(r.randint(*depth))
            st += contexts(w, e) if not writes(e) else r.choice([lambda: [obs(e)], lambda: [if_(e, obs(num(1)), obs(num(0)))], lambda: [es(e)]])()
            if writes(e):
                for v in ["wi", "wu", "wc", "wd", "xi", "xu", "xc", "xd"]:
                    if v in reads(e): st.append(obs(ident(v)))
                for k, v in (("wa", 4), ("wb", 4), ("xa", 4)):
                    st += [obs(idx(ident(k), num(z))) for z in range(v)] if k in reads(e) or (k == "wa" and ("xp" in reads(e) or "wp" in reads(e))) or (k == "wb" and ("xq" in reads(e) or "wr" in reads(e))) else []
                if "ws" in reads(e) or "xs" in reads(e): st += [obs(mem(ident("ws"), m)) for m in "acudb"]
            if r.random() < .3 or j == per - 1:
                w.test(st); st = []
        progs.append(w.done())
    return progs


def family_incdec(seed, rounds=1):
    """++ and -- on every type x storage x form x context, from boundary values"""
    progs = []
    I = ident
    TS = [(INT, BOUND), (UINT, BOUND), (CHAR, CB), (UCHAR, UB), (ptr(INT), [100, 255, 256, 32766]), (ptr(CHAR), [100, 255, 256, 32766]),
          (ptr(tag("#struct S")), [300, 512]), (ptr(UCHAR), [0, 255])]
    for rd in range(rounds):
        for ti, (t, vals) in enumerate(TS):
            r = random.Random("inc%d/%d/%d" % (seed, rd, ti))
            p = Prog(); p.memsz = 1400
            p.add(struct("#struct S", [("p", arr(CHAR, r.choice([1, 3]))), ("m", t), ("n", arr(t, 3)), ("w", arr(CHAR, r.choice([0, 0, 120, 126, 127, 128, 140]) + 1))]))
            p.add(gvar("g", t), gvar("ga", arr(t, 4)), gvar("gs", tag("#struct S")), gvar("gp", ptr(t)), gvar("gq", ptr(tag("#struct S"))), gvar("o", INT))
            p.add(gvar("gg", t, num(r.choice(vals)) if t[0] != "ptr" else None))
            k = r.randrange(3)
            lvs = [I("g"), I("gg"), I("l"), I("f"), I("st"), idx(I("ga"), num(2)), idx(I("la"), num(1)), idx(I("ga"), I("k")), idx(I("la"), I("k")), mem(I("gs"), "m"),
                   mem(I("ls"), "m"), idx(mem(I("gs"), "n"), num(2)), idx(mem(I("ls"), "n"), I("k")), arrow(I("gq"), "m"), arrow(I("lq"), "m"), un("*", I("gp")),
                   un("*", I("lp")), idx(I("lp"), num(1)), un("*", bin_("+", I("gp"), I("k"))), idx(arrow(I("lq"), "n"), num(k)), I("a")]
            tests = []
            for i, lv in enumerate(lvs):
                for d in (1, -1):
                    for pre in (True, False):
                        v = r.choice(vals)
                        e = inc(d, pre, lv)
                        ss = [es(asg("", lv, castx(t, num(v)) if t[0] == "ptr" else num(v)))]
                        c = r.randrange(9)
                        if t[0] == "ptr":
                            c = r.choice([0, 0, 3, 4])
                            ov = lambda x: castx(INT, x)
                        else: ov = lambda x: x
                        if c == 0: ss += [obs(ov(e))]
                        elif c == 1: ss += [obs(bin_(r.choice("+-^&|"), I("k"), e))]
                        elif c == 2: ss += [obs(bin_(r.choice(["+", "-", "<", ">", "==", "*", "/", "%"]), e, num(r.choice([3, 10, 128, 200, 1]))))]
                        elif c == 3: ss += [es(e)]
                        elif c == 4: ss += [if_(e, obs(num(1)), obs(num(2)))]
                        elif c == 5: ss += [es(asg("", I("o"), e)), obs(I("o"))]
                        elif c == 6: ss += [obs(cond(bin_("<", e, num(r.choice([0, 1, 127, 128]))), num(5), num(6)))]
                        elif c == 7: ss += [obs(un(r.choice("-~"), e))]
                        else: ss += [obs(call("h", e, I("k")))]
                        tests.append(ss + [obs(ov(lv))])
            p.func("h", INT, [("x", INT), ("y", INT)], block(ret(bin_("-", I("x"), I("y")))))
            r.shuffle(tests)
            names = []
            for j in range(0, len(tests), 14):
                fr = r.choice([0, 0, 100, 126, 127, 128])
                body = [decl("k", INT, num(k)), decl("l", t)] + ([decl("pad", arr(CHAR, fr))] if fr else []) + [decl("f", t), decl("st", t, static=True), decl("la", arr(t, 4)), decl("ls", tag("#struct S")),
                        decl("lp", ptr(t), I("la")), decl("lq", ptr(tag("#struct S")), un("&", I("ls"))), es(asg("", I("gp"), I("ga"))), es(asg("", I("gq"), un("&", I("gs"))))]
                for x in tests[j:j + 14]: body += x
                names.append("t%d" % j)
                p.func("t%d" % j, INT, [("a", t)], block(*body, ret(I("k"))))
            p.func("main", INT, [], block(*[es(call(x, castx(t, num(7)) if t[0] == "ptr" else num(7))) for x in names], ret(num(0))))
            progs.append(p)
    return progs

def family_consts(seed, part, parts):
    """operators with constant operands from a dense set around every encoding boundary"""
    dense = list(range(-5, 20)) + [30, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 511, 512, 1023, 1024, 4095, 4096, 16383, 16384, 32766, 32767,
                                   -126, -127, -128, -129, -130, -255, -256, -257, -32767, -32768, 65535, 65534, 65408, 40000, 32768]
    r = random.Random("c01c%d" % seed)
    I = ident
    combos = []
    for op in BINOPS:
        for c in dense:
            v = (c + 32768) % 65536 - 32768
            if op in ("/", "%") and v == 0: continue
            if op in ("<<", ">>"):
                if not 0 <= v <= 15: continue
            for form in range(4): combos.append((op, c, form))
    r.shuffle(combos)
    combos = combos[part::parts]
    progs = []
    per = 100
    for s in range(0, len(combos), per):
        p = Prog(); p.memsz = 1200
        p.add(gvar("gi", INT), gvar("gu", UINT), gvar("gc", CHAR), gvar("gd", UCHAR), gvar("ga", arr(INT, 4)), gvar("o", INT))
        names = []
        for j in range(s, min(s + per, len(combos)), 25):
            big = r.choice([0, 0, 110])
            body = [decl("li", INT, num(r.randrange(4))), decl("lu", UINT), decl("lc", CHAR), decl("ld", UCHAR)] + ([decl("pad", arr(CHAR, big))] if big else []) + [decl("la", arr(INT, 3)), decl("lp", ptr(INT), I("la"))]
            for op, c, form in combos[j:j + 25]:
                C = num((c + 32768) % 65536 - 32768, None)
                lv, vs = r.choice([(I("gi"), BOUND), (I("gu"), BOUND), (I("gc"), CB), (I("gd"), UB), (I("li"), BOUND), (I("lu"), BOUND), (I("lc"), CB), (I("ld"), UB),
                                   (idx(I("ga"), num(1)), BOUND), (idx(I("la"), num(2)), BOUND), (un("*", I("lp")), BOUND), (idx(I("ga"), bin_("&", I("li"), num(3))), BOUND)])
                v = r.choice(vs)
                k = (c + 32768) % 65536 - 32768
                if op in ("/", "%") and k == -1: v = 77
                body.append(es(asg("", lv, num(v))))
                cmp_ = op in ("<", ">", "<=", ">=", "==", "!=")
                if form == 0 or form == 3: e = bin_(op, lv, C)
                elif form == 1 and op not in ("<<", ">>", "/", "%"): e = bin_(op, C, lv)
                elif form == 2 and not cmp_: e = asg(op, lv, C)
                else: e = bin_(op, lv, C)
                x = r.randrange(4)
                if x == 0: body += [es(asg("", I("o"), e)), obs(I("o"))]
                elif x == 1: body += [if_(e, obs(num(1)), obs(num(2)))]
                elif x == 2 and not cmp_: body.append(obs(bin_(r.choice("+^"), e, I("o"))))
                else: body.append(obs(e))
                if form == 2: body.append(obs(lv))
            names.append("t%d" % j)
            p.func("t%d" % j, VOID, [], block(*body))
        p.func("main", INT, [], block(*[es(call(x)) for x in names], ret(num(0))))
        progs.append(p)
    return progs
