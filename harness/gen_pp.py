"""Source files for the preprocessor (P01-P04)."""
import random
from pp import Case

# ---- rendering -------------------------------------------------------------------------------------------------
COMMENTS = ["/**/", "/* c */", "/* \" */", "/* ' */", "/* // */", "/***/", "/* /* */", "/* * / */", "/*/*/", "/* a*b **/"]
def ws(r, nl=False, p=.25):
    """white space of some kind, never empty"""
    if r.random() > p: return " "
    k = r.randrange(6)
    if k == 0: return "\t"
    if k == 1: return "  "
    if k == 2: return r.choice(COMMENTS)
    if k == 3: return " " + r.choice(COMMENTS)
    if k == 4: return "\v" if not nl else "\n"
    return r.choice(COMMENTS) + " " if not nl else "/* two\nlines */"

def splice(r, s, p):
    """inserts line splices"""
    o = []
    for i, c in enumerate(s):
        if r.random() < p and c != "\r": o.append("\\\n")
        o.append(c)
    return "".join(o)

def pad(r, n):
    """n characters that produce no tokens and no lines of importance"""
    if n <= 0: return ""
    k = r.randrange(3)
    if k == 0 and n >= 5: return "/*" + "p" * (n - 5) + "*/\n"
    if k == 1: return "\n" * n
    return " " * (n - 1) + "\n"

def finish(r, s, eol=None, p_splice=None):
    if p_splice is None: p_splice = r.choice([0, 0, 0, .01, .05])
    if p_splice: s = splice(r, s, p_splice)
    if s.endswith("\n") and r.random() < .15: s = s[:-1]
    if (r.random() < .3 if eol is None else eol == "\r\n"): s = s.replace("\n", "\r\n")
    return s

def at_boundary(r, s):
    """moves s so that some character of it lies at the end of a read buffer"""
    k = r.randrange(len(s) + 1)
    n = 511 * r.randint(1, 2) - k + r.randint(-1, 1)
    return (pad(r, n) if n > 0 else "") + s

# ---- P01: macros -------------------------------------------------------------------------------------------------
PLAIN = ["x", "y", "zz", "1", "23", "0x1f", "+", "-", "*", ";", "[", "]", "==", "<<", "->", "\"s\"", "\"a\\\"b\"", "'c'", "'\\''", "++", "&&", "\"//\"", "\"/*\"", "."]
class Mac:
    def __init__(self, name, params): self.name = name; self.params = params   # None: object-like

def arg(r, macs, d, simple=False):
    if simple: return r.choice(["x", "q1", "7", "", "A", "f", "12", "y"])
    k = r.random()
    if k < .1: return ""
    n = r.randint(1, 3)
    return " ".join(item(r, macs, d + 1) for _ in range(n))

def call(r, macs, m, d, nl=False):
    n = len(m.params)
    args = [arg(r, macs, d, getattr(m, "paste", False)) for _ in range(n)]
    if n == 0 and r.random() < .2: args = [" "]
    pre = ws(r, nl) if r.random() < .25 else ""
    sep = lambda: r.choice([",", ", ", " ,", ws(r, nl) + "," + ws(r, nl)])
    o = m.name + pre + "(" + (ws(r, nl) if r.random() < .2 else "")
    for i, a in enumerate(args):
        if i: o += sep()
        o += a
    return o + (ws(r, nl) if r.random() < .2 else "") + ")"

def item(r, macs, d, params=(), nl=False):
    k = r.random()
    if params and k < .35: return r.choice(params)
    if macs and k < .65 and d < 3:
        m = r.choice(macs)
        if m.params is None: return m.name
        if r.random() < .15: return m.name
        return call(r, macs, m, d, nl)
    if k < .75 and d < 3:
        return "(" + " ".join(item(r, macs, d + 1, params, nl) for _ in range(r.randint(0, 3))) + (", x" if r.random() < .3 else "") + ")"
    return r.choice(PLAIN)

def define(r, m, body):
    o = "#" + (ws(r) if r.random() < .1 else "") + "define" + ws(r) + m.name
    if m.params is not None: o += "(" + r.choice([",", ", ", " , "]).join(m.params) + ")"
    if body: o += (ws(r) if m.params is None or r.random() < .8 else "") + body
    if r.random() < .1: o += " // comment"
    return o + "\n"

def body_for(r, m, macs, idx):
    params = m.params or ()
    n = r.choice([0, 1, 1, 2, 2, 3, 4])
    refs = macs[:idx] if r.random() < .8 else macs
    return " ".join(item(r, refs, 1 if idx < 3 else 2, params) for _ in range(n))

def paste_body(r, m):
    """pastes that always form one token: an identifier to the left"""
    ps = m.params; o = []
    for _ in range(r.randint(1, 2)):
        k = r.randrange(6)
        sp = r.choice(["##", " ## ", " ##", "## "])
        p = r.choice(ps)
        if k == 0: o.append("A" + sp + p)
        elif k == 1: o.append("A" + sp + p + sp + r.choice(ps))
        elif k == 2: o.append("#" + r.choice(["", " "]) + p)
        elif k == 3: o.append("<" + "B" + sp + p + ">" + p)
        elif k == 4: o.append(p + " " + p)
        else: o.append("f" + sp + p + "(" + p + ")")
    return " ".join(o)

def soup(r, tag):
    names = ["A", "B", "C", "F", "G", "H", "A7", "Ax"]; r.shuffle(names)
    ps = ["a", "b", "c"]
    macs = []
    n = r.randint(2, 7)
    for i in range(n):
        k = r.random()
        if k < .4: m = Mac(names[i], None)
        else:
            m = Mac(names[i], r.sample(ps, r.choice([0, 1, 1, 2, 2, 3])))
            if k > .8 and m.params: m.paste = True
        macs.append(m)
    order = list(range(n)); r.shuffle(order)
    defs = []
    for i in order:
        m = macs[i]
        defs.append(define(r, m, paste_body(r, m) if getattr(m, "paste", False) else body_for(r, m, macs, i)))
    lines = []
    for _ in range(r.randint(2, 6)):
        lines.append((ws(r) if r.random() < .1 else "") + ws(r).join(item(r, macs, 0, (), True) for _ in range(r.randint(1, 5))) + "\n")
        if r.random() < .15: lines.append("#undef %s\n" % r.choice(macs).name)
        if r.random() < .15:
            m = r.choice(macs); lines.append("#undef %s\n" % m.name + define(r, m, body_for(r, Mac(m.name, m.params), [], 0)))
        if r.random() < .1: lines.append("\n")
    s = "".join(defs) + "".join(lines)
    if r.random() < .3: s = at_boundary(r, s)
    return Case([("t.c", finish(r, s))], tag)

def strpaste(r, tag):
    """# and ## with every kind of operand"""
    s = "#define S(a) #a\n#define T(a) S(a)\n#define J(a,b) a##b\n#define K(a,b) J(a,b)\n#define L(a,b,c) a ## b ## c\n#define E\n#define N1 (one)\n#define xN (two)\n#define W(a,b) #a a##1 b\n#define V(a) #a##1\n"
    if r.random() < .5: s = s.replace("#define V(a) #a##1\n", "")
    ids = ["x", "N", "E", "N1", "y_", "_", "S", "J", "q9"]
    ws1 = lambda: r.choice(["", "", " ", "  ", "\t", "/**/", " /* c */ ", "\n"])
    def sarg():
        o = []
        for _ in range(r.randint(0, 4)):
            o.append(r.choice(ids + ["\"t\"", "\"\\\\\"", "\"\\n\"", "'\"'", "'\\''", "'\\\\'", "+", "(x , y)", "12", "\"a 'b\"", "->", "@", "\"/* */\"", ".", "()"]))
        out = ws1()
        for x in o: out += x + (ws1() or " ")
        return out
    n = r.randint(3, 9)
    for _ in range(n):
        k = r.randrange(8)
        if k < 2: s += "S(%s)" % sarg()
        elif k == 2: s += "T(%s)" % sarg()
        elif k == 3: s += "J(%s,%s)" % (ws1() + r.choice(ids) + ws1(), ws1() + r.choice(ids + ["1", "23", "", "0x"]) + ws1())
        elif k == 4: s += "K(%s,%s)" % (ws1() + r.choice(["x", "q", "_", "E"]) + ws1(), r.choice(["N", "y", "1", "", "E", "K", "3a"]))
        elif k == 5: s += "L(%s,%s,%s)" % (r.choice(["x", "", "a"]), r.choice(["N", "", "b"]), r.choice(["1", "", "c"]))
        elif k == 6: s += "W(%s,%s)" % (r.choice(["x", "N", "E", "", "S"]), sarg().replace("\n", " "))
        else: s += "J(%s,%s)" % (r.choice(["", " ", "E"]), r.choice(["", "x", "N1 x", "1 N1"]))
        s += r.choice([" ", "\n", "", ";", "+"])
    return Case([("t.c", finish(r, at_boundary(r, s + "\n") if r.random() < .3 else s + "\n"))], tag)

def redef(r, tag):
    names = ["A", "B", "C", "define", "if", "defined_", "A_", "_A"]
    s = ""
    for i in range(r.randint(8, 24)):
        n = r.choice(names[:4]) if r.random() < .8 else r.choice(names)
        k = r.randrange(7)
        if k < 2: s += "#define %s %s\n" % (n, r.choice(["1", "%d" % i, r.choice(names), "", "(A B)", "%s %s" % (r.choice(names), r.choice(names))]))
        elif k == 2: s += "#define %s(%s) %s\n" % (n, r.choice(["x", "A", "B"]), r.choice(["x", "A", "B x", "[x]", ""]))
        elif k == 3: s += "#undef %s\n" % n
        elif k == 4: s += "#ifdef %s\n%d\n#else\nno %d\n#endif\n" % (n, i, i)
        else: s += " ".join(r.choice([r.choice(names), r.choice(names[:4]) + "(%d)" % i, "x"]) for _ in range(r.randint(1, 5))) + "\n"
    return Case([("t.c", finish(r, s))], tag)

PAINT = ["#define f(a) <a>\n#define X f(X)\nX f(X) f(f(X))\n",
         "#define A B\n#define B A\nA B A B\n",
         "#define A B C\n#define B C A\n#define C A B\nA\nB\nC\n",
         "#define f(x) g(x)\n#define g(x) f(x) x\nf(1) g(f(2)) f(g(3))\n",
         "#define f(x) f\nf(1)(2)(3)\n#define h(x) k\n#define k(x) h\nh(1)(2)(3)(4)\n",
         "#define z z[0]\nz z\n#define w(x) w(x + z)\nw(w(z)) w (w) (z)\n",
         "#define id(x) x\n#define obj id(obj)\nid(obj) id(id)(obj) id(id(id)(id))(1)\n",
         "#define a(x) b(x\n#define b(x) [x]\na(1)) a(2)+3)\n",
         "#define LP (\n#define RP )\n#define f(x) <x>\nf LP 1 RP f (LP 1 RP) f(f) f(f)(1)\n",
         "#define foo(x,y) x y\n#define bar foo\n#define args 1,2\nbar(args) bar(1,2) foo((args),args2)\n#define call(f,a) f a\ncall(foo,(3,4)) call(bar,(5,6))\n",
         "#define e\n#define f(x) [x]\nf(e) f() f(e e) f e (1) e f(1) e\n",
         "#define EMPTY\n#define DEFER(x) x EMPTY\n#define A() 123\n#define EX(x) x\nDEFER(A)() EX(DEFER(A)())\n",
         "#define C1(x) x##1\n#define A1 hit\n#define A2 C1(A)\nC1(A) A2 C1(A2) C1()\n",
         "#define str(x) #x\n#define xstr(x) str(x)\n#define v str(x) xstr(v)\nv str(v) xstr(v) xstr(str(v))\n",
         "#define t(x,y,z) x ## y ## z\nint j[] = { t(1,2,3), t(,4,5), t(6,,7), t(8,9,), t(10,,), t(,11,), t(,,12), t(,,) };\n",
         "#define x 3\n#define f(a) f(x * (a))\n#undef x\n#define x 2\n#define g f\n#define z z[0]\n#define h g(~\n#define m(a) a(w)\n#define w 0,1\n#define t(a) a\n#define p() int\n#define q(x) x\nf(y+1) + f(f(z)) % t(t(g)(0) + t)(1);\ng(x+(3,4)-w) | h 5)\np() i[q()] = { q(1), q(), q(2) };\n"]
def paint(r, tag, i):
    s = PAINT[i % len(PAINT)]
    if i >= len(PAINT): s = at_boundary(r, s)
    return Case([("t.c", finish(r, s))], tag)

def longuse(r, tag):
    """the same macros used over and over: nothing may run out or be lost"""
    s = "#define F(a,b) G(a) b G(b) a\n#define G(x) [x]\n#define O 1 O2\n#define O2 two\n#define S(x) #x x##x\n"
    for i in range(r.randint(60, 120)):
        s += r.choice(["F(%d,O) O\n", "S(n%d)\n", "O O2 G(G(%d))\n", "text %d \"lit\"\n", "F(F(1,2),%d)\n"]) % i
        if r.random() < .1: s += "#undef O\n#define O %d\n" % i
    return Case([("t.c", finish(r, s, p_splice=0))], tag)

def hashname(s, m):
    x = 0
    for c in s: x = (x * m + ord(c)) & 0xffff
    return x
def collide(r, n):
    """names that fall into the same or neighbouring buckets of a hash table (for the usual multipliers and sizes), or that differ in one place only"""
    k = r.randrange(4)
    al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
    if k < 2:
        m = r.choice([17, 17, 17, 31, 33, 1]); size = r.choice([128, 128, 64, 256]); b = r.choice([size - 1, size - 1, size - 2, r.randrange(size)])
        res = []
        while len(res) < n:
            s = "".join(r.choice(al) for _ in range(r.choice([1, 2, 2, 3, 4]))) + r.choice(["", "", "1", "9"])
            if s not in res and (hashname(s, m) % size) in (b, b, (b + r.choice([0, 0, 1])) % size): res.append(s)
        return res
    base = "".join(r.choice(al) for _ in range(r.choice([1, 3, 8, 20])))
    res = [base]
    while len(res) < n:
        s = r.choice(res); j = r.randrange(len(s) + 1)
        s = r.choice([s + r.choice(al), r.choice(al) + s, s[:j] + r.choice(al) + s[j + 1:], s[:-1] or "q", s.swapcase(), s[::-1]])[:30]
        if s not in res and s[0] not in "0123456789": res.append(s)
    return res
def names(r, tag):
    ns = [x for x in collide(r, 12) if x not in ("if",)]
    d = ns[:r.randint(2, 9)]; s = ""
    for i, n in enumerate(d):
        if r.random() < .25: s += "#define %s(%s) <%s %d>\n" % (n, ns[-1], ns[-1], i)
        else: s += "#define %s %s\n" % (n, r.choice(["%d" % i, "[%s %d]" % (r.choice(ns), i), "\"%s\"" % n]))
        if r.random() < .15: s += "#undef %s\n" % r.choice(d)
    for _ in range(3): s += " ".join(r.choice(ns) + r.choice(["", "", "(7)"]) for _ in range(8)) + "\n"
    for n in r.sample(ns, 3): s += "#ifdef %s\ndef %s\n#endif\n" % (n, n)
    return Case([("t.c", finish(r, s, p_splice=0))], tag)

BADM = ["#define f(a,b) a b\n%sf(1)\n", "#define f(a,b) a b\n%sf(1,2,3)\n", "#define f() x\n%sf(1)\n", "#define f(a) a\n%sx f(1 2\n", "#define f(a) a\n%sf(1,2)\n", "#define f(a,b) a\n%sf((1,2))\n",
        "%s#define\n", "%s#define 1\n", "%s#define f(a\n", "%s#define f(a,)\n", "%s#define f(1)\n", "%s#define f(a b)\n", "%s#define f(a,a)\n", "%s#define f(a) #b\n", "%s#define f(a) #\n",
        "%s#define f ## x\n", "%s#define f x ##\n", "%s#define f(a) ## a\n", "%s#define defined 1\n", "%s#define __LINE__ 3\n", "%s#define __FILE__ 3\n", "%s#define __SCC__ 3\n", "%s#undef\n", "%s#undef 1\n",
        "#define f(a,b) a\n#define g(x) f(x)\n%sg(1)\n", "#define f(a) a\n%sg f(\n", "%s#define \"x\" 1\n", "#define f(a) a\n%sf(((1))\n"]
GOODM = ["#define f(a,b) a b\n%sf((1,2),3)\n", "#define f() x\n%sf( )\n", "#define f(a) a\n%sf()\n", "#define f(a,b) a b\n%sf(,)\n", "%s#define f(a) # a\nf( x)\n", "%s#define f() # x\n", "%s#define f # x\nf\n",
         "#define f(a) a\n%sf (\n1\n)\n", "#define f(a) a\n%sf\n\n(1)\nf\nx\n", "#define f(a,b) b a\n%sf(\"(,\",')')\n"]
def badmac(r, tag, i):
    t = (BADM + GOODM)[i % (len(BADM) + len(GOODM))]
    f = "".join(r.choice(["\n", "x y\n", "/* a\n b */ z\n", "// c\n", "\"s\" 'c'\n"]) for _ in range(r.randint(0, 6)))
    return Case([("t.c", finish(r, t % f, p_splice=0))], tag)

def limits(r, tag, i):
    """uses close to what the tables hold"""
    k = i % 6
    if k == 0: s = "".join("#define C%d %s\n" % (j, "C%d" % (j + 1) if j < 13 else "end C0") for j in range(14)) + "C0 C13 C5\n"
    elif k == 1: s = "#define F(x) [x]\n" + "F(" * 9 + "1" + ")" * 9 + " F" + "(" * 20 + ")" * 20 + "\n"
    elif k == 2: s = "#define M(a,b,c,d,e,f,g,h) h g f e d c b a\nM(1,2,3,4,5,6,7,8) M(,,,,,,,) M((1,2),M(a,b,c,d,e,f,g,h),3,4,5,6,7,8)\n"
    elif k == 3: s = "#define L " + " ".join("t%d" % j for j in range(120)) + "\nL L\n#undef L\nL\n"
    elif k == 4: s = "#define F(x) x\n" + "F(" + " ".join("a%d" % j for j in range(100)) + ")\n" * 1
    else: s = "#define D(x) x x\nD(D(D(D(1))))\n" * 1 + "".join("#define V%d D(%d)\nV%d\n#undef V%d\n" % (j % 8, j, j % 8, j % 8) for j in range(30))
    return Case([("t.c", finish(r, at_boundary(r, s) if r.random() < .3 else s, p_splice=0))], tag)

def p01(seed, n):
    r = random.Random("p01/%s" % seed); out = []
    for i in range(n): out.append(soup(r, "soup:%d:%d" % (seed, i)))
    for i in range(n // 3): out.append(strpaste(r, "strpaste:%d:%d" % (seed, i)))
    for i in range(n // 4): out.append(redef(r, "redef:%d:%d" % (seed, i)))
    for i in range(n // 3): out.append(names(r, "names:%d:%d" % (seed, i)))
    for i in range(len(PAINT) * 2): out.append(paint(r, "paint:%d:%d" % (seed, i), i))
    for i in range(6): out.append(limits(r, "limits:%d:%d" % (seed, i), i))
    for i in range(n // 40): out.append(longuse(r, "long:%d:%d" % (seed, i)))
    for i in range(len(BADM) + len(GOODM)): out.append(badmac(r, "calls:%d:%d" % (seed, i), i))
    return out

# ---- P02: conditions ---------------------------------------------------------------------------------------------
BIN = ["*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"]
def cexpr(r, d, atoms):
    k = r.random()
    if d == 0 or k < .2: return r.choice(atoms)
    if k < .3: return r.choice(["!", "-", "~", "+", "! ", "- "]) + cexpr(r, 0 if r.random() < .5 else d - 1, atoms) if r.random() < .6 else r.choice(["!", "-", "~"]) + "(" + cexpr(r, d - 1, atoms) + ")"
    if k < .42: return "(" + cexpr(r, d - 1, atoms) + ")"
    if k < .5: return cexpr(r, d - 1, atoms) + " ? " + cexpr(r, d - 1, atoms) + " : " + cexpr(r, d - 1, atoms)
    op = r.choice(BIN)
    sp = r.choice(["", " ", " "])
    rhs = cexpr(r, d - 1, atoms)
    if op in ("/", "%") and r.random() < .9: rhs = r.choice(["1", "2", "3", "7", "(0-3)"])
    if op in ("<<", ">>"): rhs = r.choice(["0", "1", "2", "3", "5"])
    return cexpr(r, d - 1, atoms) + sp + op + (sp or (" " if op[-1] in "-+&|" or rhs[:1] in "-+" else "")) + rhs

ATOMS = ["0", "1", "2", "3", "5", "10", "0x1F", "017", "0x0", "7L", "'a'", "'\\n'", "'\\x41'", "'\\0'", "'\\''", "'\\\\'", "'\\101'", "UNDEF", "N0", "N1", "NE", "NX", "F(2)", "F(N1)", "P(3,4)", "__SCC__",
         "defined N0", "defined(N1)", "defined UNDEF", "defined ( F )", "!defined NE", "(N1)", "defined(__LINE__)", "NEST", "if", "define"]
MACDEFS = "#define N0 0\n#define N1 1\n#define NE\n#define NX 2+3\n#define F(x) x*2\n#define P(a,b) ((a)<(b))\n#define NEST F(N1)\n"

def condexpr(r, tag):
    s = MACDEFS
    if r.random() < .4: s += "#undef N0\n"
    for i in range(r.randint(2, 6)):
        e = cexpr(r, r.randint(1, 4), [a for a in ATOMS if a != "NE"])
        k = r.randrange(3)
        sp = r.choice(["if ", "if\t", "if/**/", "if  "]) if not e.startswith("(") else r.choice(["if", "if "])
        if k == 0: s += "#%s%s\nyes%d\n#else\nno%d\n#endif\n" % (sp, e, i, i)
        elif k == 1: s += "#if %s\na%d\n#elif %s\nb%d\n#else\nc%d\n#endif\n" % (r.choice(["0", "UNDEF", "N0", e]), i, e, i, i)
        else: s += "#%s%s // c\n#if %s\nx%d\n#endif\ny%d\n#else\nz%d\n#endif\n" % (sp, e, cexpr(r, 2, [a for a in ATOMS if a != "NE"]), i, i, i)
    return Case([("t.c", finish(r, s))], tag)

# values around which implementations go wrong: every operator with every pair, by comparing with the value itself
def condops(r, tag):
    vals = [0, 1, 2, 3, 7, -1, -2, -5, 8, 15, 100, 255, -128]
    s = ""
    for i in range(12):
        op = r.choice(BIN); a = r.choice(vals); b = r.choice(vals)
        if op in ("<<", ">>"): b = abs(b) % 8
        if op == "<<": a = abs(a)
        if op in ("/", "%") and b == 0: b = 3
        f = lambda v: str(v) if v >= 0 else r.choice(["-%d", "(-%d)"]) % -v
        op2 = r.choice(BIN[:16]); c = r.choice([1, 2, 3])
        e = "%s %s %s" % (f(a), op, f(b))
        if r.random() < .5: e = r.choice(["%s %s %d" % (e, op2, c), "%d %s %s" % (c, op2, e)]) if op2 not in ("<<",) and not (op2 in ("/", "%", ">>")) else e + " %s %d" % (op2, c) if op2 != "<<" else e
        for v in (r.randint(-3, 3), 0, 1):
            s += "#if (%s) == %d\n%d_%s\n#endif\n" % (e, v, i, "m%d" % -v if v < 0 else v)
        s += "#if %s\nT%d\n#else\nF%d\n#endif\n" % (e, i, i)
    return Case([("t.c", finish(r, s, p_splice=0))], tag)

JUNK = ["#define DEAD 1\n", "#undef LIVE\n", "#include \"missing.h\"\n", "#error no\n", "#bogus\n", "it's fine\n", "\" unterminated\n", "/* comment\n#endif\n*/\n", "// #else\n", "#if (((\n#endif\n", "#if 1/0\n#elif 1\n#endif\n",
        "#ifdef\n#endif\n", "F(1\n", "#define LIVE 3\n", "text LIVE\n", "#\n", "# 12 nonsense\n", "#pragma x\n", "#line 44\n", "\\\n#endif_\n", "\"#else\" \n", "x #endif\n", "'#'\n", "@`$\n", "#define\n", "#undef 3\n", "#elifx\n", "a /* #endif */ b\n"]
def condjunk(r, tag):
    s = "#define LIVE 1\n#define F(x) x\n"
    def group(d, dead):
        o = ""
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if dead and k < .5: o += r.choice(JUNK)
            elif k < .7 and d < 6: o += cond(d + 1, dead)
            elif not dead and k < .8: o += r.choice(["#define D%d 1\n" % r.randrange(3), "#undef D%d\n" % r.randrange(3), "#ifdef D1\nd1\n#endif\n", "#ifndef D2\nnd2\n#endif\n"])
            else: o += "t%d __LINE__ LIVE F(%d)\n" % (r.randrange(100), d)
        return o
    def cond(d, dead):
        o = ""
        taken = False
        t = r.random() < .5
        o += r.choice(["#if 1\n", "#ifdef LIVE\n", "#ifndef NOT\n", "#if defined(LIVE) && !defined(NOT)\n", "# if LIVE\n", "  #\tifdef LIVE // c\n", "/**/#if 2-1\n"] if t else ["#if 0\n", "#ifdef NOT\n", "#ifndef LIVE\n", "#if NOT\n", "#if LIVE-1\n"])
        o += group(d, dead or not t); taken = t
        for _ in range(r.choice([0, 0, 1, 2])):
            t = r.random() < .5
            e = r.choice(["#elif 1\n", "#elif LIVE\n", "#elif !defined NOT\n"] if t else ["#elif 0\n", "#elif NOT\n"]) if not taken else r.choice(["#elif 1\n", "#elif 0\n", "#elif\n", "#elif 1/0\n", "#elif ((\n"])
            o += e; o += group(d, dead or taken or not t); taken = taken or t
        if r.random() < .5: o += r.choice(["#else\n", "# else /* c */\n", "#else // c\n"]); o += group(d, dead or taken)
        o += r.choice(["#endif\n", "#endif // c\n", " # endif\n"])
        return o
    for _ in range(r.randint(1, 3)): s += cond(1, False) + "between LIVE\n"
    if r.random() < .4: s = at_boundary(r, s)
    return Case([("t.c", finish(r, s))], tag)

BADC = ["#else\n", "#endif\n", "#elif 1\n", "#if 1\n", "#if 0\n", "#if 1\n#else\n#else\n#endif\n", "#if 1\n#else\n#elif 1\n#endif\n", "#if 0\n#else\n#else\n#endif\n", "#if 1\n#endif\n#endif\n", "#if\n#endif\n", "#ifdef\n#endif\n",
        "#ifndef 3\n#endif\n", "#if 1 +\n#endif\n", "#if (1\n#endif\n", "#if 1)\n#endif\n", "#if 1 2\n#endif\n", "#if 1/0\n#endif\n", "#if 3 % (1-1)\n#endif\n", "#if 09\n#endif\n", "#if 0xG\n#endif\n", "#if \"s\"\n#endif\n",
        "#if defined\n#endif\n", "#if defined(X\n#endif\n", "#if defined 3\n#endif\n", "#if 1 ? 2\n#endif\n", "#if 1 ? 2 :\n#endif\n", "#if !\n#endif\n", "#if * 1\n#endif\n", "#if 1 = 1\n#endif\n", "#if 0\n#elif\n#endif\n",
        "#if 0\n#elif 1 1\n#endif\n", "#if 1 || 1 +\n#endif\n", "#if 0 && (1\n#endif\n", "#if 12ab\n#endif\n", "#bogus\n", "#3\n", "#error stop\n", "#if ''\n#endif\n", "#if 'a\n#endif\n", "#if F\n#if\n#endif\n", "# # \n", "#if @\n#endif\n"]
GOODC = ["#if 0 && 1/0\n#endif\n", "#if 1 || 1/0\nx\n#endif\n", "#if 1 ? 2 : 3/0\nx\n#endif\n", "#if 0 ? 1/0 : 4\nx\n#endif\n", "#\n", "# /* c */ // d\n", "#if -1 < 0\nx\n#endif\n", "#pragma once\n", "#if (1)\nx\n#else\ny\n#endif\n",
         "#if 1 ? 0 ? 2 : 0 : 3\nx\n#else\ny\n#endif\n", "#if 2 - 1 - 1\nx\n#else\ny\n#endif\n", "#if 8 / 4 / 2 == 1\nx\n#endif\n", "#if 1 << 2 << 1 == 8\nx\n#endif\n", "#if 1 == 1 == 1\nx\n#endif\n", "#if 3 > 2 > 1\nx\n#else\ny\n#endif\n"]
def badcond(r, tag, i):
    t = (BADC + GOODC)[i % (len(BADC) + len(GOODC))]
    f = lambda: "".join(r.choice(["\n", "x y\n", "/* a\n b */ z\n", "// c\n", "\"s\" 'c'\n", "#if 1\nq\n#endif\n"]) for _ in range(r.randint(0, 5)))
    return Case([("t.c", finish(r, f() + t + f(), p_splice=0))], tag)

def deepcond(r, tag):
    d = r.randint(8, 15); o = ""; c = ""
    for j in range(d):
        t = r.random() < .85
        o += ("#if 1\n" if t else "#if 0\n") + "in%d\n" % j
        c = "out%d\n" % j + r.choice(["", "#else\nelse%d\n" % j, "#elif 1\nelif%d\n" % j]) + "#endif\n" + c
    return Case([("t.c", finish(r, o + c + "end\n", p_splice=0))], tag)

def p02(seed, n):
    r = random.Random("p02/%s" % seed); out = []
    for i in range(n): out.append(condexpr(r, "expr:%d:%d" % (seed, i)))
    for i in range(n // 3): out.append(condops(r, "ops:%d:%d" % (seed, i)))
    for i in range(n): out.append(condjunk(r, "nest:%d:%d" % (seed, i)))
    for i in range(n // 10): out.append(deepcond(r, "deep:%d:%d" % (seed, i)))
    for i in range(len(BADC) + len(GOODC)): out.append(badcond(r, "invalid:%d:%d" % (seed, i), i))
    return out

# ---- P03: files and lines ------------------------------------------------------------------------------------------
def fline(r, f):
    k = r.randrange(16)
    if k == 0: return "\n" * r.randint(1, 4)
    if k == 1: return "/* c\n" + "\n" * r.randrange(3) + "*/ __LINE__\n"
    if k == 2: return "a\\\nb __LINE__ \\\n __LINE__\n"
    if k == 3: return "__FILE__ __LINE__ // c\n"
    if k == 4: return "LN LF\n"
    if k == 5: return "\"__LINE__\" '_' x__LINE__ __LINE__\n"
    if k == 6: return "#define U%d %s __LINE__\n" % (r.randrange(3), f)
    if k == 7: return "U%d\n" % r.randrange(3)
    if k == 8: return "#if __LINE__ == %d\nhit\n#else\nmiss __LINE__\n#endif\n" % r.randint(1, 12)
    if k == 9: return "/* c */ __LINE__ /* d\n */ __LINE__\n"
    if k == 10: return "ID(__LINE__) ID(__FILE__) ID(U%d)\n" % r.randrange(3)
    if k == 11: return "#undef U%d\n" % r.randrange(3)
    if k == 12: return "#ifdef U%d\nyes\n#else\nno\n#endif\n" % r.randrange(3)
    if k == 13: return "// comment \\\n continued\n__LINE__\n"
    if k == 14: return "STR(__LINE__) STR(LN)\n"
    return "text __LINE__ " + "w" * r.randint(1, 30) + "\n"

HEAD = "#define LN __LINE__\n#define LF __FILE__\n#define ID(x) x\n#define S1(x) #x\n#define STR(x) S1(x)\n"
def inc_line(r, name):
    k = r.randrange(8)
    if k == 0: return "#define NAME \"%s\"\n#include NAME\n" % name
    if k == 1: return "# include <%s>\n" % name
    if k == 2: return "#include\"%s\"// c\n" % name
    if k == 3: return "#include /* c */ \"%s\" /* d\n*/\n" % name
    if k == 4: return "#if 1\n#include \"%s\"\n#endif\n" % name
    if k == 5: return "#include \\\n\"%s\"\n" % name
    return "#include \"%s\"\n" % name

def mkfile(r, name, kids, n, guard=False):
    o = []
    for _ in range(n):
        if kids and r.random() < .35: o.append(inc_line(r, r.choice(kids)))
        else: o.append(fline(r, name))
    if guard: o = ["#ifndef G_%s\n#define G_%s\n" % (name[0], name[0])] + o + ["#endif\n"]
    return o

def sizeup(r, lines):
    """lengthens a file so that a buffer end falls somewhere near one of its lines"""
    k = r.randrange(len(lines) + 1)
    before = sum(len(x) for x in lines[:k])
    n = 511 * r.randint(1, 3) - before + r.randint(-3, 3)
    if n < 4: n += 511
    j = r.randrange(k + 1)
    return lines[:j] + [r.choice(["// " + "p" * (n - 4) + "\n", "/*" + "q" * (n - 5) + "*/\n" if n > 5 else "\n" * n, "\n" * n])] + lines[j:]

BADLINE = ["#error stop\n", "#bogus\n", "#if 1 +\n", "#else\n", "#endif\n", "#define 1\n", "#if (2\n", "ID(1,2)\n", "#include 3\n", "#undef\n", "#ifdef\n", "#elif 1\n", "x ID(a,b) y\n", "#if 0xz\n", "#if 1/0\n", "#define M(a,a)\n"]
def files(r, tag, bad=False):
    L = {}
    L["b.h"] = mkfile(r, "b.h", [], r.randint(1, 6), r.random() < .3)
    L["c.h"] = mkfile(r, "c.h", [], r.randint(0, 4))
    L["a.h"] = mkfile(r, "a.h", ["b.h", "c.h"], r.randint(1, 7), r.random() < .3)
    L["t.c"] = [HEAD] + mkfile(r, "t.c", ["a.h", "b.h", "c.h"], r.randint(2, 9))
    if bad:
        f = r.choice(["t.c", "t.c", "a.h", "b.h"]); x = L[f]
        x.insert(r.randint(1 if f == "t.c" else 0, len(x)), r.choice(BADLINE))
    for f in L:
        if r.random() < .45: L[f] = sizeup(r, L[f])
    return Case([(f, finish(r, "".join(L[f]), p_splice=0)) for f in ("t.c", "a.h", "b.h", "c.h")], tag)

def inc_exact(r, tag, n):
    """an include whose line ends exactly at, or next to, the end of the read buffer"""
    nl = r.choice(["\n", "\r\n"])
    inc = "#include \"a.h\""
    first = "#define LN __LINE__\n"
    k = 511 * r.randint(1, 2) + n - len(first) - len(inc)
    body = first + r.choice(["/*" + "x" * (k - 5) + "*/\n", "\n" * k, " " * (k - 1) + "\n"]) + inc + nl + "after __LINE__ LN" + nl + inc + nl + "end __FILE__"
    m = r.choice([0, 1, 510, 511, 512, 1022, 1023])
    h = ("h" * max(0, m - 9) + " __LINE__" if m > 9 else "h" * m) + r.choice(["", nl])
    return Case([("t.c", body), ("a.h", h)], tag)

def p03(seed, n):
    r = random.Random("p03/%s" % seed); out = []
    for i in range(n): out.append(files(r, "files:%d:%d" % (seed, i)))
    for i in range(n): out.append(files(r, "blame:%d:%d" % (seed, i), True))
    for k in range(-20, 8): out.append(inc_exact(r, "boundary:%d:%d" % (seed, k), k))
    out.append(Case([("t.c", "a\n#include \"nothere.h\"\nb\n")], "missing:%d" % seed))
    out.append(Case([("t.c", "")], "empty:0")); out.append(Case([("t.c", "x")], "empty:1")); out.append(Case([("t.c", "#include \"a.h\"\nx\n"), ("a.h", "")], "empty:2"))
    out.append(Case([("t.c", "#include \"a.h\"\nx\n"), ("a.h", "#if 1\n")], "openif:0")); out.append(Case([("t.c", "#if 1\n#include \"a.h\"\nx\n#endif\n"), ("a.h", "#endif\n")], "openif:1"))
    out.append(Case([("t.c", "#if 0\n#include \"a.h\"\nx\n#endif\n"), ("a.h", "#endif\n")], "openif:2")); out.append(Case([("t.c", "#if 1\n#include \"a.h\"\nx\n#endif\n"), ("a.h", "#else\ny\n")], "openif:3"))
    out.append(Case([("t.c", "x\n/* never closed\n")], "comment:0")); out.append(Case([("t.c", "#include \"a.h\"\nx */\n"), ("a.h", "y /* \n")], "comment:1"))
    return out

# ---- P04: tokens -------------------------------------------------------------------------------------------------
PUNCT = ["+", "-", "*", "/", "%", "=", "<", ">", "!", "&", "|", "^", "~", "?", ":", ";", ",", ".", "(", ")", "[", "]", "{", "}", "++", "--", "->", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||",
         "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "...", "@", "$", "`", "\\"]
def strtok(r, q, n):
    o = q
    while n > 0:
        k = r.random()
        if k < .15: o += "\\" + r.choice("ntr0\\'\"x?abfv")
        elif k < .25: o += r.choice(["//", "/*", "*/", "\"" if q == "'" else "'", "#", "##", "  ", "__LINE__", "M", "\t", "\\\\"])
        elif k < .3: o += chr(r.randint(128, 255))
        else: o += r.choice("abcXYZ019 +-*/(){};,._")
        n -= 1
    return o + q
def anytok(r, big):
    k = r.random()
    if k < .3: return "".join(r.choice("abcdexyzABC_") for _ in range(1)) + "".join(r.choice("abcxyz019_") for _ in range(r.choice([0, 1, 2, 5, 9] + ([40, 120] if big else []))))
    if k < .42: return r.choice(["0", "1", "42", "0x1F", "017", "9999", "0X0a", "1L", "65535"])
    if k < .56: return strtok(r, '"', r.choice([0, 1, 3, 8, 20] + ([100, 300] if big else [])))
    if k < .64: return strtok(r, "'", r.choice([1, 1, 2]))
    if k < .67: return chr(r.randint(128, 255))
    if k < .68: return "#"
    return r.choice(PUNCT)
def merges(a, b):
    """would these two be read as something else when written next to each other?"""
    if a[-1] == "\\" or b[0] == "\\": return True
    x, y = a[-1], b[0]
    idc = lambda c: c.isalnum() and ord(c) < 128 or c == "_"
    if idc(x) and (idc(y)): return True
    if x in "/" and y in "/*=": return True
    if x == "." or y == ".": return True
    return False
def tokens(r, tag, n, big):
    o = ""; prev = ";"; bol = True
    for _ in range(n):
        t = anytok(r, big)
        while bol and t == "#": t = anytok(r, big)
        k = r.random()
        if k < .35 and not bol and not merges(prev, t): sep = ""
        elif k < .6: sep = " "
        elif k < .75: sep = ws(r, p=1)
        elif k < .8: sep = ws(r, p=1) + ws(r, True, p=1)
        elif k < .9: sep = "\n" * r.randint(1, 3)
        elif k < .95: sep = " // " + r.choice(["comment", "\"", "it's", "/*", "*/", "#if"]) + "\n"
        else: sep = " /* " + r.choice(["long comment", "multi\nline", "**", "\"", "// \n"]) * r.randint(1, 9 if big else 2) + "*/"
        if t == "#" and "\n" in sep: sep = " "
        if prev[-1] == "\\": sep = " "
        if prev[-1] == "/" and sep[:1] in ("/", "*"): sep = " " + sep
        o += sep + t
        bol = False
        prev = t
    if prev[-1] == "\\": o += " x"
    return Case([("t.c", finish(r, o + r.choice(["", "\n", "\n\n", " \n"])))], tag)
def pairs(r, tag):
    """every pair of punctuators, with every kind of separator: none may merge, none may split"""
    P = [p for p in PUNCT if p != "\\"] + ["x", "1", "\"s\"", "'c'"]
    o = ""
    for _ in range(120):
        a, b = r.choice(P), r.choice(P)
        sep = r.choice([" ", "/**/", "\t", "/* c */", "", "\\\n"])
        if sep in ("", "\\\n") and merges(a, b): sep = " "
        if sep and sep[0] == "/" and a[-1] == "/": sep = " "
        o += a + sep + b + "\n"
    return Case([("t.c", finish(r, o, p_splice=0))], tag)
def buffer_edge(r, tag, off):
    """one token of each kind placed across the end of a read buffer"""
    t = r.choice(["identifier", "\"str\\\"ing\"", "'\\''", "<<=", "0x1234", "/* com * ment */", "// line\n", "a\\\nb", "a\\\r\nb", "\\\n\\\n\\\nx", "\"a\\\nb\"", "->", "/*\\\n*\\\n/ x", "x\r\ny", "/\\\n/ c\ny", "\"\\\\\"", "\n\n\n"])
    k = r.randint(0, len(t))
    n = 511 * r.choice([1, 1, 2, 3]) - k + off
    lead = r.choice([lambda n: "/*" + "z" * (n - 4) + "*/", lambda n: " " * n, lambda n: "\n" * n, lambda n: ("w" * 50 + " ") * (n // 51) + " " * (n % 51)])(n)
    return Case([("t.c", lead + t + " tail" + r.choice(["", "\n"]))], tag)
def outedge(r, tag):
    """tokens that touch where a write buffer ends"""
    n = r.choice([507, 508, 509, 510, 511, 512, 513, 1022, 1023, 1024, 1025])
    a, b = r.choice([("+", "+"), ("-", "-"), ("-", ">"), ("<", "<"), ("&", "&"), ("=", "="), ("x", "y"), ("1", "x"), ("/", "/"), ("/", "*"), ("+", "="), ("!", "="), ("|", "|"), (">", "="), ("\"s\"", "\"t\"")])
    s = "#define A %s\n#define B %s\n" % (a, b) + "w" * 300 + " " * (1 if n > 400 else 0) + "v" * (n - 301 - len(a)) + (" " if a[0].isalnum() else "") + "A" + ("B" if a[0] not in "x1" else " B") + " A/**/B"
    if a == "x" or a == "1": pass
    else: s = s.replace("AB", "A/**/B")
    return Case([("t.c", s)], tag)

def p04(seed, n):
    r = random.Random("p04/%s" % seed); out = []
    for i in range(n): out.append(tokens(r, "tokens:%d:%d" % (seed, i), r.randint(10, 60), False))
    for i in range(n // 4): out.append(tokens(r, "big:%d:%d" % (seed, i), r.randint(80, 220), True))
    for i in range(n // 6): out.append(pairs(r, "pairs:%d:%d" % (seed, i)))
    for i in range(n): out.append(buffer_edge(r, "edge:%d:%d" % (seed, i), r.randint(-4, 4)))
    for i in range(n // 3): out.append(outedge(r, "outedge:%d:%d" % (seed, i)))
    return out
