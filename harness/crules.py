"""Every construct with every kind of operand in every context, a catalogue of rules, and the table limits, through the real scc; judged by CRules.tla."""
import random
from common import *
import csyn

KINDS = ["1", "E", "sizeof(int)", "'a'", "(E + 3)", "-(-4)", "gi", "li", "gu", "gc", "luc", "ga[1]", "gaa[1][2]", "*gp", "*lp", "gsp->a", "lsp->b", "ls.b", "gs.arr[1]", "gcp[2]", "(gi)", "pi",
         "st", "un.i", "gi + 1", "f(1)", "(char)gi", "(*fp)(2)", "gi++", "-li", "gi & 3", "gp - lp", "gi == 1", "!gi", "gi && li", "gc < 5", "gp", "lp", "gsp->ip", "pp", "gcp", "gsp", "lsp",
         "gsp->n", "gs.n", "*gspp", "&gi", "(int*)gi", "gp + 1", "&ga[1]", "&gs", "gsp + 1", "gs", "ls", "*gsp", "gsa[1]", "lsp->in", "gsp[0]", "ga", "la", "gs.arr", "gaa", "gsa", '"str"', "f",
         "fp", "v()", "gi ? 1 : 2", "gi = 2", "gi, li", "gi = li", "++gi"]
TEMPL = {"*X": "*(X);", "&X": "&(X);", "-X": "-(X);", "~X": "~(X);", "!X": "!(X);", "++X": "++(X);", "X--": "(X)--;", "X[0]": "(X)[0];", "X()": "(X)();", "X(1)": "(X)(1);", "X.a": "(X).a;",
         "X->a": "(X)->a;", "X.nosuch": "(X).nosuch;", "X->nosuch": "(X)->nosuch;", "X = 0": "(X) = 0;", "X += 1": "(X) += 1;", "X *= 2": "(X) *= 2;", "if X": "if (X) gi = 1;",
         "while X": "while (X) break;", "for X": "for (; X; ) break;", "switch X": "switch (X) { case 1: gi = 1; }", "gi = X": "gi = (X);", "X && 1": "gi = (X) && li;", "gi || X": "gi = gi || (X);",
         "(int)X": "gi = (int)(X);", "return X": "if (gi) return (X);", "(void)X": "(void)(X);", "X;": "X;", "case X": "switch (gi) { case X: gi = 1; }", "z[X]": "{ int z[X]; z[0] = 1; }",
         "Q = X": "{ enum { Q = X }; gi = Q; }", "_emit X": "_emit (X) ;", "gp = X": "gp = (X);", "gs = X": "gs = (X);", "f(X)": "f(X);", "sizeof(X)": "gi = sizeof(X);", "X + 1": "(X) + 1;",
         "X - 1": "(X) - 1;", "X * 2": "gi = (X) * 2;", "gi & X": "gi & (X);", "gi << X": "gi << (X);", "X - X": "(X) - (X);", "X == X": "gi = (X) == (X);", "X == 0": "if ((X) == 0) gi = 1;",
         "gi ? X : X": "gi ? (X) : (X);"}
PRE = """struct I { int a; char c; };
struct S { int a; char b; int arr[2]; struct S* n; struct I in; int* ip; };
union U { int i; char c; } un;
struct S gs; struct S gsa[3]; int gi; unsigned gu; char gc; int* gp; char* gcp; struct S* gsp; struct S** gspp; int ga[3]; int gaa[2][3];
enum { E = 2 };
int f(int x) { return x; } void v(void) { }
int t(int pi, int* pp)
{
 int li; unsigned char luc; int* lp; struct S ls; struct S* lsp; int la[4]; int (*fp)(int); static int st;
 li = 1; lp = &li; lsp = &ls; fp = f;
"""
POST = """
 gi = 3; return 0;
}
void _start(void) { t(1, 0); }
"""
CTX = {"plain": "@", "loop": " while (gi) { if (li) { int li2; li2 = 1;\n@\n } else li = 2; }", "nest": " { { char gc2; for (gi = 0; gi < 3; ++gi) switch (gi) { case 1: ;\n@\n default: gi = 2; } } }",
       "dead": " if (gi) return 1; else return 2;\n@"}

def grid(contexts):
    jobs = []
    for cx in contexts:
        for t, tx in TEMPL.items():
            for k in KINDS:
                # a comma isn't an argument's, a case's or a size's
                x = "(%s)" % k if (k in ("gi, li", "gi = 2", "gi = li") and t in ("f(X)", "case X", "z[X]", "Q = X")) or (k == "gi ? 1 : 2" and t == "case X") else k
                st = tx.replace("X", x)
                body = PRE + CTX[cx].replace("@", st) + POST
                ln = body[:body.index(st, len(PRE))].count("\n") + 1
                jobs.append(({"k": "op", "t": t, "x": k, "cx": cx, "lo": ln, "hi": ln}, body))
    return jobs

# rules with a fixed text: (name, where, text, expectation); where: g at file scope, l inside a function, e: noticed at the end of the function, E: of the file
RULES = [
 ("default twice", "l", "switch (gi) { default: gi = 2; default: gi = 3; }", "bad"),
 ("case outside", "l", "case 1: gi = 1;", "bad"), ("default outside", "l", "default: gi = 1;", "bad"),
 ("break outside", "l", "break;", "bad"), ("continue outside", "l", "continue;", "bad"), ("continue in switch", "l", "switch (gi) { case 1: continue; }", "bad"),
 ("break in switch", "l", "switch (gi) { case 1: break; }", "ok"),
 ("function twice", "g", "int f(int x) { return x; }", "bad"), ("function is variable", "g", "int f;", "bad"), ("variable is function", "g", "int gi(int x) { return 1; }", "bad"),
 ("function without parameters", "g", "int f { return 1; }", "bad"),
 ("initialized twice", "g", "int ini1 = 1; int ini1 = 2;", "bad"),
 ("label twice", "l", "lab1: gi = 1; lab1: gi = 2;", "bad"), ("label", "l", "goto lab2; lab2: gi = 2;", "ok"), ("undefined label", "e", "if (gi) goto nosuchlabel;", "bad"),
 ("undefined function", "E", "nosuchfn(1);", "bad"), ("undefined variable", "l", "nosuchvar = 1;", "bad"), ("undefined variable read", "E", "gi = nosuchvar2;", "bad"),
 ("undefined struct", "l", "{ struct Nosuch q; gi = 1; }", "bad"), ("pointer to undefined struct", "l", "{ struct Nosuch* q; q->a = 1; }", "bad"),
 ("incomplete member", "g", "struct Rec { int a; struct Rec r; };", "bad"), ("self pointer", "g", "struct Rec2 { int a; struct Rec2* r; };", "ok"),
 ("incomplete array", "g", "struct Nosuch3 inc3[4];", "bad"),
 ("bound 0", "g", "int nb[0];", "bad"), ("bound negative", "g", "int nb[-1];", "bad"), ("bound missing", "g", "int nb[];", "bad"), ("bound missing local", "l", "{ int nb[]; gi = 1; }", "bad"),
 ("bound too large", "g", "char nb[40000];", "bad"), ("inner bound missing", "g", "int nb[2][];", "bad"),
 ("more than memory", "E", "{ static char mm1[32000]; static char mm2[32000]; static char mm3[9]; static char mm4[3000]; mm1[0] = mm2[0] + mm3[0] + mm4[0]; }", "bad"),
 ("void variable", "g", "void vv;", "bad"), ("void local", "l", "{ void vv; gi = 1; }", "bad"), ("void pointer", "g", "void* vvp;", "ok"),
 ("function returns array", "g", "int fra(void)[3];", "bad"), ("function in function", "l", "int nf(void) { return 1; }", "bad"),
 ("parameter without name", "g", "int pwn(int) { return 1; }", "free"),
 ("non-constant initializer", "g", "int nci = gi;", "bad"), ("called initializer", "g", "int nci = f(1);", "bad"), ("constant initializer", "g", "int nci = E * 3 + sizeof(int);", "ok"),
 ("string for int", "g", "int sfi[4] = \"abc\";", "bad"), ("string too long", "g", "char stl[2] = \"abc\";", "bad"),
 ("division by 0", "g", "int dv[3 / 0];", "bad"), ("remainder by 0", "l", "gi = 1 % 0;", "bad"), ("enum / 0", "g", "enum { DZ = 1 / 0 };", "bad"),
 ("typedef assigned", "l", "{ typedef int T; T = 1; }", "bad"), ("enumerator assigned", "l", "E = 1;", "bad"), ("enumerator called", "l", "E();", "bad"), ("enumerator incremented", "l", "E++;", "bad"),
 ("address of enumerator", "l", "gp = &E;", "bad"), ("five stars", "g", "int***** p5;", "free"), ("statement at file scope", "g", "if (gi) gi = 1;", "bad"), ("expression at file scope", "g", "gi + 1;", "bad"), ("stray brace", "g", "}", "bad"),
 ("else without if", "l", "else gi = 1;", "bad"), ("while without do", "l", "do gi = 1; while gi;", "bad"), ("if without (", "l", "if gi gi = 1;", "bad"), ("empty condition", "l", "if () gi = 1;", "bad"),
 ("empty while", "l", "while () gi = 1;", "bad"), ("two semicolons in for", "l", "for (gi = 0; gi) gi = 1;", "bad"), ("goto number", "l", "goto 3;", "bad"), ("unbalanced", "l", "gi = (gi + 1;", "bad"),
 ("unbalanced ]", "l", "gi = ga[1;", "bad"), ("extra )", "l", "gi = gi + 1);", "bad"), ("missing operand", "l", "gi = gi + ;", "bad"), ("missing operator", "l", "gi = gi gi;", "bad"),
 ("missing ;", "l", "gi = 1 gi = 2;", "bad"), ("missing :", "l", "gi = gi ? 1;", "bad"), ("lone :", "l", "gi = gi : 1;", "bad"), ("double operator", "l", "gi = gi * / gi;", "bad"),
 ("bad character", "l", "gi = gi @ gi;", "bad"), ("bad character $", "l", "gi = $gi;", "bad"), ("backslash", "l", "gi = \\ gi;", "bad"), ("unknown escape", "l", "gi = '\\q';", "bad"),
 ("missing member name", "l", "gs. = 1;", "bad"), ("number as member", "l", "gs.1 = 1;", "bad"), ("member of call", "l", "f(1).a = 1;", "bad"), ("arrow of struct", "l", "gs->a = 1;", "bad"),
 ("dot of pointer", "l", "gsp.a = 1;", "bad"), ("unknown member", "l", "gs.zz = 1;", "bad"), ("member of other struct", "l", "gs.c = 1;", "bad"), ("member of union", "l", "un.i = 1;", "ok"),
 ("member of other union", "l", "un.a = 1;", "bad"), ("assign structs", "l", "gs = gsa[1];", "ok"), ("assign different structs", "l", "gs.in = gs;", "bad"), ("assign int to struct", "l", "gs = 1;", "bad"),
 ("keyword as name", "g", "int while;", "bad"), ("keyword as function", "g", "int if(int x) { return x; }", "bad"), ("keyword as member", "g", "struct Kw { int for; };", "bad"),
 ("enum without name or body", "g", "enum;", "free"), ("number in enum", "g", "enum { 1 };", "bad"), ("missing struct name", "g", "struct;", "free"),
 ("va_start in fixed function", "l", "{ va_list vl; va_start(vl, pi); va_end(vl); }", "free"), ("sizeof nothing", "l", "gi = sizeof();", "bad"), ("cast to nothing", "l", "gi = ()gi;", "bad"),
 ("unclosed string", "E", "gi = *\"abc;", "bad"), ("unclosed comment", "E", "gi = 1; /* abc", "bad"), ("unclosed character", "E", "gi = 'a;", "bad"), ("long character", "l", "gi = 'abc';", "bad"),
 ("empty character", "E", "gi = '';", "bad"), ("_emit variable", "l", "_emit gi ;", "bad"), ("nine parameters", "g", "int np(int a, int b, int c, int d, int e, int g, int h, int i, int j) { return a; }", "bad"),
 ("eight parameters", "g", "int np(int a, int b, int c, int d, int e, int g, int h, int i) { return a; }", "ok"), ("nine arguments", "l", "f(1, 2, 3, 4, 5, 6, 7, 8, 9);", "free"),
]

def rules(r, n):
    """each rule placed at several places of the program: before or after other definitions, in nested blocks, after padding"""
    jobs = []
    for name, wh, text, e in RULES:
        for k in range(n):
            pad = "".join(r.choice(["\n", "// c\n", "/* a\n b */\n", " gi = %d;\n" % r.randrange(999) if wh != "g" else "int pad%d;\n" % (i + 100 * k), "\r\n"]) for i in range(r.randrange(0, 6)))
            if wh == "g":
                pre, post = PRE + " return 0;\n}\n" + pad, "\nint after%d;\nvoid _start(void) { t(1, 0); after%d = 1; }\n" % (k, k)
            else:
                o, c = r.choice([("", ""), (" while (gi) {\n", "\n }"), (" { int q1; q1 = 2;\n {", "}\n }"), (" if (gi == 3) gi = 4; else {", "\n }"), (" do {", "} while (gi);")])
                if wh == "l" and name in ("break outside", "continue outside", "else without if", "continue in switch"): o, c = "", ""
                if name == "else without if": pad += " gi = 1;\n"
                pre, post = PRE + o + "\n" + pad, "\n gi = 5;" + c + POST
            body = pre + text + post
            ln = pre.count("\n") + 1; end = body.count("\n") + 1
            hi = end if wh == "E" else pre.count("\n") + 1 + (post.index("\n}\n") + 3 <= len(post) and post[:post.index("\n}\n") + 3].count("\n")) if wh == "e" else ln
            jobs.append(({"k": "rule", "t": name, "x": "", "cx": str(k), "e": e, "lo": ln, "hi": max(hi, ln)}, body))
    return jobs

def nested(n, o, c, x="gi = 1;"): return "int gi;\nvoid _start(void)\n{\n" + o * n + x + c * n + "\n}\n"
def fn(body, pre=""): return "int gi;\n" + pre + "void _start(void)\n{\n" + body + "\n}\n"
# name, text for n, largest number that has to work, smallest number above which it can't, the numbers to try
LIMITS = [
 ("parameters", lambda n: "int f(%s) { return p0; }\nvoid _start(void) { f(%s); }\n" % (", ".join("int p%d" % i for i in range(n)), ", ".join("1" * n)), 8, 8, range(1, 20)),
 ("arguments", lambda n: "int f(int a, ...) { return a; }\nvoid _start(void) { f(%s); }\n" % ", ".join("1" * n), 8, 10 ** 6, [1, 2, 7, 8, 9, 15, 16, 17, 24, 25, 40, 63, 64, 65, 100, 1000, 5000]),
 ("structs", lambda n: "".join("struct S%d { int a; };\n" % i for i in range(n)) + fn("gi = 1;"), 8, 8, range(1, 20)),
 ("members", lambda n: "struct S {%s };\n" % "".join(" int m%d;" % i for i in range(n)) + fn("gi = sizeof(struct S);"), 32, 32, [1, 30, 31, 32, 33, 34, 40, 100]),
 ("labels in a function", lambda n: fn("".join("l%d: gi = %d;\n" % (i, i) for i in range(n))), 8, 8, range(1, 20)),
 ("blocks", lambda n: nested(n, "{", "}"), 12, 16, range(1, 24)),
 ("blocks (deep)", lambda n: nested(n, "{", "}"), 12, 16, [100, 1000, 20000]),
 ("parentheses", lambda n: fn("gi = " + "(" * n + "gi" + ")" * n + ";"), 100, 10 ** 6, [1, 20, 100]),
 ("unary operators", lambda n: fn("gi = " + "- " * n + "gi;"), 100, 10 ** 6, [1, 20, 100]),
 ("cases", lambda n: fn("switch (gi) {\n" + "".join("case %d: gi = %d;\n" % (i, i + 1) for i in range(n)) + "}"), 100, 400, [1, 24, 25, 100, 150, 500, 2000]),
 ("cases in a group", lambda n: fn("switch (gi) {\n" + "".join("case %d:\n" % i for i in range(n)) + " gi = 1; }"), 24, 10 ** 6, [1, 12, 24, 120, 500]),
 ("jumps", lambda n: fn("".join("if (gi == %d) gi = %d;\n" % (i, i + 1) for i in range(n))), 150, 400, [1, 100, 150, 1000, 4000]),
 ("globals", lambda n: "".join("int g%d;\n" % i for i in range(n)) + fn("gi = 1;"), 300, 400, [1, 200, 300, 500, 1000, 5000]),
 ("globals of one name", lambda n: "".join("int f%d(void) { int a; static int b; a = 1; b = a; return b; }\n" % i for i in range(n)) + fn("gi = 1;"), 100, 400, [1, 100, 500]),
 ("locals", lambda n: fn("".join("int v%d; v%d = %d;\n" % (i, i, i) for i in range(n))), 300, 400, [1, 200, 300, 500, 1000, 4000]),
 ("statics in a function", lambda n: fn("".join("static int v%d; v%d = %d;\n" % (i, i, i) for i in range(n))), 2, 8, [1, 2, 9, 20, 100]),
 ("undeclared functions", lambda n: fn("".join("f%d();\n" % i for i in range(n))) + "".join("void f%d(void) { }\n" % i for i in range(n)), 4, 8, [1, 2, 3, 4, 9, 20, 100]),
 ("names", lambda n: fn("".join("{ int v%d; v%d = 1; }\n" % (i, i) for i in range(n))), 400, 600, [1, 200, 400, 700, 1000, 3000]),
 ("characters of a name", lambda n: "int %s;\n" % ("n" * n) + fn("%s = 1;" % ("n" * n)), 2000, 5100, [1, 31, 80, 255, 256, 600, 2000, 4000, 5200, 6000, 20000, 70000]),
 ("characters of all names", lambda n: fn("".join("{ int %s%d; gi = %d; }\n" % ("v" * 20, i, i) for i in range(n))), 150, 400, [1, 100, 150, 400, 401, 500]),
 ("characters of an undefined name", lambda n: fn("%s();" % ("u" * n)), 0, 0, [1, 31, 70, 80, 255, 600, 2000, 4000, 5200, 20000]),
 ("characters of a misplaced name", lambda n: fn("gi = gi %s;" % ("u" * n)), 0, 0, [1, 31, 70, 80, 255, 600, 2000, 4000, 5200, 20000]),
 ("array types", lambda n: fn("gi = 1;", "".join("int a%d[%d];\n" % (i, i + 1) for i in range(n))), 30, 40, [1, 16, 30, 60, 500]),
 ("dimensions", lambda n: fn("gi = 1;", "int a%s;\n" % ("[1]" * n)), 10, 40, [1, 5, 10, 60, 500]),
 ("stars", lambda n: fn("gi = 1;", "int %sa;\n" % ("*" * n)), 3, 10 ** 6, [1, 2, 3, 4, 5, 8, 16, 100]),
 ("string characters", lambda n: fn("gi = *\"%s\";" % ("s" * n)), 20000, 24576, [1, 100, 511, 512, 513, 4000, 20000, 24576, 24600, 30000, 70000]),
 ("code", lambda n: fn("".join("gi = gi * 3 + %d;\n" % i for i in range(n))), 1500, 4000, [1, 1000, 1500, 4100, 10000]),
 ("functions' code", lambda n: "".join("int f%d(int a) { int b; b = a; while (b) b = b - %d; return b; }\n" % (i, i + 1) for i in range(n)) + fn("gi = 1;"), 300, 390, [1, 100, 300, 391, 500]),
 ("emitted bytes", lambda n: fn("_emit 0x90 " * n + ";"), 20000, 24576, [1, 20000, 24577, 30000, 70000]),
 ("size of an array", lambda n: fn("a[1] = 1;", "char a[%d];\n" % n), 32767, 32767, [1, 1000, 32767, 32768, 40000, 65534, 65535]),
 ("arrays of 8K", lambda n: fn("gi = 1;", "".join("char a%d[8192];\n" % i for i in range(n))), 7, 7, range(1, 20)),
 ("digits of a number", lambda n: fn("gi = %s;" % ("0" * (n - 1) + "1")), 8, 10 ** 6, [1, 5, 8, 9, 20, 600, 5000]),
 ("else if", lambda n: fn(" else ".join("if (gi == %d) gi = %d;" % (i, i) for i in range(n))), 40, 10 ** 6, [1, 20, 40]),
 ("struct nesting", lambda n: "".join("struct S%d { %s int b%d; };\n" % (i, "struct S%d m;" % (i - 1) if i else "", i) for i in range(n)) + fn("struct S%d s; s.b%d = 1;" % (n - 1, n - 1)), 8, 8, range(1, 12)),
]
LINE0 = {"characters of an undefined name": None}

def limits():
    jobs = []
    for name, f, lim, hard, ns in LIMITS:
        for n in ns:
            body = f(n); jobs.append(({"k": "limit", "t": name, "x": "", "cx": str(n), "n": n, "lim": lim, "hard": hard, "lo": 1, "hi": body.count("\n") + 1}, body))
    return jobs

def literals(r, n):
    """character and string literals and numbers spelled with every character, in every position that matters; CLex says which are literals"""
    L = []
    C = [c for c in range(1, 256)]
    for c in C:
        x = bytes([c])
        for q in (b"'", b'"'): L += [q + x + q, q + b"\\" + x + q]
        L += [b"\"a\\" + x + b"b\"", b"'\\1" + x + b"'", b"1" + x, b"0x1" + x, b"0" + x]
    for q in (b"'", b'"'):
        L += [q, q + q, q + q + q, q + b"\\", q + b"\\" + q, q + b"ab" + q, q + b"a", q + b"\\n" + b"n" + q, q + b"\\\\" + q, q + b"\\\\\\" + q, q + b"\\377" + q, q + b"\\400" + q, q + b"\\0" + q, q + b"\\018" + q, q + b"\\x" + q, q + b"\\xg" + q,
              q + b"/*" + q, q + b"//" + q, q + b"a\nb" + q, q + b"a\r\nb" + q]
    L += [b'"a" "b"', b'"a"\'b\'', b'"a\\\n b"', b"1.5", b"1e5", b"1u", b"0b1", b"0x", b"0X", b"0xg", b"08", b"09", b"12345678", b"00000000", b"0x0000FF", b"1_", b"a1" b" 2"]
    for i in range(n):
        L.append(b"".join(r.choice([b"'", b'"', b"\\", b"a", b"0", b"7", b"8", b"x", b"n", b"\\n", b"\\0", b"\n", b" ", b"\xe9"]) for _ in range(r.randrange(1, 7))))
    jobs = []
    for k, f in enumerate(L):
        pre = b"int gi;\n" + b"\n" * (k % 3) + b"void _start(void)\n{\n gi = "
        star = b"*" if f[:1] == b'"' else b""
        body = pre + star + f + b" ;\n}\n"
        if f.startswith((b"'", b'"')) or f[:1].isdigit():
            jobs.append(({"k": "lit", "t": "lit", "x": f.decode("latin1"), "cx": "", "b": list(f), "lo": pre.count(b"\n") + 1, "hi": body.count(b"\n") + 1}, body))
    return jobs

def check(ctx, b, jobs, name):
    outs = pmap(lambda i: csyn.compile_(ctx, b, jobs[i][1], "%s%d" % (name, i), cpu=20), range(len(jobs)))
    rows = []
    for (c, body), (rc, line, touched, msg) in zip(jobs, outs): rows.append(dict(c, rc=rc if rc in (0, 1) else 2, line=line, out=touched))
    p = ctx.path("rules_%s.json" % name); write_ndjson(p, rows)
    t = run_tlc(ctx, "CRules", env={"RULE_CASES": p})
    res = [None] * len(rows)
    for v in t.lines: res[v[1] - 1] = (v[2], v[3])
    if any(v is None for v in res): raise CheckError("no verdict:\n" + t.out[-1500:])
    for (c, body), o, (v, e) in zip(jobs, outs, res):
        ctx.count(name); ctx.count("%s_%s" % (name, e))
        if v == "ok": continue
        if csyn.compile_(ctx, b, body, "re", cpu=20)[:3] != o[:3]: ctx.count("not_reproducible"); continue
        what = {"crash": "the compiler crashes or hangs", "output written": "rejected, but the output file was touched", "rejected": "a valid program is rejected", "accepted": "an invalid program is compiled",
                "line": "the diagnostic names line %d, not %d to %d" % (o[1], c["lo"], c["hi"])}[v]
        ctx.violation("%s:%s:%s:%s" % (c["k"], c["t"], c["x"], c["cx"]), "%s; exit code %d %s" % (what, o[0], o[3].strip()[-100:]), {"prog.c": body})
    return rows
