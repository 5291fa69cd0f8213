"""Programs of global definitions in any order, through the real scc and sim86; judged by CImage.tla (orders enumerated by CImgOrd.tla)."""
import os, random, re
from common import *
import crun

PRE = "".join(crun.PRELUDE.splitlines(True)[:2])
TRACE = re.compile(r'<<\s*"TRACE",\s*<<([^>]*)>>,\s*(TRUE|FALSE)\s*>>')
IT = {"k": "", "n": "", "t": {"base": "int", "dims": [], "mem": []}, "b": [], "body": []}
def ty(base="int", dims=(), mem=()): return {"base": base, "dims": list(dims), "mem": list(mem)}
def item(k, n, **kw): return dict(IT, k=k, n=n, **kw)
def act(a, n="", v=0, t=None): return {"a": a, "n": n, "v": v, "t": t or IT["t"]}
PREITEMS = [item("fn", "obs"), item("fn", "quit")]

def trun(ctx, b, src, name):
    """rc of the compiler, map, image, words written, message"""
    d = ctx.path("img"); os.makedirs(d, exist_ok=True)
    c = os.path.join(d, name + ".c"); com = os.path.join(d, name + ".com"); mp = os.path.join(d, name + ".map")
    open(c, "w").write(src)
    rc, o, e = limited([os.path.join(b, "scc"), c, com], cpu=10)
    r = {"rc": rc if rc in (0, 1) else 2, "map": [], "img": [], "words": []}
    msg = (o + e).decode("latin1")
    if rc == 0:
        for l in open(mp, "rb").read().decode("latin1").split("\r\n"):
            if l: r["map"].append({"at": int(l[:4], 16), "n": l[5:]})
        r["img"] = list(open(com, "rb").read())
        rc2, o, e = limited([os.path.join(b, "sim86"), com], cpu=10, out=100000)
        msg += "run: %d %s" % (rc2, e.decode("latin1")[-80:])
        i = o.find(b"\xfe\xca"); o = o[i:] if i >= 0 else o        # (the console starts with anything sim86 says)
        r["words"] = [o[k] | o[k + 1] << 8 for k in range(0, len(o) - 1, 2)]
        if rc2 != 7: r["words"].append(70000 + rc2)
    for p in (c, com, mp):
        try: os.unlink(p)
        except OSError: pass
    return r, msg

def validate(ctx, b, jobs, name):
    """jobs: (tag, items, source)"""
    outs = pmap(lambda i: trun(ctx, b, jobs[i][2], "%s%d" % (name, i)), range(len(jobs)))
    n = max(1, min(4, len(jobs) // 20)); res = [None] * len(jobs)
    def one(k):
        ix = list(range(k, len(jobs), n)); p = ctx.path("img_%s_%d.json" % (name, k))
        write_ndjson(p, [dict(outs[i][0], items=PREITEMS + jobs[i][1]) for i in ix])
        t = run_tlc(ctx, "CImage", env={"IMG_CASES": p}, workers=max(1, NPROC // n), heap="4g"); os.unlink(p)
        for v in t.lines: res[ix[v[1] - 1]] = v[2]
        if any(res[i] is None for i in ix): raise CheckError("no verdict:\n" + t.out[-1500:])
    pmap(one, range(n), n)
    for (tag, its, src), (o, msg), v in zip(jobs, outs, res):
        ctx.count("programs"); ctx.count("verdict_" + v[0])
        if v[0] == "ok":
            if v[1] == "rejected": ctx.count("rejected")
            else:
                for i, w in enumerate(("bss_objects", "static_locals", "initialized", "functions", "words")): ctx.count(w, v[i + 1])
            if len(ctx.samples) < 3: ctx.samples.append({"program": src[len(PRE):][:400], "map": o["map"][:8]})
            continue
        if trun(ctx, b, src, "re")[0] != o: ctx.count("not_reproducible"); continue
        ctx.violation(tag, "%s; %s" % (" ".join(str(x) for x in v[1:]), msg.strip()[-100:]), {"prog.c": src})

# ---------------------------------------------------------------- orders
def orders(ctx, b, n):
    r = run_tlc(ctx, "CImgOrd", env={"ORD_LEN": str(n)}, prefix="@@")
    if r.rc != 0: raise CheckError("CImgOrd:\n" + r.out[-1500:])
    seqs = [re.findall(r'"([^"]*)"', m.group(1)) for m in TRACE.finditer(r.out)]
    if len(seqs) != sum(6 ** k for k in range(1, n + 1)): raise CheckError("orders printed: %d" % len(seqs))
    ctx.count("orders_enumerated", len(seqs))
    jobs = []
    for q in seqs:
        its = []; src = PRE; uses = 0; fk = vk = False
        for i, k in enumerate(q):
            if k == "P": src += "int f(int a);\n"; its.append(item("proto", "f")); fk = True
            elif k == "F": src += "int f(int a) { obs(%d); return a; }\n" % i; its.append(item("fn", "f", body=[act("obs", v=i)])); fk = True
            elif k == "X": src += "extern int v;\n"; its.append(item("decl", "v")); vk = True
            elif k == "V": src += "int v;\n"; its.append(item("bss", "v")); vk = True
            elif k == "I": src += "int v = %d;\n" % (i * 77 - 3); its.append(item("init", "v", b=[(i * 77 - 3) & 255, (i * 77 - 3) >> 8 & 255])); vk = True
            else:
                body = [act("call", "f")]; t = "f(%d);" % i
                if fk: body.append(act("fnaddr", "f")); t += " obs((int)f);"
                if vk: body.append(act("addr", "v")); t += " obs((int)&v);"
                src += "void u%d(void) { %s }\n" % (uses, t); its.append(item("fn", "u%d" % uses, body=body)); fk = True; uses += 1
        body = [act("obs", v=0xCAFE)] + [act("call", "u%d" % i) for i in range(uses)]
        src += "void _start(void) { obs(0xCAFE);%s quit(7); }\n" % "".join(" u%d();" % i for i in range(uses))
        jobs.append(("order:" + "".join(q), its + [item("fn", "_start", body=body + [act("call", "quit")])], src))
    validate(ctx, b, jobs, "ord")

# ---------------------------------------------------------------- random programs
def rtype(r):
    k = r.randrange(8)
    if k < 2: return ty("int"), "int %s"
    if k == 2: return ty("char"), r.choice(["char %s", "unsigned char %s", "const char %s"])
    if k == 3: return ty("ptr"), r.choice(["int* %s", "char* %s", "struct T* %s", "char** %s"])
    if k == 4: n = r.choice([1, 2, 3, 7, 127, 128, 300]); return ty("int", [n]), "int %%s[%d]" % n
    if k == 5: n = r.choice([1, 2, 3, 5, 255, 1000]); return ty("char", [n]), "char %%s[%d]" % n
    if k == 6: n, m = r.randrange(1, 5), r.randrange(1, 6); return ty("char", [n, m]), "char %%s[%d][%d]" % (n, m)
    if r.random() < .5: return ty("struct", [], TM), "struct T %s"
    n = r.randrange(1, 4); return ty("struct", [n], TM), "struct T %%s[%d]" % n
TM = [{"base": "int", "n": 0}, {"base": "char", "n": 3}, {"base": "ptr", "n": 0}, {"base": "char", "n": 0}]
STRUCT = "struct T { int a; char b[3]; int* c; char d; };\n"

def rinit(r):
    k = r.randrange(5)
    if k < 2:
        v = r.choice([0, 1, -1, 255, 256, -32768, 32767, r.randrange(-32768, 32768)])
        return "int %s", r.choice(["%d" % v, "%d + %d" % (v - 1, 1) if -32000 < v < 32000 else "%d" % v, "0x%X" % (v & 65535)]), [v & 255, v >> 8 & 255]
    if k == 2:
        v = r.randrange(32, 127); return r.choice(["char %s", "unsigned char %s", "static char %s"]), "%d" % v, [v]
    if k == 3:
        v = r.choice([0, 0, 1, 0x1234, 0x8000, 0xFFFF, 0xFF00, 300])
        return r.choice(["int* %s", "char* %s", "const char* %s", "char** %s", "unsigned char* %s", "unsigned* %s", "struct T* %s", "static char* %s", "unsigned %s", "static int %s", "const int %s"]), "%d" % v if v < 32768 else "0x%x" % v, [v & 255, v >> 8]
    s = "".join(r.choice("abcXYZ 019_-+/*\"\\\n\t\x01") for _ in range(r.choice([0, 1, 2, 5, 30, 300])))
    e = "".join({"\\": "\\\\", "\"": "\\\"", "\n": "\\n", "\t": "\\t", "\x01": "\\x01"}.get(c, c) for c in s)
    t = '"%s"' % e
    if len(s) > 3 and "\\" not in e and r.random() < .3: h = len(e) // 2; t = '"%s" "%s"' % (e[:h], e[h:])
    return r.choice(["char %s[]", "const char %s[]", "static const char %s[]"]), t, [ord(c) for c in s] + [0]

def random_program(r, size):
    nv, nf = r.randrange(1, size), r.randrange(1, size)
    names = ["v%d" % i if r.random() < .7 else "variable_%d_%s" % (i, "x" * r.randrange(20)) for i in range(nv)]
    fns = ["f%d" % i for i in range(nf)]
    out = []            # (items, text, names it declares)
    pend = list(names); r.shuffle(pend)
    tdef = {}
    while pend:
        n = pend.pop()
        if r.random() < .4: p, e, b = rinit(r); tdef[n] = ("init", p, e, b)
        else: t, p = rtype(r); tdef[n] = ("bss", p, t, None)
    slots = [("v", n) for n in names] + [("f", f) for f in fns]
    r.shuffle(slots)
    if r.random() < .3: slots.insert(0, ("f", "_start"))
    elif r.random() < .5: slots.insert(r.randrange(len(slots) + 1), ("f", "_start"))
    else: slots.append(("f", "_start"))
    # functions that may be called from f_i: those with a larger number
    known = set(); fknown = {"obs", "quit"}
    src = PRE + STRUCT; its = []
    implicit = 0
    def declare(n):
        k, p, x, b = tdef[n]
        return p % n, k, x, b
    def extern(n):
        nonlocal src
        k, p, x, b = tdef[n]
        if "[]" in p: return
        src += "extern %s;\n" % (p.replace("static ", "") % n); known.add(n)
        its.append(item("decl", n, t=x if k == "bss" else ty("char" if "char" in p else "int")))
    bodyless = {}
    def body(f):
        """actions and text"""
        nonlocal implicit
        acts = []; t = ""; st = 0
        i = int(f[1:]) if f != "_start" else -1
        acts.append(act("obs", v=0xCAFE if f == "_start" else 1000 + i)); t += " obs(%s);" % (0xCAFE if f == "_start" else 1000 + i)
        for _ in range(r.randrange(0, 7)):
            z = r.randrange(10)
            if z < 5 and known:
                n = r.choice(sorted(known)); k, p, x, b = tdef[n]
                if k == "bss" and x["dims"] and r.random() < .6:
                    q = [r.randrange(d) for d in x["dims"]]
                    one = 1 if x["base"] == "char" else 2 if x["base"] != "struct" else 8
                    off = 0
                    for d, qq in zip(x["dims"], q): off = off * d + qq
                    t += " obs((int)&%s%s);" % (n, "".join("[%d]" % y for y in q)); acts.append(act("addr", n, off * one))
                elif k == "bss" and x["base"] == "struct" and not x["dims"]:
                    m, off = r.choice([("a", 0), ("b[1]", 3), ("c", 5), ("d", 7)]); t += " obs((int)&%s.%s);" % (n, m); acts.append(act("addr", n, off))
                elif k == "init" and "[]" in p:
                    o = r.randrange(len(b)); t += " obs((int)%s);" % ("&%s[%d]" % (n, o)); acts.append(act("addr", n, o))
                else: t += " obs((int)%s%s);" % ("&" if not (k == "bss" and x["dims"]) else "", n); acts.append(act("addr", n))
            elif z == 5:
                if st + implicit > 2: continue
                t += " { static %s; obs((int)&s%d); }"; tt, p = rtype(r); t = t % (p % ("s%d" % st), st); acts.append(act("static", "s%d" % st, 0, tt)); st += 1
            elif z == 6:
                w = r.choice(["_SBSS", "_EBSS"]); t += " obs((int)&%s);" % w; acts.append(act("addr", w))
            elif z == 7:
                fk = sorted(x for x in fknown if x != "obs" or True); g = r.choice(fk); t += " obs((int)%s);" % g; acts.append(act("fnaddr", g))
            elif z == 8 and i + 1 < nf:
                g = fns[r.randrange(i + 1, nf)]
                if g in fknown or implicit + st < 3:
                    if g not in fknown: implicit += 1
                    fknown.add(g); t += " %s(1);" % g; acts.append(act("call", g))
            else: t += "".join(" pad = pad * %d + 3;" % k for k in range(r.choice([0, 1, 3, 30])))
        return acts, t
    defs = {}
    for k, n in slots:
        if r.random() < .15 and names: extern(r.choice(names))
        if r.random() < .15:
            g = r.choice(fns); src += "int %s(int a);\n" % g; its.append(item("proto", g)); fknown.add(g)
        implicit = 0
        if k == "v":
            p, kk, x, b = declare(n)
            src += p + (" = %s;\n" % x if kk == "init" else ";\n")
            its.append(item("init", n, b=b) if kk == "init" else item("bss", n, t=x)); known.add(n)
            if r.random() < .1: extern(n)
        else:
            if n != "_start": fknown.add(n)
            a, t = body(n)
            if n == "_start":
                a += [act("call", g) for g in ([fns[-1]] if fns[-1] in fknown or True else [])]; t += " %s(1);" % fns[-1]
                for g in r.sample(sorted(fknown - {"obs", "quit"}), min(3, len(fknown - {"obs", "quit"}))): a.append(act("call", g)); t += " %s(2);" % g
                fknown.add(fns[-1]); a.append(act("call", "quit")); t += " quit(7);"
                src += "void _start(void) { int pad; pad = 1;%s }\n" % t
            else: src += "int %s(int a) { int pad; pad = a;%s return a; }\n" % (n, t)
            its.append(item("fn", n, body=a))
    # not more array types than the compiler has room for
    arrays = sum(l.count("[") if not re.match(r"(int|void) \w+\(", l) else sum(x.count("[") for x in re.findall(r"\{ static [^;]*;", l)) for l in src[len(PRE):].split("\n"))
    return (its, src) if arrays <= 30 else random_program(r, max(2, size - 3))

def family_random(ctx, b, seed, n, size, name):
    jobs = []
    for i in range(n):
        its, src = random_program(random.Random("img/%s/%d/%d" % (name, seed, i)), size)
        jobs.append(("%s:%d" % (name, i), its, src))
    validate(ctx, b, jobs, name)
