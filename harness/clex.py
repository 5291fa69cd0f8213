"""Layouts, spellings and operator strings of C programs, replayed into the real scc and judged by CLayout.tla and CMunch.tla."""
import hashlib, os, random, re, string, struct
from common import *
import cast, crun

TOK = re.compile(r'''\s+|/\*.*?\*/|//[^\n]*|\#[^\n]*|([A-Za-z_]\w*|\d\w*|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|<<=|>>=|\.\.\.|<<|>>|<=|>=|==|!=|&&|\|\||\+\+|--|->|[-+*/%&|^]=|.)''', re.S)

def tokens(src): return [m.group(1) for m in TOK.finditer(src) if m.group(1)]

def compile_bytes(ctx, binp, text, name, keep=False):
    r = crun.compile_c(ctx, binp, text, name)
    if r.rc == 0 and os.path.exists(r.com):
        img = open(r.com, "rb").read(); mp = open(r.map, "rb").read()
    else: img = mp = None
    if not keep: crun.cleanup(r)
    return r, img, mp

# ---- trivia ---------------------------------------------------------------------------------------
CTEXT = ["", " ", "*", "/", "**", "/*", "// x", "\"", "'", "\\", "#if 0", "a = b;", "*/ /*"[3:], "\n", "\r\n", "int x", "\t", "\x01\x7f", "\xe9\xff\x80", "\n\n#", "' \" '"]
def comment(r):
    b = "".join(r.choice(CTEXT) for _ in range(r.randrange(4)))
    b = b.replace("*/", "* /")
    while b.endswith("*") and r.random() < .3: b = b[:-1]
    return "/*" + b + "*/"
def linecomment(r, nl):
    b = "".join(r.choice(CTEXT) for _ in range(r.randrange(3))).replace("\n", "").replace("\r", "")
    return "//" + b + nl
def hashline(r, nl):
    return nl + r.choice(["#", "# 12 \"x.c\"", "#pragma once", "#line 7", "#define X /*", "# '"]) + nl

def gap(r, a, b, nl, style):
    """trivia between two tokens"""
    x = r.random()
    if style == "tight": x = 0 if x < .93 else x
    if style == "lines": x = .5 if x < .9 else x
    if style == "comments" and x < .6: x = .8
    if x < .35:
        if not sticky(a, b): return ""
        return r.choice([" ", nl, "\t", "/**/"])
    if x < .45: return " "
    if x < .6: return nl
    if x < .7: return "".join(r.choice([" ", "\t", nl, "\v", "\f", "\r"]) for _ in range(r.randrange(1, 6)))
    if x < .9: return comment(r) * r.choice([1, 1, 2])
    if x < .96: return linecomment(r, nl)
    return hashline(r, nl)

def sticky(a, b):
    if not a or not b: return False
    if (a[-1].isalnum() or a[-1] == "_") and (b[0].isalnum() or b[0] == "_"): return True
    return a[-1] in "+-*/%&|^<>=!." and b[0] in "+-*/%&|^<>=!." 

def respell(r, t):
    """another spelling of the same token"""
    if t[0].isdigit() and r.random() < .5:
        v = int(t, 16 if t[:2] in ("0x", "0X") else 8 if t[0] == "0" and len(t) > 1 else 10) & 0xffff
        return number(r, v)
    if t[0] == '"' and len(t) > 2 and r.random() < .5: return string_(r, parse(t))
    if t[0] == "'" and r.random() < .5: return "'" + char_(r, parse(t)[0], "'") + "'"
    return t

def parse(t):
    """bytes of a literal"""
    out = []; i = 1
    while i < len(t) - 1:
        c = t[i]; i += 1
        if c != "\\": out.append(ord(c)); continue
        c = t[i]; i += 1
        if c == "x":
            m = re.match(r"[0-9a-fA-F]{1,2}", t[i:]); out.append(int(m.group(), 16)); i += len(m.group())
        elif c in "01234567":
            m = re.match(r"[0-7]{1,3}", t[i - 1:]); out.append(int(m.group(), 8) & 255); i += len(m.group()) - 1
        else: out.append({"n": 10, "r": 13, "t": 9}.get(c, ord(c)))
    return out

def number(r, v):
    fs = ["%d" % v, "0x%x" % v, "0X%X" % v, "0x%04x" % v, "0x%08X" % v, "0%o" % v]
    if v < 128: fs += ["'" + char_(r, v, "'") + "'"] * 2
    elif v >= 0xff80: fs += ["'\\x%02x'" % (v & 255), "'\\%o'" % (v & 255)]
    return r.choice(fs)

def char_(r, b, q, nxt=None):
    """a spelling of byte b in a literal; nxt: the character that follows"""
    fs = []
    if 32 <= b < 127 and chr(b) not in "\\" + q: fs += [chr(b)] * 4
    e = {10: "n", 13: "r", 9: "t", 39: "'", 34: '"', 92: "\\"}
    if b in e: fs += ["\\" + e[b]] * 3
    fs.append("\\%03o" % b)
    hexok = nxt is None or nxt not in string.hexdigits
    if hexok: fs += ["\\x%02x" % b, "\\x%02X" % b]
    if hexok and b < 16: fs.append("\\x%x" % b)
    if nxt is None or nxt not in "01234567": fs.append("\\%o" % b)
    return r.choice(fs)

def string_(r, bs):
    out = ""; nxt = '"'
    for b in reversed(bs):
        s = char_(r, b, '"', nxt)
        out = s + out; nxt = s[0]
        if r.random() < .12: out = '"' + r.choice([" ", "", "\n", "/* x */", "\t\n", "// y\n"]) + '"' + out; nxt = '"'
    return '"' + out + '"'

def layout(r, toks, style=None, spell=True):
    style = style or r.choice(["mixed", "tight", "lines", "comments"])
    nl = r.choice(["\n", "\n", "\r\n"])
    out = [gap(r, "", "", nl, style) if r.random() < .7 else ""]
    prev = ""
    for t in toks:
        if prev: out.append(gap(r, prev, t, nl, style))
        if spell: t = respell(r, t)
        out.append(t); prev = t
    out.append(r.choice(["", nl, " ", "\t" + nl, comment(r), linecomment(r, ""), linecomment(r, nl), hashline(r, "\n").rstrip("\n"), nl + nl]))
    return "".join(out)

def judge(ctx, cases, name):
    """verdicts of CLayout.tla for the cases, in order"""
    if not cases: return []
    n = max(1, min(4, len(cases) // 4)); res = [None] * len(cases)
    def one(k):
        ix = list(range(k, len(cases), n))
        p = ctx.path("lay_%s_%d.json" % (name, k)); write_ndjson(p, [cases[i] for i in ix])
        t = run_tlc(ctx, "CLayout", env={"LAY_CASES": p}, workers=max(1, NPROC // n), heap="3g")
        os.unlink(p)
        for v in t.lines: res[ix[v[1] - 1]] = v[2]
        if any(res[i] is None for i in ix): raise CheckError("no verdict:\n" + t.out[-800:])
    pmap(one, range(n), n)
    return res

def lat(s): return list(s.encode("latin1"))

def layouts(ctx, binp, progs, per, name):
    """progs: (tag, source text); each gets `per` random layouts"""
    jobs = []
    for tag, src in progs:
        r = random.Random("lay/%d/%s" % (ctx.seed, tag))
        toks = [string_(r, parse(t)) if t[0] == '"' else t for t in tokens(src)]
        texts = [" ".join(toks) + "\n"] + [layout(r, toks) for _ in range(per)]
        jobs.append((tag, texts))
    flat = [(j, i) for j, (t, ts) in enumerate(jobs) for i in range(len(ts))]
    def comp(x):
        j, i = x
        r, img, mp = compile_bytes(ctx, binp, jobs[j][1][i], "%s_%d_%d" % (name, j, i))
        return (img, mp), r.msg
    outs = dict(zip(flat, pmap(comp, flat)))
    cases = []
    for j, (t, ts) in enumerate(jobs):
        ids = {(None, None): 0}; tx = []
        for i in range(len(ts)):
            o = outs[(j, i)][0]
            if o not in ids: ids[o] = len(ids)
            tx.append({"b": lat(ts[i]), "img": ids[o]})
        if tx[0]["img"] == 0: ctx.violation("%s:compile" % t, "program within the supported dialect is not compiled: " + outs[(j, 0)][1][:200], {"prog.c": ts[0]})
        cases.append({"kind": "layout", "texts": tx})
    res = judge(ctx, cases, name)
    for (t, ts), v, j in zip(jobs, res, range(len(jobs))):
        ctx.count("programs"); ctx.count("layouts", len(ts))
        ctx.count("layout_" + v[0])
        if v[0] == "ok": ctx.count("tokens_compared", v[2] * (len(ts) - 1)); ctx.count("layouts_with_other_tokens", v[1])
        if v[0] == "mismatch":
            i = v[1] - 1
            if comp((j, i))[0] != outs[(j, i)][0]: ctx.count("not_reproducible"); continue
            ctx.violation("layout:%s" % t, "two layouts of the same tokens compile differently: %s" % (outs[(j, i)][1][:120] or "different COM or map file"),
                          {"prog.c": ts[0], "layout.c": ts[i]})
    return jobs

def shifts(ctx, binp, text, amounts, name):
    """text preceded by fillers of each length: blanks, line ends, a comment, a # line"""
    fills = []
    for n in amounts:
        fs = [" " * n, "\r\n" * (n // 2) + " " * (n % 2)]
        if n >= 4: fs += ["/*" + "*" * (n - 4) + "*/"]
        if n >= 3: fs += ["//" + "x" * (n - 3) + "\n", "#" + "'" * (n - 2) + "\n"]
        fills.append(fs[n % len(fs)]); 
        if n % 7 == 0: fills += fs
    fills = sorted(set(fills), key=lambda f: (len(f), f))
    def comp(i):
        r, img, mp = compile_bytes(ctx, binp, fills[i] + text, "%s_s%d" % (name, i))
        return (img, mp), r.msg
    outs = pmap(comp, range(len(fills)))
    ref = compile_bytes(ctx, binp, text, name + "_ref"); ref = (ref[1], ref[2])
    if ref[0] is None: ctx.violation("shift:compile", "the program is not compiled", {"prog.c": text}); return
    rows = [{"kind": "shift", "fills": [{"b": lat(f), "same": o[0] == ref} for f, o in zip(fills[k::4], outs[k::4])]} for k in range(4)]
    for k, v in enumerate(judge(ctx, rows, name)):
        ctx.count("shifts", len(rows[k]["fills"]))
        if v[0] == "mismatch":
            i = k + 4 * (v[1] - 1)
            if comp(i)[0] != outs[i][0]: ctx.count("not_reproducible"); continue
            ctx.violation("shift:%s:%d" % (name, len(fills[i])), "the program compiles differently after %d characters of blanks or comment: %s" % (len(fills[i]), outs[i][1][:120]),
                          {"prog.c": text, "shifted.c": fills[i] + text})

def literals(ctx, binp, seed, n):
    r = random.Random("lits/%d" % seed)
    nums = []
    for v in [0, 1, 7, 8, 9, 10, 15, 16, 255, 256, 32767, 32768, 65535, 0x7f, 0x80, 0xabcd, 0xfedc, 12345]:
        nums += ["%d" % v, "0x%x" % v, "0X%X" % v, "0x%06x" % v, "0%o" % v, "00%o" % v]
    for b in range(256):
        if 32 <= b < 127 and chr(b) not in "'\\": nums.append("'%c'" % b)
        nums += ["'\\x%x'" % b, "'\\x%02X'" % b, "'\\%o'" % b, "'\\%03o'" % b]
    nums += ["'\\%s'" % c for c in "nrt'\"\\"] + ["'\xe9'", "'\x80'", "'\xff'"]
    strs = ['""', '"abc"', '"" ""', '"a" "b"', '"a"\n/* x */ "b" // y\n"c"', '"//"', '"/*"', '"*/"', '"#"', '"\\\\"', '"\'"', '"\\\'"', '"\\x41g"', '"\\1018"', '"\\0"', '"\\0001"',
            '"\\x4" "1"', '"a\\0b"', '"\xe9\x80"', '"' + "x" * 300 + '"', '"\\n\\r\\t\\"\\\\"']
    for _ in range(n):
        strs.append(string_(r, [r.choice([r.randrange(256), r.randrange(32, 127), 10, 34, 92, 48, 97]) for _ in range(r.randrange(0, 24))]))
    progs = []
    for i in range(0, len(nums), 60):
        part = nums[i:i + 60]
        body = "".join("    obs(%s);\n" % x for x in part)
        progs.append((crun.PRELUDE + "int main(void)\n{\n%s    return 0;\n}\n" % body, part, [1] * len(part)))
    for i in range(0, len(strs), 12):
        part = strs[i:i + 12]
        ls = [len([b for s in tokens(x) for b in parse(s)]) + 1 for x in part]
        body = "".join("    p = %s; i = 0; while (i < %d) { obs(p[i]); i = i + 1; }\n" % (x, n) for x, n in zip(part, ls))
        progs.append((crun.PRELUDE + "int main(void)\n{\n    char* p; int i;\n%s    return 0;\n}\n" % body, part, ls))
    runs = pmap(lambda i: crun.execute(ctx, binp, progs[i][0], "lit%d" % i), range(len(progs)))
    cases = []; ok = []
    for (src, part, ls), (good, msg, w, rc) in zip(progs, runs):
        if not good or len(w) != sum(ls):
            ctx.violation("literals:%s" % part[0], "literals not compiled or not printed: %s (%d of %d values)" % (msg, len(w), sum(ls)), {"prog.c": src}); continue
        c = []; k = 0
        for x, n in zip(part, ls): c.append({"b": lat(x), "obs": w[k:k + n]}); k += n
        cases.append({"kind": "lit", "lits": c}); ok.append((src, part))
    for (src, part), v in zip(ok, judge(ctx, cases, "lit")):
        ctx.count("literals", len(part))
        if v[0] == "mismatch": ctx.violation("literal:%s" % part[v[1] - 1][:40], "the literal %s has another value" % part[v[1] - 1], {"prog.c": src})

MTRACE = re.compile(r'<<\s*"TRACE",\s*<<([^>]*)>>,\s*"(\w+)",\s*(-?\d+),\s*(-?\d+),\s*(-?\d+)\s*>>')
def munch(ctx, binp, n, alphabet):
    """every operator string TLC enumerates, in the real compiler"""
    t = run_tlc(ctx, "CMunch", env={"MUNCH_LEN": str(n), "MUNCH_SET": alphabet}, prefix="@@")
    trs = [("".join(chr(int(x)) for x in m.group(1).split(",")), m.group(2), tuple(int(m.group(i)) for i in (3, 4, 5))) for m in MTRACE.finditer(t.out)]
    if 2 * len(trs) + 1 != t.distinct: raise CheckError("traces printed: %d, states: %d" % (len(trs), t.distinct))
    ctx.count("munch_enumerated", len(trs))
    def stmt(s): return "    a = 29; b = 3; r = 777;\n    r = a%sb\n;\n    obs(r); obs(a); obs(b);\n" % s
    def prog(ss): return crun.PRELUDE + "int main(void)\n{\n    int a; int b; int r;\n%s    return 0;\n}\n" % "".join(stmt(s) for s in ss)
    single = [x for x in trs if x[1] in ("reject", "maybe")]
    def one(i):
        s, k, v = single[i]
        r, img, mp = compile_bytes(ctx, binp, prog([s]), "mu%s%d" % (alphabet, i))
        return r.rc, r.msg, img is not None
    outs = pmap(one, range(len(single)))
    good = [x for x in trs if x[1] == "value"]
    for i, ((s, k, v), (rc, msg, com)) in enumerate(zip(single, outs)):
        if k == "maybe":
            if rc == 0: good.append((s, k, v))
            elif rc != 1: ctx.violation("munch:%s" % s, "exit code %d" % rc, {"prog.c": prog([s])})
            continue
        ctx.count("munch_rejected")
        if rc != 1 or com:
            if one(i) != (rc, msg, com): ctx.count("not_reproducible"); continue
            ctx.violation("munch:%s" % s, "r = a%sb; is not C but the compiler's exit code is %d" % (s, rc), {"prog.c": prog([s])})
    groups = [good[i:i + 30] for i in range(0, len(good), 30)]
    def run(g, name):
        ok, msg, w, rc = crun.execute(ctx, binp, prog([x[0] for x in g]), name)
        if not ok: return msg
        w = [x - 65536 if x >= 32768 else x for x in w]
        for i, (s, k, v) in enumerate(g):
            if tuple(w[3 * i:3 * i + 3]) != v: return (i, "r = a%sb; makes r, a, b %s instead of %s" % (s, w[3 * i:3 * i + 3], v))
        return None
    for k, (g, res) in enumerate(zip(groups, pmap(lambda i: run(groups[i], "mg%s%d" % (alphabet, i)), range(len(groups))))):
        ctx.count("munch_values", len(g))
        if res is None: continue
        for x in g:       # which one
            q = run([x], "mgx")
            if q: ctx.violation("munch:%s" % x[0], q if isinstance(q, str) else q[1], {"prog.c": prog([x[0]])}); break
    return trs
