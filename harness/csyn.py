"""Mutated C programs through the real scc; verdicts from CSyn.tla."""
import os, random, re
from common import *
import cast, clex, crun

LINE = re.compile(r"In line (-?\d+): ")
KEEP = b"this file was here before"

def compile_(ctx, binp, text, name, cpu=5):
    """exit code, line named, was the output file touched, message"""
    d = ctx.path("syn"); os.makedirs(d, exist_ok=True)
    c = os.path.join(d, name + ".c"); com = os.path.join(d, name + ".com"); mp = os.path.join(d, name + ".map")
    open(c, "wb").write(text.encode("latin1") if isinstance(text, str) else text); open(com, "wb").write(KEEP)
    rc, o, e = limited([os.path.join(binp, "scc"), c, com], cpu=cpu)
    msg = (o + e).decode("latin1")
    ls = LINE.findall(msg)
    try: touched = open(com, "rb").read() != KEEP
    except OSError: touched = True
    for p in (c, com, mp):
        try: os.unlink(p)
        except OSError: pass
    return rc, int(ls[-1]) if ls else 0, touched, msg

PIECES = ["int", "char", "void", "unsigned", "struct", "S", "enum", "static", "typedef", "const", "return", "break", "continue", "goto", "if", "else", "for", "while", "do",
          "switch", "case", "default", "sizeof", "_emit", "va_arg", "x", "y", "nosuch", "0", "1", "'a'", '"s"', ";", ",", "(", ")", "{", "}", "[", "]", ":", "?", ".", "->", "...", "=", "==",
          "+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "<", ">", "<<", ">>", "<=", ">=", "!=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=",
          "@", "$", "\\", "`", "''", "'ab'", "'\\q'", '"\\8"', "0x", "09", "1z", "..", "'", '"', "/*"]

def mutate(r, toks):
    """(tokens, index of the first changed one)"""
    n = len(toks); i = r.randrange(n); k = r.randrange(8)
    if k <= 1: return toks[:i] + toks[i + 1:], i
    if k == 2: return toks[:i] + [toks[i]] + toks[i:], i + 1
    if k == 3 and i + 1 < n: return toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:], i
    if k == 4:
        j = min(n, i + r.randrange(1, 8)); return toks[:i] + toks[j:], i
    if k == 5: return toks[:i] + [r.choice(toks)] + toks[i + 1:], i
    if k == 6: return toks[:i] + [r.choice(PIECES)] + toks[i:], i
    return toks[:i] + [r.choice(PIECES)] + toks[i + 1:], i

def text(r, toks, style):
    """text, and the line of each token"""
    out = ""; ln = 1; lines = []; nl = r.choice(["\n", "\r\n"]) if style else "\n"
    for t in toks:
        lines.append(ln + 0)
        out += t; ln += t.count("\n")
        s = nl if style == 0 else r.choice([" ", " ", " ", nl, nl + nl, "\t", " // c" + nl, "/* c" + nl + " */"]) if style == 1 else r.choice([" ", " ", " ", nl])
        if t[-1] == "/": s = " " + s
        out += s; ln += s.count("\n")
    return out, lines

def case(b, res, lo, base):
    rc, line, touched, msg = res
    return {"b": clex.lat(b), "rc": rc if rc in (0, 1) else 2, "line": line, "out": touched, "lo": lo, "base": base}

def judge(ctx, rows, name):
    if not rows: return []
    n = max(1, min(4, len(rows) // 10)); res = [None] * len(rows)
    def one(k):
        ix = list(range(k, len(rows), n))
        p = ctx.path("syn_%s_%d.json" % (name, k)); write_ndjson(p, [rows[i] for i in ix])
        t = run_tlc(ctx, "CSyn", env={"SYN_CASES": p}, workers=max(1, NPROC // n), heap="3g")
        os.unlink(p)
        for v in t.lines: res[ix[v[1] - 1]] = v[2]
        if any(res[i] is None for i in ix): raise CheckError("no verdict:\n" + t.out[-800:])
    pmap(one, range(n), n)
    return res

def describe(v):
    return {"crash": "the compiler crashes", "output written": "the program is rejected but the output file was touched"}.get(v[1]) or (
        "invalid program accepted (%s)" % v[2:] if v[1].startswith("accepted") else "the diagnostic names line %s, expected %s" % (v[2], v[3:]) if v[1] == "line" else str(v))

def validate(ctx, binp, jobs, name):
    """jobs: (tag, text, first line that may be wrong, is it a valid program)"""
    outs = pmap(lambda i: compile_(ctx, binp, jobs[i][1], "%s%d" % (name, i)), range(len(jobs)))
    res = judge(ctx, [case(j[1], o, j[2], j[3]) for j, o in zip(jobs, outs)], name)
    for i, (j, o, v) in enumerate(zip(jobs, outs, res)):
        ctx.count("programs"); ctx.count("verdict_" + v[0])
        if v[0] == "ok": ctx.count("ok_" + str(v[1]))
        if v[0] == "unjudged" and j[3]: raise CheckError("%s is not judged: %s" % (j[0], v))
        if v[0] == "mismatch":
            if compile_(ctx, binp, j[1], "re_%s%d" % (name, i))[:3] != o[:3]: ctx.count("not_reproducible"); continue
            ctx.violation(j[0], "%s; exit code %d %s" % (describe(v), o[0], o[3][-100:].strip()), {"prog.c": j[1]})
    return res

def mutants(ctx, binp, bases, per, seed, name):
    jobs = []
    for tag, src in bases:
        toks = clex.tokens(src)
        b, _ = text(random.Random(0), toks, 0)
        jobs.append(("base:" + tag, b, 1, True))
        # cut short after every token
        r = random.Random("cut/%d/%s" % (seed, tag))
        for n in sorted(set(r.randrange(len(toks)) for _ in range(per // 5))):
            b, ln = text(r, toks[:n], r.randrange(3)); jobs.append(("cut:%s:%d" % (tag, n), b, (ln + [1])[n - 1] if n else 1, False))
        for k in range(per):
            r = random.Random("mut/%d/%s/%d" % (seed, tag, k))
            t, i = mutate(r, toks)
            if r.random() < .15: t, j = mutate(r, t); i = min(i, j)
            b, ln = text(r, t, r.randrange(3))
            jobs.append(("mut:%s:%d" % (tag, k), b, ln[min(i, len(ln) - 1)] if ln else 1, False))
    return validate(ctx, binp, jobs, name)
