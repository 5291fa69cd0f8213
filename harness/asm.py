"""Running the real assembler on source files and checking what it wrote against spec/Asm.tla."""
import os, re, shutil, tempfile
from common import *

LINE = re.compile(rb"Line (\d+): Fatal")
KEEP = b"previous contents"

class Case:
    def __init__(self, src, tag="", big=False):
        self.src = src if isinstance(src, bytes) else src.encode("latin1"); self.tag = tag; self.big = big

def run_sas(ctx, tool, c, pre=()):
    d = tempfile.mkdtemp(prefix="as_", dir=ctx.dir)
    try:
        open(os.path.join(d, "t.asm"), "wb").write(c.src)
        p = os.path.join(d, "o.com"); open(p, "wb").write(KEEP)
        rc, out, err = limited([*pre, tool, "t.asm", "o.com"], cpu=5, out=200000, wall=60, cwd=d)
        o = open(p, "rb").read() if os.path.exists(p) else None
        return rc, out + err, o
    finally: shutil.rmtree(d)

def chars(b): return [chr(x) if 32 <= x < 127 else "<%d>" % x for x in b]

def jrec(c, r):
    rc, msg, o = r
    m = LINE.findall(msg)
    return {"b": list(c.src), "c": chars(c.src), "rc": rc, "out": list(o or b"") if rc == 0 else [], "kept": rc == 0 or o == KEEP,
            "eline": int(m[-1]) if m else 0, "big": c.big}

def tlc_cases(ctx, recs, name, workers):
    p = ctx.path(name + ".ndjson"); write_ndjson(p, recs)
    r = run_tlc(ctx, "Asm", env={"ASM_CASES": p}, workers=workers, heap="4g", xss="400m")
    os.unlink(p)
    res = [None] * len(recs)
    for t in r.lines:
        if t[0] == "VERDICT" and res[t[1] - 1] is None: res[t[1] - 1] = (t[2], t[3])
    for i, v in enumerate(res):
        if v is None: raise CheckError("no verdict for case %d of %s:\n%s" % (i + 1, name, r.out[-800:]))
    return res

def describe(v):
    if v[0] != "mismatch": return str(v)
    w = v[1]
    if w[0] == "instruction": return "line %s: %s was assembled as %s (%s)" % (w[1], w[2], " ".join("%02X" % x for x in w[3]), w[4] if w[5] else "no instruction")
    if w[0] == "data": return "line %s: byte %s of the data should be %s, is %s" % tuple(w[1:5])
    if w[0] == "reference": return "line %s: the reference should be %s, is %s" % tuple(w[1:4])
    if w[0] == "accepted": return "line %s is invalid (%s) but was accepted" % (w[1], w[2])
    if w[0] == "wrapped": return "line %s: a conditional jump to a label more than 127 bytes ahead was accepted; it goes elsewhere" % w[1]
    if w[0] == "line": return "the diagnostic names line %s instead of one of %s (%s)" % tuple(w[1:4])
    return str(w)

def validate(ctx, tool, cases, name, batch=60, par=4):
    cases = cases + [Case("org 256\njz far\n" + "dw 0\n" * 100 + "far: ret\n", "forward-jcc")]   # the known finding
    runs = pmap(lambda c: run_sas(ctx, tool, c), cases)
    order = list(range(len(cases)))
    bs = [order[i:i + batch] for i in range(0, len(order), batch)]
    def one(k): return tlc_cases(ctx, [jrec(cases[i], runs[i]) for i in bs[k]], "%s_%d" % (name, k), max(1, NPROC // par))
    res = [v for b in pmap(one, range(len(bs)), par) for v in b]
    for c, r, v in zip(cases, runs, res):
        ctx.count("cases"); ctx.count("cases_" + c.tag.split(":")[0]); ctx.count("verdict_" + v[0])
        if v[0] == "ok":
            ctx.count(v[1][0])
            if v[1][0] == "assembled": ctx.count("statements", v[1][1]); ctx.count("bytes", v[1][2]); ctx.count("references", v[1][3])
        if v[0] == "mismatch":
            if run_sas(ctx, tool, c) != r:
                ctx.count("not_reproducible"); continue
            ctx.violation("forward-jcc-range" if v[1][0] == "wrapped" else c.tag, "%s (exit code %s)" % (describe(v), r[0]), {"t.asm": c.src, "sas_output.bin": r[2] or b"", "sas_messages.txt": r[1]})
    return res

def cover(ctx, cases):
    c = ctx.counts
    ctx.cov.update({"states": ctx.tlc_stats["states"], "transitions": ctx.tlc_stats["states"] - ctx.tlc_stats["runs"],
                    "traces_validated_against_impl": c["cases"] + c.get("replayed", 0),
                    "samples": ctx.samples + [{"case": x.tag, "source": x.src[:300].decode("latin1")} for x in cases[:3]]})
    ctx.assumptions = ["the encoding of an instruction is free: any byte sequence that decodes to the source instruction is right",
                       "valid 8086 instructions outside the assembler's documented subset may be rejected, but not mis-assembled",
                       "sources stay within the table sizes (names, label references, 20000 bytes of output) unless they test them"]
    if c.get("verdict_ok", 0) + len(ctx.violations) < .9 * c["cases"]: raise CheckError("too few cases judged: %s" % c)
