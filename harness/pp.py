"""Running the real scpp on sets of source files and checking its output against spec/Cpp.tla."""
import os, re, shutil, tempfile
from common import *

LINE = re.compile(rb"(?m)^(?:#error in )?([^\s:]{1,60}):(\d+)[:!]")

class Case:
    """files: [(name, bytes)], the first one is the file to preprocess"""
    def __init__(self, files, tag="", expect=None):
        self.files = [(n, b if isinstance(b, bytes) else b.encode("latin1")) for n, b in files]; self.tag = tag
        self.expect = expect      # None, or "reject"/"accept": what the generator intended (only counted)

def run_scpp(ctx, tool, c, pre=()):
    d = tempfile.mkdtemp(prefix="pp_", dir=ctx.dir)
    try:
        for n, b in c.files: open(os.path.join(d, n), "wb").write(b)
        rc, out, err = limited([*pre, tool, c.files[0][0], "out.i"], cpu=5, out=2000000, wall=60, cwd=d)
        p = os.path.join(d, "out.i")
        o = open(p, "rb").read() if os.path.exists(p) else b""
        return rc, out + err, o
    finally: shutil.rmtree(d)

def jrec(c, r):
    rc, msg, o = r
    m = LINE.search(msg) if rc != 0 and not c.tag.startswith("soup") else None
    return {"files": [{"n": list(n.encode()), "b": list(b)} for n, b in c.files], "out": list(o) if rc == 0 else [], "rc": rc,
            "efile": list(m.group(1)) if m else [], "eline": int(m.group(2)) if m else 0, "strict": True}

def tlc_cases(ctx, recs, name, workers):
    p = ctx.path(name + ".ndjson"); write_ndjson(p, recs)
    r = run_tlc(ctx, "Cpp", env={"CPP_CASES": p}, workers=workers, heap="3g", xss="256m")
    res = [None] * len(recs)
    for t in r.lines:
        if t[0] == "VERDICT" and res[t[1] - 1] is None: res[t[1] - 1] = (t[2], t[3])
    for i, v in enumerate(res):
        if v is None: raise CheckError("no verdict for case %d of %s:\n%s" % (i + 1, name, r.out[-800:]))
    return res

def txt(b): return "".join(chr(x) for x in b) if isinstance(b, list) and b and all(isinstance(x, int) for x in b) else b

def describe(v):
    if v[0] == "mismatch" and v[1][0] == "token": return "token %d should be %r, is %r" % (v[1][1], txt(v[1][2]), txt(v[1][3]))
    if v[0] == "mismatch" and v[1][0] == "accepted": return "line %s is invalid but was accepted" % v[1][1]
    if v[0] == "mismatch" and v[1][0] == "exit": return "valid input rejected: exit code %s, line %s" % (v[1][1], v[1][2])
    if v[0] == "mismatch" and v[1][0] == "line": return "the diagnostic names line %s instead of %s" % (v[1][1], v[1][2])
    return str(v)

def batches(xs, n): return [xs[i:i + n] for i in range(0, len(xs), n)]

def validate(ctx, tool, cases, name, batch=60, par=4):
    """every case through the real preprocessor and the specification"""
    runs = pmap(lambda c: run_scpp(ctx, tool, c), cases)
    idx = list(range(len(cases)))
    bs = batches(idx, batch)
    def one(k): return tlc_cases(ctx, [jrec(cases[i], runs[i]) for i in bs[k]], "%s_%d" % (name, k), max(1, NPROC // par))
    res = [v for b in pmap(one, range(len(bs)), par) for v in b]
    for c, r, v in zip(cases, runs, res):
        ctx.count("cases"); ctx.count("cases_" + c.tag.split(":")[0])
        ctx.count("verdict_" + v[0])
        if v[0] == "ok": ctx.count("rejected" if v[1] == "rejected" else "tokens", 1 if v[1] == "rejected" else v[1])
        if v[0] == "skipped": ctx.count("skipped_" + str(v[1]).replace(" ", "_"))
        if v[0] == "mismatch":
            r2 = run_scpp(ctx, tool, c)
            if r2 != r:
                ctx.count("not_reproducible"); continue
            fs = {n.replace("/", "_"): b for n, b in c.files}
            fs["scpp_output.i"] = r[2]; fs["scpp_messages.txt"] = r[1]
            ctx.violation(c.tag, "%s (exit code %s)" % (describe(v), r[0]), fs)
    return res

def cover(ctx, cases, res):
    c = ctx.counts
    ctx.cov.update({"states": ctx.tlc_stats["states"], "transitions": ctx.tlc_stats["states"] - ctx.tlc_stats["runs"],
                    "traces_validated_against_impl": c["cases"] + c.get("replayed", 0),
                    "samples": ctx.samples + [{"case": x.tag, "source": x.files[0][1][:300].decode("latin1")} for x in cases[:3]]})
    ctx.assumptions = ["cases stay within the preprocessor's table limits (16 names, 16 arguments, 3 nested files, 2 KB of token text per line)",
                       "expansions C leaves unspecified or undefined (invalid pastes, calls that may or may not be nested) are not judged; #if values stay within 16 bits",
                       "tokens are compared by spelling; white space between them only where tokens would merge or split"]
    if c.get("verdict_ok", 0) + len(ctx.violations) < .8 * c["cases"]: raise CheckError("too few cases judged: %s" % c)
