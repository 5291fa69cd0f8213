"""Compile and run C programs with the real toolchain and validate what they did against spec/CSem.tla."""
import os, struct, json
from common import *
import cast

MAXOBS = 20000

PRELUDE = """void obs(int v) { _emit 0x8D _emit 0x56 _emit 0x04 _emit 0xB9 _emit 0x02 _emit 0x00 _emit 0xBB _emit 0x01 _emit 0x00 _emit 0xB4 _emit 0x40 _emit 0xCD _emit 0x21 }
void quit(int v) { _emit 0x8A _emit 0x46 _emit 0x04 _emit 0xB4 _emit 0x4C _emit 0xCD _emit 0x21 }
int main(void);
void _start(void)
{
    char* bss = &_SBSS;
    while (bss != &_EBSS)
        *bss++ = 0;
    quit(main());
}
"""

def render(prog, rng=None, parens=0.0):
    return PRELUDE + cast.join(cast.Printer(rng, parens).program(prog))

class Compiled:
    pass

def compile_c(ctx, binp, src, name, timeout=5):
    r = Compiled()
    d = ctx.path("w")
    os.makedirs(d, exist_ok=True)
    c = os.path.join(d, name + ".c")
    with open(c, "wb") as f: f.write(src if isinstance(src, bytes) else src.encode("latin1"))
    com = os.path.join(d, name + ".com")
    r.rc, o, e = limited([os.path.join(binp, "scc"), c, com], cpu=timeout)
    r.msg = (o + e).decode("latin1"); r.com = com; r.c = c; r.map = os.path.join(d, name + ".map")
    return r

def run_com(ctx, binp, com, args=(), timeout=5, cwd=None):
    if ctx.counts.get("runaway", 0) > 24: timeout = 1     # enough evidence already
    rc, o, e = limited([os.path.join(binp, "sim86"), com, *args], cpu=timeout, cwd=cwd)
    if rc < 0: ctx.count("runaway")
    return rc, o, e

def cleanup(r):
    for p in (r.c, r.com, r.map):
        try: os.unlink(p)
        except OSError: pass

def execute(ctx, binp, src, name):
    """(compiled ok, message, observations, exit code)"""
    r = compile_c(ctx, binp, src, name)
    if r.rc != 0 or not os.path.exists(r.com):
        cleanup(r)
        return False, "scc: exit %s %s" % (r.rc, r.msg[:300]), [], -1
    rc, o, e = run_com(ctx, binp, r.com)
    cleanup(r)
    w = list(struct.unpack("<%dH" % (len(o) // 2), o[:len(o) // 2 * 2]))
    if len(w) > MAXOBS: w = w[:MAXOBS]; rc = -3
    return True, e.decode("latin1")[:300], w, rc if len(o) % 2 == 0 else -2

def validate(ctx, progs, srcs, tag, maxsteps=20000, chunk=400, names=None, module="CSem"):
    """progs: list of cast.Prog; srcs: their texts.  Executes all and checks the traces with TLC."""
    binp = ctx.path("bin")
    runs = pmap(lambda i: execute(ctx, binp, srcs[i], "%s%d" % (tag, i)), range(len(progs)))
    recs = []; index = []
    for i, (p, r) in enumerate(zip(progs, runs)):
        ok, msg, w, rc = r
        name = names[i] if names else "%s-%d" % (tag, i)
        if not ok:
            ctx.violation("%s:compile" % name, "program within the supported dialect is not compiled: " + msg, {"prog.c": srcs[i]})
            continue
        s = p.spec(); s["obs"] = w; s["exit"] = rc & 255 if rc >= 0 else 999
        recs.append(s); index.append(i)
    steps = 0
    # several TLC processes, each on a slice of the programs: loading the syntax trees is sequential in each
    nproc = max(1, min(4, len(recs) // 20))
    nchunks = max(nproc, -(-len(recs) // chunk))
    parts = [(lo, recs[lo::nchunks], index[lo::nchunks]) for lo in range(nchunks)] if recs else []
    def tlc(x):
        lo, part, ix = x
        f = ctx.path("progs_%s_%d.json" % (tag, lo))
        write_ndjson(f, part)
        t = run_tlc(ctx, module, env={"CSEM_PROGS": f, "CSEM_MAXSTEPS": str(maxsteps)}, workers=max(1, NPROC // nproc), heap="3g")
        os.unlink(f)
        return t
    results = pmap(tlc, parts, nproc)
    for (lo, part, ix), t in zip(parts, results):
        seen = {}
        for v in t.lines: seen[v[1]] = v
        if len(seen) != len(part): raise CheckError("TLC gave %d verdicts for %d programs\n%s" % (len(seen), len(part), t.out[-2000:]))
        for j in range(1, len(part) + 1):
            i = ix[j - 1]
            v = seen[j]
            ctx.count("programs_" + v[2]); ctx.count("observations", v[3]); steps += v[4]
            if v[2] == "mismatch":
                ok, msg, w, rc = runs[i]
                again = execute(ctx, binp, srcs[i], "%sre%d" % (tag, i))
                m = v[3] + 1       # the observations up to the wrong one must come out again
                if again[2][:m] != w[:m] or (again[3] != rc and rc >= 0):
                    ctx.count("unstable"); continue
                name = names[i] if names else "%s-%d" % (tag, i)
                got = w[v[3]] if v[3] < len(w) else None
                what = "observation %d: specification allows only %s, the compiled program gave %s (exit %s%s)" % (
                    v[3] + 1, v[5], got, rc, " " + msg if msg else "")
                ctx.violation("%s" % name, what, {"prog.c": srcs[i], "spec.json": json.dumps(part[j - 1]),
                                                  "observed.txt": "\n".join(map(str, w))})
    ctx.count("machine_steps", steps)
    return runs
