"""Programs that call lib.h, preprocessed, compiled and run with the real tools; what they did is decided by spec/Lib.tla."""
import os, random, shutil, struct, tempfile
from common import *

DRIVER = r"""#include "lib.h"
char A[256];
char S[%(blob)d];
char* P;
int H[4];
int Z[50];
int T, R;
int raw(int ax, int bx, int cx, int dx)
{
    _emit 0x8B _emit 0x46 _emit 0x04 _emit 0x8B _emit 0x5E _emit 0x06 _emit 0x8B _emit 0x4E _emit 0x08 _emit 0x8B _emit 0x56 _emit 0x0A _emit 0xCD _emit 0x21
}
void dump(int ret)
{
    R = ret;
    raw(0x4000, T, 2, &R);
    raw(0x4000, T, 256, A);
}
int zero(void)
{
    int i;
    int r = 0;
    for (i = 0; i < 50; ++i) r |= Z[i];
    for (i = 0; i < 256; ++i) r |= A[i];
    return r;
}
int args(int argc, char** argv)
{
    int i;
    char* p = A;
    for (i = 1; i < argc; ++i) {
        strcpy(p, argv[i]);
        p += strlen(p) + 1;
    }
    return argc;
}
void init(void)
{
    int i;
    i = raw(0x3D00, 0, 0, "blob.bin");
    raw(0x3F00, i, %(blob)d, S);
    raw(0x3E00, i, 0, 0);
    T = raw(0x3C00, 0, 0, "trace.bin");
}
%(funcs)s
int main(int argc, char** argv)
{
    int i;
    i = zero();
    init();
    int j;
    for (j = 0; j < 256; ++j) A[j] = j * 5 + 1;
    dump(i);
    dump(args(argc, argv));
%(calls)s
    return %(code)d;
}
"""

class Case:
    def __init__(self, tag): self.tag = tag; self.steps = []; self.c = []; self.blob = bytearray(); self.before = []; self.words = []; self.how = "return"; self.code = 0; self.end = None
    def put(self, b):
        """bytes in the read-only area, as a C expression"""
        i = self.blob.find(b + b"\0")
        if i < 0: i = len(self.blob); self.blob += b + b"\0"
        return "S+%d" % i
    def source(self):
        fs = []; calls = ""
        for k in range(0, len(self.c), 8):
            fs.append("void f%d(void)\n{\n%s}\n" % (k, "".join("    %s\n" % l for l in self.c[k:k + 8]))); calls += "    f%d();\n" % k
        if self.end: calls += "    %s\n" % self.end
        return DRIVER % {"blob": max(1, len(self.blob)), "funcs": "".join(fs), "calls": calls, "code": self.code}

def run_case(ctx, binp, c):
    d = tempfile.mkdtemp(prefix="lib_", dir=ctx.dir)
    try:
        shutil.copy(os.path.join(REPO, "lib.h"), d)
        open(os.path.join(d, "t.c"), "w").write(c.source()); open(os.path.join(d, "blob.bin"), "wb").write(bytes(c.blob) or b"\0")
        fd = os.path.join(d, "f"); 
        for n, b in c.before: open(os.path.join(d, n), "wb").write(b)
        for cmd in (["scpp", "t.c", "t.i"], ["scc", "t.i", "t.com"]):
            rc, o, e = limited([os.path.join(binp, cmd[0])] + cmd[1:], cpu=5, cwd=d)
            if rc != 0: return ("build", "%s: exit code %d %s" % (cmd[0], rc, (o + e)[:200]))
        rc, o, e = limited([os.path.join(binp, "sim86"), "t.com"] + c.words, cpu=20, wall=60, cwd=d)
        p = os.path.join(d, "trace.bin")
        t = open(p, "rb").read() if os.path.exists(p) else b""
        fs = [(n, open(os.path.join(d, n), "rb").read()) for n in sorted(os.listdir(d)) if n.startswith("F_")]
        return ("run", rc, o, t, fs, e[:300])
    finally: shutil.rmtree(d)

def rec(c, r):
    _, rc, o, t, fs, e = r
    st = []
    for k, s in enumerate(c.steps):
        b = t[k * 258:k * 258 + 258]
        if len(b) < 258: break
        st.append(dict(s, ret=b[0] + 256 * b[1], mem=list(b[2:])))
    return {"steps": st, "calls": len(c.steps), "con": list(o), "exit": rc if rc >= 0 else 999, "how": c.how, "code": c.code,
            "tail": list(b" ".join(w if isinstance(w, bytes) else w.encode("latin1") for w in c.words)),
            "before": [{"n": n, "b": list(b)} for n, b in c.before], "files": [{"n": n, "b": list(b)} for n, b in fs]}

def validate(ctx, binp, cases, batch=40, par=4):
    runs = pmap(lambda c: run_case(ctx, binp, c), cases)
    ix = []
    for k, (c, r) in enumerate(zip(cases, runs)):
        if r[0] == "build": ctx.violation(c.tag + ":build", r[1], {"t.c": c.source(), "blob.bin": bytes(c.blob)})
        else: ix.append(k)
    parts = [ix[k:k + batch] for k in range(0, len(ix), batch)]
    def one(n):
        p = ctx.path("lib%d.ndjson" % n); write_ndjson(p, [rec(cases[k], runs[k]) for k in parts[n]])
        t = run_tlc(ctx, "Lib", env={"LIB_CASES": p}, workers=max(1, NPROC // par), heap="3g", xss="256m")
        os.unlink(p)
        res = {}
        for l in t.lines: res.setdefault(l[1], (l[2], l[3]))
        if len(res) != len(parts[n]): raise CheckError("TLC gave %d verdicts for %d programs\n%s" % (len(res), len(parts[n]), t.out[-800:]))
        return [(parts[n][j - 1], v) for j, v in res.items()]
    for l in pmap(one, range(len(parts)), par):
        for k, v in l:
            c = cases[k]
            ctx.count("programs"); ctx.count("verdict_" + v[0]); ctx.count("calls", v[1][0] if v[0] == "ok" else 0)
            if v[0] != "ok":
                if run_case(ctx, binp, c)[:5] != runs[k][:5]: ctx.count("not_reproducible"); continue
                n = v[1][0] if isinstance(v[1][0], int) else 0
                what = " ".join(map(str, v[1])) + (" at %s" % c.c[n - 3] if n > 2 else "")
                ctx.violation(c.tag, what, {"t.c": c.source(), "blob.bin": bytes(c.blob), "args.txt": repr(c.words), "WHY.txt": repr(v), "stderr.txt": runs[k][5]})
    for c in cases:
        for s in c.steps: ctx.count("fn_" + s["f"])
