"""Every sequence of conditional directives that TLC enumerates from spec/CppCond.tla, replayed into the real scpp."""
import random, re
from common import *
import pp

TRACE = re.compile(r'<<"TRACE", <<([^>]*)>>, <<([^>]*)>>, (-?\d+)>>')
TEXT = {"0": ["#if 0", "#ifdef NOT", "#ifndef YES", "#if NOT", "#if defined NOT", "# if !YES"], "1": ["#if 1", "#ifdef YES", "#ifndef NOT", "#if YES", "#if defined(YES)", "#if 2>1"],
        "e": ["#elif 0", "#elif NOT", "#elif !YES"], "E": ["#elif 1", "#elif YES", "# elif !NOT"], "l": ["#else", "# else", "#else // c"], "n": ["#endif", " #endif", "#endif // c"]}

def traces(ctx, n):
    r = run_tlc(ctx, "CppCond", env={"COND_LEN": str(n)}, heap="4g")
    res = []
    for m in TRACE.finditer(r.out):
        seq = [x.strip().strip('"') for x in m.group(1).split(",")]
        res.append((seq, [int(x) for x in m.group(2).split(",")] if m.group(2).strip() else [], int(m.group(3))))
    if len(res) != r.distinct - 1: raise CheckError("traces printed: %d, states: %d" % (len(res), r.distinct))
    return res, r

def render(r, seq, k):
    o = ""
    for i, x in enumerate(seq): o += ("m%d_%d __LINE__" % (k, i + 1) if x == "t" else r.choice(TEXT[x])) + "\n"
    return o

def run(ctx, tool, n, sample):
    r = random.Random("condenum/%d" % ctx.seed)
    trs, tlc = traces(ctx, n)
    ctx.count("enumerated", len(trs))
    head = "#define YES 1\n"
    good = [t for t in trs if t[2] == 0]; bad = [t for t in trs if t[2] != 0]
    short = [t for t in bad if len(t[0]) <= 4]; rest = [t for t in bad if len(t[0]) > 4]
    r.shuffle(rest); bad = short + rest[:sample]
    r.shuffle(good)
    jobs = []
    for i in range(0, len(good), 60):
        src = head; want = []; g = good[i:i + 60]
        for k, (seq, live, _) in enumerate(g):
            at = src.count("\n")
            src += render(r, seq, k)
            for l in live: want.append("m%d_%d %d" % (k, l, at + l))
        jobs.append((src, want, 0, g))
    for t in bad:
        src = head + render(r, t[0], 0)
        jobs.append((src, None, 1 + t[2] if t[2] > 0 else -1, [t]))
    def one(j):
        c = pp.Case([("t.c", j[0])])
        rc, msg, out = pp.run_scpp(ctx, tool, c)
        if j[1] is not None:
            got = [l.strip() for l in out.decode("latin1").split("\n") if l.strip()]
            if rc != 0: return "valid groups rejected: exit code %d %s" % (rc, msg[:100])
            if got != j[1]:
                d = [x for x in zip(j[1] + [None] * 9999, got) if x[0] != x[1]]
                return "live lines differ: first difference (expected, got) %s, %d lines instead of %d" % (d[0] if d else "end", len(got), len(j[1]))
        else:
            if rc == 0: return "unbalanced groups accepted: %s" % " ".join(j[3][0][0])
            if rc < 0 and rc != -6: return "crash %d" % rc
            m = pp.LINE.search(msg)
            if j[2] > 0 and m and int(m.group(2)) != j[2]: return "diagnostic names line %s instead of %d" % (m.group(2).decode(), j[2])
        return None
    for j, w in zip(jobs, pmap(one, jobs)):
        ctx.count("replayed", len(j[3]))
        if w and one(j): ctx.violation("cond:" + "".join(j[3][0][0]), w, {"t.c": j[0]})
    return [" ".join(t[0]) for t in good[:2]]
