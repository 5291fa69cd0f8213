"""Every sequence of label definitions and references that TLC enumerates from spec/AsmLab.tla, replayed into the real sas."""
import random, re
from common import *
import asm

TRACE = re.compile(r'<<\s*"TRACE",\s*<<([^>]*)>>,\s*<<([^>]*)>>,\s*\{([^}]*)\}\s*>>')

def traces(ctx, n):
    r = run_tlc(ctx, "AsmLab", env={"LAB_LEN": str(n)}, heap="6g", prefix="@@")
    res = []
    for m in TRACE.finditer(r.out):
        ints = lambda s: [int(x) for x in s.split(",")] if s.strip() else []
        res.append((re.findall(r'"([^"]*)"', m.group(1)), ints(m.group(2)), ints(m.group(3))))
    if 2 * len(res) + 1 != r.distinct: raise CheckError("traces printed: %d, states: %d" % (len(res), r.distinct))
    return res

def render(r, seq, val, k, at):
    """source lines, the offset of the word each reference makes, the value of each definition, bytes made"""
    ls = []; word = {}; defv = {}; pos = at; g = "G%d" % k; h = "H%d" % k
    for i, x in enumerate(seq, 1):
        n = {"G": g, "H": h, "a": ".a"}[x[-1]]
        if x[0] == ".":
            f = r.choice(["dw %s", "dw 7, %s", "db 1\tdw %s ; c", "DW\t%s"])
            word[i] = pos + (2 if "7" in f else 1 if "1" in f else 0); pos = word[i] + 2
            ls.append(f % n)
        elif x[0] == "=":
            v = r.choice([0, 1, 127, 128, 255, 256, 0x1234, 0x8000, 65535]); defv[i] = v
            ls.append("%s %s %d" % (n, r.choice(["equ", "EQU"]), v))
        else:
            defv[i] = pos + 0x100; ls.append(n + r.choice([":", " :"]))
    return ls, word, defv, pos

def run(ctx, tool, n, sample):
    r = random.Random("labenum/%d" % ctx.seed)
    trs = traces(ctx, n)
    ctx.count("enumerated", len(trs))
    good = [t for t in trs if not t[2]]; bad = [t for t in trs if t[2]]
    short = [t for t in bad if len(t[0]) <= 3]; rest = [t for t in bad if len(t[0]) > 3]
    r.shuffle(rest); bad = short + rest[:sample]; r.shuffle(good)
    jobs = []
    for i in range(0, len(good), 40):
        ls = ["org 0x100"]; pos = 0; want = []; g = good[i:i + 40]
        for k, t in enumerate(g):
            ls.append("S%d:" % k)
            l, word, defv, pos = render(r, t[0], t[1], k, pos)
            ls += l
            want += [(o, defv[t[1][j - 1]], t[0], len(ls)) for j, o in word.items()]
        jobs.append(("\n".join(ls) + "\n", want, pos, None, g))
    for t in bad:
        l = ["org 0x100"] + render(r, t[0], t[1], 0, 0)[0]
        jobs.append(("\n".join(l) + "\n", None, 0, [x + 1 for x in t[2]], [t]))
    def one(j):
        src, want, size, lines, g = j
        rc, msg, out = asm.run_sas(ctx, tool, asm.Case(src))
        if want is not None:
            if rc != 0: return "valid names rejected: exit code %d %s" % (rc, msg[:100])
            if len(out) != size: return "%d bytes written instead of %d" % (len(out), size)
            for o, v, s, _ in want:
                if out[o] + 256 * out[o + 1] != v: return "%s: a reference should be %d, is %d" % (" ".join(s), v, out[o] + 256 * out[o + 1])
        else:
            if rc == 0: return "undefined or duplicate name accepted: %s" % " ".join(g[0][0])
            if rc != 1: return "exit code %d" % rc
            m = asm.LINE.findall(msg)
            if not m or int(m[-1]) not in lines: return "diagnostic %r names none of the lines %s" % (msg[:60], lines)
            if out != asm.KEEP: return "output written by a rejected source"
        return None
    for j, w in zip(jobs, pmap(one, jobs)):
        ctx.count("replayed", len(j[4]))
        if w and one(j): ctx.violation("names:" + "".join(j[4][0][0]), w, {"t.asm": j[0]})
    return [" ".join(t[0]) for t in good[:2]]
