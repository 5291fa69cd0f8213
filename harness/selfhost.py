"""The tools as host programs, as COM files on sim86 and on a sim86 that is a COM file; outcomes are compared by SelfHost.tla, bootstrapping explored by SelfBoot.tla."""
import hashlib, os, random, re, shutil, tempfile
from common import *
import s86

TOOLS = ("scc", "scpp", "sas", "sim86")

def build_hosted(ctx, b):
    """the COM files, compiled by the native tools"""
    def one(t):
        d = ctx.path("hb_" + t); os.makedirs(d, exist_ok=True)
        src = os.path.join(REPO, t + ".c")
        if t == "sim86":
            shutil.copy(os.path.join(REPO, "lib.h"), d); shutil.copy(src, d)
            rc, o, e = limited([os.path.join(b, "scpp"), "sim86.c", "sim86.i"], cpu=10, cwd=d)
            if rc: return t, (o + e).decode("latin1")
            src = os.path.join(d, "sim86.i")
        rc, o, e = limited([os.path.join(b, "scc"), src, os.path.join(b, t + ".com")], cpu=10)
        return t, (o + e).decode("latin1") if rc else None
    return {t: m for t, m in pmap(one, TOOLS) if m is not None}

class Job:
    def __init__(self, tool, args, files, tag, nested=False, keep=None):
        self.tool = tool; self.args = list(args); self.tag = tag; self.nested = nested; self.keep = keep
        self.files = {n: x if isinstance(x, bytes) else x.encode("latin1") for n, x in files.items()}

LEN = 60000000
STATE = re.compile(rb"(?:([0-9A-F]{4} [^\n]{1,70})?\n)?AX=([0-9A-F]{4}) BX=([0-9A-F]{4}) CX=([0-9A-F]{4}) DX=([0-9A-F]{4}) SP=([0-9A-F]{4}) BP=([0-9A-F]{4}) SI=([0-9A-F]{4}) DI=([0-9A-F]{4}) ?"
                   rb"\nDS=([0-9A-F]{4}) ES=([0-9A-F]{4}) SS=([0-9A-F]{4}) CS=([0-9A-F]{4}) IP=([0-9A-F]{4}) ((?:OV|NV) (?:NG|PL) (?:ZR|NZ) (?:CY|NC))")
def run_job(ctx, b, j, on):
    d = tempfile.mkdtemp(prefix="sh_", dir=ctx.dir)
    try:
        for n, x in j.files.items(): open(os.path.join(d, n), "wb").write(x)
        mine = []
        if on == "native": cmd = [os.path.join(b, j.tool)]
        else:
            shutil.copy(os.path.join(b, j.tool + ".com"), os.path.join(d, "h.com")); mine = ["h.com"]
            cmd = [os.path.join(b, "sim86"), "h.com"]
            if on == "nested": shutil.copy(os.path.join(b, "sim86.com"), os.path.join(d, "s.com")); mine.append("s.com"); cmd.insert(1, "s.com")
        rc, o, e = limited(cmd + j.args, cpu={"native": 5, "hosted": 10, "nested": 60}[on], out=LEN, wall=120, cwd=d)
        left = []
        for n in sorted(os.listdir(d)):
            if n not in mine: left.append({"n": n, "d": hashlib.sha1(open(os.path.join(d, n), "rb").read()).hexdigest()})
        con = o + (e if rc < 0 else b"")
        r = {"on": on, "rc": rc if rc > -900 else -900, "base": 0, "steps": [], "files": left}
        if j.tool == "sim86":
            # the states of the machine, in the trace or before a message
            con = con.replace(b"\r\n", b"\n"); r["base"] = {"native": 0x2000, "hosted": 0x3000, "nested": 0x4000}[on]
            for m in STATE.finditer(con):
                g = m.groups(); r["steps"].append({"t": "%s %s" % ((g[0] or b"").decode("latin1"), g[-1].decode()), "r": [int(x, 16) for x in g[1:-1]]})
            con = STATE.sub(b"<state>", con)
        r["con"] = [list(l) for l in con.split(b"\n")]
        return r, con
    finally: shutil.rmtree(d)

def platforms(j): return ["native", "hosted"] + (["nested"] if j.nested else [])

def judge(ctx, rows, name):
    n = max(1, min(4, len(rows) // 20)); res = [{} for _ in rows]
    def one(k):
        ix = list(range(k, len(rows), n)); p = ctx.path("self_%s_%d.json" % (name, k)); write_ndjson(p, [rows[i] for i in ix])
        t = run_tlc(ctx, "SelfHost", env={"SELF_CASES": p}, workers=max(1, NPROC // n), heap="5g"); os.unlink(p)
        for v in t.lines: res[ix[v[1] - 1]][v[2] - 1] = v[3]
        for i in ix:
            if len(res[i]) != len(rows[i]["ev"]) - 1: raise CheckError("no verdict:\n" + t.out[-1500:])
    pmap(one, range(n), n)
    return res

def asc(x): return "".join(chr(c) for c in x) if isinstance(x, list) else str(x)

def validate(ctx, b, jobs, name):
    t0 = time.time()
    jobs = [j for j, ok in zip(jobs, pmap(lambda j: not j.keep or j.keep(run_job(ctx, b, j, "native")[0]), jobs)) if ok]
    allr = pmap(lambda x: run_job(ctx, b, x[0], x[1]), [(j, p) for j in jobs for p in platforms(j)])
    rows = []; k = 0; outs = []
    for j in jobs:
        m = len(platforms(j)); rows.append({"tool": j.tool, "ev": [r for r, _ in allr[k:k + m]]}); outs.append(allr[k:k + m]); k += m
    t1 = time.time()
    res = judge(ctx, rows, name)
    again = [i for i, v in enumerate(res) if any(x[0] != "ok" for x in v.values())][:60]
    re2 = {}
    if again:
        rr = judge(ctx, [{"tool": jobs[i].tool, "ev": [run_job(ctx, b, jobs[i], p)[0] for p in platforms(jobs[i])]} for i in again], name + "_re")
        re2 = dict(zip(again, rr))
    for i, (j, v) in enumerate(zip(jobs, res)):
        ctx.count("inputs"); ctx.count("inputs_" + j.tool); ctx.count("runs", len(v)); ctx.count("instructions", len(rows[i]["ev"][0]["steps"]))
        rc = rows[i]["ev"][0]["rc"]
        if rc != 0: ctx.count("refused_by_" + j.tool)
        bad = [k for k in sorted(v) if v[k][0] != "ok"]
        if not bad: continue
        if i not in re2 or not any(x[0] != "ok" for x in re2[i].values()): ctx.count("not_reproducible"); continue
        d = v[bad[0]][1]
        fs = {"%s_%s" % (p, n): c for (p, n, c) in [("in", n, c) for n, c in j.files.items()]}
        for (r, con), p in zip(outs[i], platforms(j)): fs["console_%s.txt" % p] = con[:200000]
        fs["args.txt"] = " ".join([j.tool] + j.args)
        ctx.violation(j.tag, "%s %s: the native run and the %s one differ in the %s" % (j.tool, " ".join(j.args), platforms(j)[bad[0]], "; ".join(asc(x) for x in d)), fs)
    return rows

# the value of CS is only taken by the end of the program
def nocs(r): return sum(" CS" in x["t"] for x in r["steps"]) <= 1

# ---------------------------------------------------------------- bootstrapping
def boot(ctx, b, nested=True):
    """records what every reachable way of building yields and lets TLC explore all histories"""
    srcs = {t: open(os.path.join(REPO, t + ".c"), "rb").read() for t in TOOLS}
    lib = open(os.path.join(REPO, "lib.h"), "rb").read()
    ids = {}; content = {}
    def cid(x):
        if x is None: return 9999
        h = hashlib.sha1(x).digest()
        if h not in ids: ids[h] = len(ids) + 1; content[ids[h]] = x
        return ids[h]
    log = {}
    def invoke(tool, inst, sim, args, files, out):
        """tool: a native program (inst -1) or a COM file, on the native simulator (sim -1) or one that is itself a COM file"""
        d = tempfile.mkdtemp(prefix="boot_", dir=ctx.dir)
        try:
            for n, x in files.items(): open(os.path.join(d, n), "wb").write(x)
            if inst == -1: cmd = [os.path.join(b, tool)]
            else:
                open(os.path.join(d, "t.com"), "wb").write(content[inst]); cmd = [os.path.join(b, "sim86"), "t.com"]
                if sim != -1: open(os.path.join(d, "s.com"), "wb").write(content[sim]); cmd.insert(1, "s.com")
            rc, o, e = limited(cmd + args, cpu=200, wall=400, cwd=d)
            p = os.path.join(d, out)
            if rc != 0 or not os.path.exists(p): log[(tool, inst, sim)] = (rc, (o + e)[-300:]); return None
            return open(p, "rb").read()
        finally: shutil.rmtree(d)
    from concurrent.futures import Future
    import threading
    memo = {}; lock = threading.Lock()
    def once(key, fn):
        with lock:
            f = memo.get(key); mine = f is None
            if mine: f = memo[key] = Future()
        if mine:
            try: f.set_result(fn())
            except BaseException as ex: f.set_exception(ex)
        return f.result()
    def entry(t, c, p, s):
        src = srcs[t]
        if t == "sim86":
            src = once(("pp", p, s if p != -1 else -1), lambda: invoke("scpp", p, s, ["sim86.c", "sim86.i"], {"sim86.c": srcs[t], "lib.h": lib}, "sim86.i"))
            if src is None: return None
        return once(("cc", c, s if c != -1 else -1, hashlib.sha1(src).digest()), lambda: invoke("scc", c, s, ["x.c", "x.com"], {"x.c": src}, "x.com"))
    table = {}
    for rnd in range(4):
        own = {t: {table[k] for k in table if k[0] == t} - {9999} for t in TOOLS}
        need = set()
        for t in TOOLS:
            for c in {-1} | own["scc"]:
                for p in ({-1} | own["scpp"] if t == "sim86" else {-1}):
                    for s in ({-1} | (own["sim86"] if nested else set()) if (c, p) != (-1, -1) else {-1}):
                        if (t, c, p, s) not in table: need.add((t, c, p, s))
        if not need or len(need) > 60: break
        need = sorted(need, key=lambda k: (-(k[3] != -1), k))
        for k, r in zip(need, pmap(lambda k: entry(*k), need)): table[k] = cid(r)
    p = ctx.path("boot.json")
    write_ndjson(p, [{"tool": k[0], "cc": k[1], "pp": k[2], "sim": k[3], "result": v} for k, v in sorted(table.items())])
    r = run_tlc(ctx, "SelfBoot", env={"BOOT_TABLE": p})
    miss = parse_tuples(r.out, "@@")
    ctx.count("builds_recorded", len(table)); ctx.count("boot_states", r.distinct); ctx.count("boot_transitions", r.states)
    if r.lines:
        what = "; ".join(sorted(set(v[2] for v in r.lines))[:4])
        ctx.violation("bootstrap", "a tool built another way differs (tool, compiler, preprocessor, simulator, result; -1 is native, 9999 is a failed build): %s %s" % (what, list(log.items())[:2]),
                      {"table.json": open(p).read(), **{"content_%d.com" % k: v for k, v in content.items()}})
    elif miss and nested: raise CheckError("builds not recorded: %s" % miss[:3])
    return table
