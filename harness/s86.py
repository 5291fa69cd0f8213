"""Running COM programs on the real sim86 and checking the recorded runs against spec/I8086.tla."""
import os, re, shutil, tempfile
from common import *

STEP = re.compile(rb"([0-9A-F]{4}) ([^\n]{1,70})\nAX=([0-9A-F]{4}) BX=([0-9A-F]{4}) CX=([0-9A-F]{4}) DX=([0-9A-F]{4}) SP=([0-9A-F]{4}) BP=([0-9A-F]{4}) SI=([0-9A-F]{4}) DI=([0-9A-F]{4}) ?"
                  rb"\nDS=([0-9A-F]{4}) ES=([0-9A-F]{4}) SS=([0-9A-F]{4}) CS=([0-9A-F]{4}) IP=([0-9A-F]{4}) (OV|NV) (NG|PL) (ZR|NZ) (CY|NC)")
PAIRS = ("REP ", "REPE ", "REPNE ")

def mnem(t):
    w = t.split()
    if not w: return ""
    if w[0] in ("REP", "REPE", "REPNE", "REPNZ", "REPZ"): return " ".join(w[:2])
    return w[0]

R8 = ["AL", "CL", "DL", "BL", "AH", "CH", "DH", "BH"]; R16 = ["AX", "CX", "DX", "BX", "SP", "BP", "SI", "DI"]; RS = ["ES", "CS", "SS", "DS"]
BASES = {("BX", "SI"): 0, ("BX", "DI"): 1, ("BP", "SI"): 2, ("BP", "DI"): 3, ("SI",): 4, ("DI",): 5, ("BP",): 6, ("BX",): 7, (): 8}
def operand(t):
    """an operand as shown, as the sequence of numbers ShownOps of I8086.tla uses; [0] if it isn't one"""
    t = t.strip().upper()
    for w in ("BYTE", "WORD", "SHORT", "NEAR", "PTR"):
        if t.startswith(w + " "): t = t[len(w):].strip()
    if t in R8: return [1, R8.index(t)]
    if t in R16: return [2, R16.index(t)]
    if t in RS: return [3, RS.index(t)]
    num = lambda s: int(s, 16 if s.startswith("0X") else 10)
    try:
        seg = 0
        for k in (0, 1):
            m = re.match(r"(\[?)\s*([ECSD]S)\s*:(.*)$", t)
            if m and m.group(2) in RS: seg = RS.index(m.group(2)) + 1; t = m.group(1) + m.group(3).strip()
        if t.startswith("[") and t.endswith("]"):
            regs, disp = [], 0
            for sgn, w in re.findall(r"([+-]?)\s*([0-9A-Z]+)", t[1:-1]):
                if w in R16: regs.append(w)
                else: disp += -num(w) if sgn == "-" else num(w)
            return [4, seg, BASES[tuple(sorted(regs, key=["BX", "BP", "SI", "DI"].index))], disp % 65536]
        return [5, num(t) % 65536] if seg == 0 else [0]
    except (ValueError, KeyError): return [0]
def operands(t):
    k = len(mnem(t)); r = t.strip()[k:].strip()
    return [operand(x) for x in r.split(",")] if r else []

def parse_trace(out):
    steps = []
    for m in STEP.finditer(out):
        g = m.groups()
        ax, bx, cx, dx, sp, bp, si, di = (int(x, 16) for x in g[2:10])
        ds, es, ss, cs, ip = (int(x, 16) for x in g[10:15])
        steps.append({"i": int(g[0], 16), "m": mnem(g[1].decode("latin1")), "t": g[1].decode("latin1"), "r": [ax, cx, dx, bx, sp, bp, si, di], "s": [es, cs, ss, ds], "ip": ip,
                      "f": [int(g[15] == b"OV"), int(g[16] == b"NG"), int(g[17] == b"ZR"), int(g[18] == b"CY")], "pos": m.start(), "end": m.end()})
    return steps

class Prog:
    """img: the COM file, args: command line, files: {name: bytes} present before, dump: the program ends by writing all memory to DUMP"""
    def __init__(self, img, args=(), files=None, dump=False, dos=False, names=False, tag="", cut=0, nodirs=(), pushsp="old", stdin=b"", max_out=60000000, syms=(), modes=False):
        self.img = img; self.args = list(args); self.files = files or {}; self.dump = dump; self.dos = dos; self.names = names; self.tag = tag
        self.cut = cut; self.nodirs = list(nodirs); self.pushsp = pushsp; self.stdin = stdin; self.max_out = max_out
        self.syms = list(syms); self.modes = modes    # modes: also run with -p and -v -p and compare

def run_one(ctx, sim, p, flags=(), pre=()):
    d = tempfile.mkdtemp(prefix="s86_", dir=ctx.dir)
    open(os.path.join(d, "p.com"), "wb").write(p.img)
    for n, b in p.files.items(): open(os.path.join(d, n), "wb").write(b)
    if p.syms: open(os.path.join(d, "p.map"), "w").write("".join("%04X %s\r\n" % (a, n) for n, a in p.syms))
    rc, out, err = limited([*pre, sim, *flags, "p.com", *p.args], cpu=5, out=p.max_out, wall=60, cwd=d, inp=p.stdin or None)
    left = {}
    for n in sorted(os.listdir(d)):
        if n not in ("p.com", "p.map"): left[n] = open(os.path.join(d, n), "rb").read()
    shutil.rmtree(d)
    return rc, out, err, left

def psp_tail(args): return " ".join(args).encode("latin1")

OUTP = re.compile(rb"\nOutput: 0x([0-9A-F]{2}) \((.|\n)\)")
NOISE = re.compile(rb"\nopen\([^\n]*\) -> -?\d+\n|\nclose\(-?\d+\)\n")
EXITED = re.compile(rb"\n(Normal exit|Exiting with error code \d+)\n")
def console_of_trace(vout):
    """what the program wrote, from the output of a -v run"""
    mark = b"<~STEP~>"
    s = STEP.sub(mark, vout).replace(mark + b"\n", mark)
    s = EXITED.sub(b"", NOISE.sub(b"", s))
    return OUTP.sub(lambda m: bytes([int(m.group(1), 16)]), s).replace(mark, b"")

REPLINE = re.compile(rb"(\d+);0x([0-9A-F]{4});([^;+\n]*)\+0x([0-9A-F]+);([^\n]*)")
def split_profile(out):
    """(console, [(addr, symbol, offset, mnemonic)]) of a -p run"""
    i = out.find(b"\nFilesize;")
    if i < 0: return out, None
    rep = out[i:]; j = rep.find(b"Count;Address;"); k = rep.find(b"\nCount;Function"); e = rep.find(b"\nMax stack")
    es = []
    for m in REPLINE.finditer(rep[j:k]):
        t = m.group(5).decode("latin1")
        es.append({"a": int(m.group(2), 16), "sym": "" if m.group(3) == b"@@start" else m.group(3).decode("latin1"), "off": int(m.group(4), 16), "m": mnem(t + " "), "o": operands(t), "n": int(m.group(1))})
    h = re.match(rb"\nFilesize;[^\n]*\n(\d+);(\d+);(\d+);", rep)
    fs = [{"n": "" if m.group(2) == b"@@start" else m.group(2).decode("latin1"), "t": int(m.group(1))} for m in re.finditer(rb"\n(\d+);([^;\n]*)(?=\n)", rep[k + 1:e + 1])] if k >= 0 else []
    return out[:i], {"at": es, "size": int(h.group(1)) if h else -1, "total": int(h.group(2)) if h else -1, "low": int(h.group(3)) if h else -1, "fn": fs}

def record(ctx, sim, p):
    """verbose run for the trace, plain run for exit code, console, files and memory"""
    vrc, vout, verr, vleft = run_one(ctx, sim, p, ("-v",))
    if vrc < 0 and vrc != -999:   # ended by a failed assertion: keep what stdio had buffered
        vrc, vout, verr, vleft = run_one(ctx, sim, p, ("-v",), ("stdbuf", "-o0"))
    rc, out, err, left = run_one(ctx, sim, p)
    steps = parse_trace(vout)
    rec = {"vrc": vrc, "rc": rc, "out": out, "vout": vout, "left": left, "vleft": vleft, "steps": steps}
    if p.modes:
        prc, pout, _, pleft = run_one(ctx, sim, p, ("-p",))
        brc, bout, _, bleft = run_one(ctx, sim, p, ("-v", "-p"))
        rec["pcon"], rec["report"] = split_profile(pout)
        bcon, brep = split_profile(bout)
        k = lambda st: [{q: x[q] for q in ("i", "t", "r", "s", "ip", "f")} for x in st]
        rec["modes"] = None
        if prc != rc or brc != rc: rec["modes"] = "exit code %d plain, %d with -p, %d with -v -p" % (rc, prc, brc)
        elif not (pleft == bleft == left == vleft): rec["modes"] = "files differ between plain, -v, -p and -v -p runs"
        elif rec["pcon"] != out: rec["modes"] = "console with -p is %r, without %r" % (rec["pcon"][:300], out[:300])
        elif k(parse_trace(bcon)) != k(steps): rec["modes"] = "trace of -v -p differs from that of -v"
        elif brep != rec["report"]: rec["modes"] = "profile of -v -p differs from that of -p"
        elif rc >= 0 and rec["report"] is None and EXITED.search(vout): rec["modes"] = "no profile with -p"
    if p.cut and len(steps) > p.cut: rec["steps"] = steps[:p.cut]
    return rec

def image(p, seg):
    t = psp_tail(p.args)
    m = bytearray(1 << 20)
    b = seg * 16
    def put(o, x): m[(b + o) & 0xfffff] = x
    put(0, 0xCD); put(1, 0x20); put(2, (seg + 0x1000) & 255); put(3, (seg + 0x1000) >> 8)
    put(0x80, len(t))
    for i, x in enumerate(t + b"\r"): put(0x81 + i, x)
    for i, x in enumerate(p.img): put(0x100 + i, x)
    return m

def jrec(ctx, p, r):
    st = r["steps"]
    seg = st[0]["s"][1] if st else 0x2000
    j = {"img": list(p.img), "tail": list(psp_tail(p.args)), "seg": seg, "top": (seg + 0x1000) & 0xffff, "exit": r["rc"] if r["rc"] >= 0 else 1000 - r["rc"],
         "steps": [dict({k: s[k] for k in ("i", "m", "r", "s", "ip", "f")}, **({"a": operands(s["t"])} if p.names else {})) for s in st], "opaque": not p.dos, "dumped": False, "fin": [], "names": p.names,
         "hascon": p.dos, "con": list(r["out"]) if p.dos else [], "left": [], "files": [{"n": list(n.encode("latin1")), "d": list(b)} for n, b in p.files.items()],
         "nodirs": [list(x.encode("latin1")) for x in p.nodirs], "pushsp": p.pushsp, "cut": bool(p.cut), "stdin": list(p.stdin)}
    j["hasvcon"] = p.dos; j["vcon"] = list(console_of_trace(r["vout"])) if p.dos else []
    j["prof"] = bool(p.modes and r.get("report") is not None); j["report"] = (r.get("report") if p.modes else None) or {"at": [], "size": 0, "total": 0, "low": 0, "fn": []}; j["syms"] = [{"n": n, "a": a} for n, a in p.syms]
    if p.modes and r["modes"]: return j, r["modes"]
    if p.dos: j["left"] = [{"n": list(n.encode("latin1")), "d": list(b)} for n, b in r["left"].items()]
    if p.dump:
        d = r["left"].get("DUMP")
        if d is None or len(d) != 1 << 20: return j, "the memory dump has %s bytes" % (None if d is None else len(d))
        j["dumped"] = True
        m = image(p, seg)
        if d != m:
            import itertools
            dd = bytes(d); mm = bytes(m)
            for blk in range(0, 1 << 20, 4096):
                if dd[blk:blk + 4096] != mm[blk:blk + 4096]:
                    j["fin"] += [[a, dd[a]] for a in range(blk, blk + 4096) if dd[a] != mm[a]]
    return j, None

def judge(ctx, p, r):
    j, bad = jrec(ctx, p, r)
    if bad is None and r["vrc"] != r["rc"]: bad = "exit code %d with -v, %d without" % (r["vrc"], r["rc"])
    if bad is None and r["vrc"] == -999: bad = "runs forever"
    return j, bad
def accepted(v, bad): return v[0] in ("ok", "stopped", "cut") and (bad is None or (v[0] == "stopped" and not bad.startswith("exit")))

def validate(ctx, sim, progs, tag, batch=60):
    recs = pmap(lambda p: record(ctx, sim, p), progs)
    todo = []
    for p, r in zip(progs, recs):
        ctx.count("programs"); ctx.count("instructions", len(r["steps"]))
        j, bad = judge(ctx, p, r)
        todo.append((p, r, j, bad))
    verd = check_batches(ctx, [t[2] for t in todo], tag, batch)
    fail = []
    for (p, r, j, bad), v in zip(todo, verd):
        if accepted(v, bad):
            ctx.count("programs_" + v[0]); continue
        what = bad if v[0] in ("ok", "stopped", "cut") else "%s after %d instructions: %s" % (v[0], v[1], json.dumps(v[2]))
        fail.append((p, r, what))
    ctx.count("programs_failed", len(fail))
    shown = 0
    for i in range(0, len(fail), 8):
        # confirm: a second recording must show the same; when many fail, the first few are enough
        part = fail[i:i + 8]
        again = [judge(ctx, p, record(ctx, sim, p)) for p, r, what in part]
        for (p, r, what), (j2, bad2), v2 in zip(part, again, check_batches(ctx, [a[0] for a in again], tag, 2)):
            if accepted(v2, bad2): continue
            shown += 1
            ctx.violation("%s:%s" % (tag, p.tag), what, {"prog.com": p.img, "args.txt": " ".join(p.args), "trace.txt": r["vout"][:2000000], **{"file_" + n: b for n, b in p.files.items()}})
        if shown >= 4: break

def check_batches(ctx, js, tag, batch):
    groups = [list(range(i, min(i + batch, len(js)))) for i in range(0, len(js), batch)]
    def one(g):
        f = ctx.path("i86_%s_%d.ndjson" % (tag, g[0]))
        write_ndjson(f, [js[i] for i in g])
        r = run_tlc(ctx, "I8086", env={"I86_PROGS": f}, workers=2, timeout=800, heap="3g")
        os.unlink(f)
        got = {}
        for l in r.lines: got[l[1]] = (l[2], l[3], l[4:])
        res = []
        for q, i in enumerate(g):
            if q + 1 not in got: raise CheckError("no verdict for program %d of %s\n%s" % (i, tag, r.out[-1500:]))
            res.append(got[q + 1])
        return res
    out = [None] * len(js)
    for g, res in zip(groups, pmap(one, groups, 4)):
        for i, v in zip(g, res): out[i] = v
    return out
