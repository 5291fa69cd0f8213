"""Shared machinery: building the tools from /repo's working tree, running TLC, evidence and verdicts."""
import json, os, resource, subprocess, sys, tempfile, shutil, time, re, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SCC_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = os.cpu_count() or 4
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class CheckError(Exception):
    pass

class Ctx:
    """One run of a check."""
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.seed = SEED; self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.violations = []
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.level = "translation_validation"
        self.known = load_known(prop)
        self.known_hit = []
        self.counts = {}
        self.tlc_stats = {"states": 0, "distinct": 0, "runs": 0, "tlc_s": 0.0}
    def path(self, *a):
        return os.path.join(self.dir, *a)
    def count(self, k, d=1):
        self.counts[k] = self.counts.get(k, 0) + d
    def quick(self): return self.tier == "quick"
    def scale(self, q, t): return q if self.tier == "quick" else t
    def violation(self, key, what, files):
        """key identifies the failing input for the known findings file; files: {name: content} of the replay"""
        for kf in self.known:
            if kf["key"] == key:
                if kf not in self.known_hit: self.known_hit.append(kf)
                return
        d = os.path.join(VERIF, "replay", self.prop, "%03d" % (len(self.violations) + 1))
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        files = dict(files); files["WHAT.txt"] = "property=%s\nkey=%s\n%s\n" % (self.prop, key, what)
        for n, c in files.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(c if isinstance(c, bytes) else c.encode("latin1", "replace"))
        self.violations.append((key, d, what))
    def finish(self):
        wall = time.time() - self.t0
        cov = dict(self.cov); cov["counts"] = self.counts
        cov["tlc"] = self.tlc_stats
        if "samples" not in cov: cov["samples"] = self.samples[:6]
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for kf in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, kf["what"]))
        for key, d, what in self.violations[:20]:
            print("  %s: %s" % (key, what.split("\n")[0][:300]))
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][1]))
        print("%s %s: %s, %.1fs, %s" % (self.prop, self.tier, "VIOLATED" if self.violations else "held", wall, json.dumps(self.counts)))
        return 1 if self.violations else 0

def load_known(prop):
    """known-findings.txt: 'finding: property=<id> key=<key> <what fails>' lines suppress exactly that key;
    'fixed: ...' lines are a record only"""
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop: r.append({"key": m.group(2), "what": m.group(3)})
    return r

def sh(cmd, timeout=600, cwd=None, env=None, inp=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env, input=inp)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -999, e.stdout or b"", e.stderr or b""

def limited(cmd, cpu=6, out=400000, wall=60, cwd=None, env=None, inp=None):
    """run a program of doubtful behaviour: limits on processor time and on what it may write; (rc, stdout, stderr);
    rc is negative when a signal or a limit ended it"""
    def lim():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu)); resource.setrlimit(resource.RLIMIT_FSIZE, (out, out))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        try:
            p = subprocess.run(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL if inp is None else None, input=inp, timeout=wall, cwd=cwd, env=env, preexec_fn=lim)
            rc = p.returncode
        except subprocess.TimeoutExpired: rc = -999
        fo.seek(0); fe.seek(0)
        return rc, fo.read(out), fe.read(20000)

def build_tools(ctx, tools=("scc", "scpp", "sas", "sim86"), sanitize=False):
    """native builds of the tools from the working tree"""
    b = ctx.path("bin")
    os.makedirs(b, exist_ok=True)
    def one(t):
        cmd = ["gcc", "-O1", "-g", "-std=c99", "-D_GNU_SOURCE", "-w", "-o", os.path.join(b, t), os.path.join(REPO, t + ".c")]
        if sanitize: cmd[1:1] = ["-fsanitize=address,undefined"]
        rc, o, e = sh(cmd)
        if rc != 0: raise CheckError("cannot build %s: %s" % (t, e.decode(errors="replace")[:2000]))
    with ThreadPoolExecutor(NPROC) as ex: list(ex.map(one, tools))
    return b

def pmap(f, xs, n=None):
    with ThreadPoolExecutor(n or NPROC) as ex: return list(ex.map(f, xs))

def write_ndjson(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":"))); f.write("\n")

class TlcResult:
    pass

def run_tlc(ctx, module, cfg=None, env=None, timeout=800, extra=(), workers=None, xss="64m", heap="6g", prefix="VERDICT"):
    """run TLC on spec/<module>.tla; returns the printed tuples whose first element is `prefix`"""
    md = tempfile.mkdtemp(prefix="tlc_", dir=ctx.dir)
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + md, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % min(4, workers or NPROC), "-Xss" + xss, "-Xmx" + heap, "-cp", JAR, "-DTLA-Library=" + SPEC, "tlc2.TLC",
           "-metadir", md, "-workers", str(workers or NPROC), "-noGenerateSpecTE", "-nowarning",
           "-config", os.path.join(SPEC, cfg or (module + ".cfg")), *extra, os.path.join(SPEC, module + ".tla")]
    t = time.time()
    rc, out, err = sh(cmd, timeout=timeout, cwd=SPEC, env=e)
    if rc not in (0, -999) and (rc < 0 or rc == 137 or b"OutOfMemory" in out + err or b"insufficient memory" in out + err):   # ended for want of memory: once more
        time.sleep(5)
        rc, out, err = sh(cmd, timeout=timeout, cwd=SPEC, env=e)
    out = out.decode("utf8", "replace")
    shutil.rmtree(md, ignore_errors=True)
    r = TlcResult()
    r.rc = rc; r.out = out; r.err = err.decode(errors="replace")
    r.lines = parse_tuples(out, prefix)
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out): pass
    r.states = int(m.group(1).replace(",", "")) if m else 0
    r.distinct = int(m.group(2).replace(",", "")) if m else 0
    ctx.tlc_stats["states"] += r.states; ctx.tlc_stats["distinct"] += r.distinct
    ctx.tlc_stats["runs"] += 1; ctx.tlc_stats["tlc_s"] = round(ctx.tlc_stats["tlc_s"] + time.time() - t, 1)
    if rc != 0:
        i = out.find("Error:")
        raise CheckError("TLC on %s ended with %s:\n%s\n%s" % (module, rc, re.sub(r"(?m)^.*(:>|\\|->|^/\\\\ ).*\n", "", out[i:i + 20000])[:1500] if i >= 0 else out[-1500:], r.err[-500:]))
    return r

def parse_tuples(out, prefix):
    """tuples printed by PrintT: <<"VERDICT", 1, "ok", ...>>, possibly spread over lines"""
    res = []
    pat = '<<"%s"' % prefix
    pat2 = '<< "%s"' % prefix
    i = 0
    while True:
        j = out.find(pat, i)
        j2 = out.find(pat2, i)
        if j < 0 or (0 <= j2 < j): j = j2
        if j < 0: return res
        # find matching >>
        d = 0; q = j; instr = False
        while True:
            c = out[q]
            if instr:
                if c == "\\": q += 1
                elif c == '"': instr = False
            elif c == '"': instr = True
            elif out.startswith("<<", q): d += 1; q += 1
            elif out.startswith(">>", q):
                d -= 1; q += 1
                if d == 0: break
            q += 1
        s = out[j:q + 1]
        s = s.replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false").replace("{", "[").replace("}", "]")
        try: res.append(json.loads(s))
        except Exception: res.append(["?", s])
        i = q + 1

def main_guard(fn):
    try:
        rc = fn()
    except CheckError as e:
        print("CHECK ERROR: %s" % e); rc = 3
    sys.stdout.flush()
    sys.exit(rc)
