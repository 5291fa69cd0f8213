"""Abstract syntax of C programs for spec/CSem.tla: constructors, and printing as tokens."""

INT = ["int"]; UINT = ["uint"]; CHAR = ["char"]; UCHAR = ["uchar"]; VOID = ["void"]
def ptr(t): return ["ptr", t]
def arr(t, n): return ["arr", t, n]
def tag(n): return ["tag", n]        # n like "#struct S"
def td(n): return ["td", n]

# ---- expressions -----------------------------------------------------------
def num(v, s=None):
    r = {"k": "num", "v": v, "p": True}
    if s: r["s"] = s                 # spelling
    return r
def ident(n): return {"k": "id", "n": n, "p": True}
def un(op, e): return {"k": "un", "op": op, "e": e, "p": e["p"]}
def bin_(op, l, r): return {"k": "bin", "op": op, "l": l, "r": r, "p": l["p"] and r["p"]}
def and_(l, r): return {"k": "and", "l": l, "r": r, "p": l["p"] and r["p"]}
def or_(l, r): return {"k": "or", "l": l, "r": r, "p": l["p"] and r["p"]}
def cond(c, a, b): return {"k": "cond", "c": c, "a": a, "b": b, "p": c["p"] and a["p"] and b["p"]}
def comma(l, r): return {"k": "comma", "l": l, "r": r, "p": l["p"] and r["p"]}
def asg(op, l, r): return {"k": "asg", "op": op, "l": l, "r": r, "p": False}
def inc(d, pre, e): return {"k": "inc", "d": d, "pre": pre, "e": e, "p": False}
def idx(a, i): return {"k": "idx", "a": a, "i": i, "p": a["p"] and i["p"]}
def mem(e, n): return {"k": "mem", "e": e, "n": n, "p": e["p"]}
def arrow(e, n): return {"k": "arrow", "e": e, "n": n, "p": e["p"]}
def castx(t, e): return {"k": "cast", "t": t, "e": e, "p": e["p"]}
def sizet(t): return {"k": "sizet", "t": t, "p": True}
def sizee(e): return {"k": "sizee", "e": e, "p": True}
def call(f, *a): return {"k": "call", "f": ident(f) if isinstance(f, str) else f, "as": list(a), "p": False}
def obs_(e): return {"k": "obs", "e": e, "p": False}
def vastart(ap, last): return {"k": "vastart", "ap": ap, "last": last, "p": False}
def vaarg(ap, t): return {"k": "vaarg", "ap": ap, "t": t, "p": False}
def strlit(n, bs): return {"k": "id", "n": n, "p": True, "str": bs}   # n bound at file scope by Prog.lit

# ---- statements --------------------------------------------------------------
_bid = [0]
def block(*ss):
    _bid[0] += 1
    return {"k": "block", "b": _bid[0], "ss": list(ss)}
def es(e): return {"k": "expr", "e": e}
def obs(e): return es(obs_(e))
def if_(c, a, b=None):
    r = {"k": "if", "c": c, "a": a, "he": b is not None}
    if b is not None: r["b"] = b
    return r
def while_(c, body): return {"k": "while", "c": c, "body": body}
def do_(body, c): return {"k": "do", "c": c, "body": body}
def for_(i, c, n, body):
    r = {"k": "for", "hi": i is not None, "hc": c is not None, "hn": n is not None, "body": body}
    if i is not None: r["i"] = i
    if c is not None: r["c"] = c
    if n is not None: r["n"] = n
    return r
def switch(c, body): return {"k": "switch", "c": c, "body": body}
def case(v, s=None): return {"k": "case", "v": v, **({"s": s} if s else {})}
def default(): return {"k": "default"}
def break_(): return {"k": "break"}
def continue_(): return {"k": "continue"}
def goto(l): return {"k": "goto", "l": l}
def label(l): return {"k": "label", "l": l}
def ret(e=None):
    r = {"k": "return", "he": e is not None}
    if e is not None: r["e"] = e
    return r
_sid = [0]
def decl(n, t, i=None, static=False):
    _sid[0] += 1
    r = {"k": "decl", "n": n, "t": t, "st": static, "sid": "s%d" % _sid[0], "hi": i is not None}
    if i is not None: r["i"] = i
    return r
def enum(*ns): return {"k": "enum", "ns": [{"n": a, "v": 99999 if b is None else b} for a, b in ns]}
def tdef(n, t): return {"k": "tdef", "n": n, "t": t}
def struct(n, ms, union=False): return {"k": "struct", "n": n, "u": union, "ms": [{"n": a, "t": t} for a, t in ms]}
def empty(): return {"k": "empty"}
def pad(c): return {"k": "pad", "c": c}     # c bytes of code without effect

# ---- file scope -----------------------------------------------------------------
def gvar(n, t, i=None, s=None):
    r = {"k": "gvar", "n": n, "t": t, "hi": i is not None, "s": s or []}
    if i is not None: r["i"] = i
    return r

class Prog:
    def __init__(self):
        self.items = []; self.funcs = []; self.lits = 0; self.memsz = 700; self.pre = []
    def add(self, *its):
        self.items += its
    def fdecl(self, n, rt, ps, va=False):
        """declare (for the printer only)"""
        self.items.append({"k": "fproto", "n": n, "rt": rt, "ps": ps, "va": va})
    def func(self, n, rt, ps, body, va=False):
        f = {"n": n, "rt": rt, "ps": [{"n": a, "t": t} for a, t in ps], "va": va, "body": body}
        self.funcs.append(f)
        self.items.append({"k": "fn", "n": n, "f": len(self.funcs), "rt": rt})
        return f
    def lit(self, bs):
        """a string literal (bytes without the terminator)"""
        self.lits += 1
        n = "$%d" % self.lits
        self.pre.append(gvar(n, arr(CHAR, 0), s=list(bs) + [0]))
        return strlit(n, bs)
    def spec(self):
        """what the specification sees: a table of nodes, and functions known before anything else"""
        nodes = []
        def child(x):
            if isinstance(x, dict): return flat(x)
            return x
        def flat(d):
            r = {}
            for k, v in d.items():
                if k in ("str", "s", "t", "ps", "ns", "ms"): 
                    if k in ("t", "ns", "ms"): r[k] = v
                elif isinstance(v, dict): r[k] = flat(v)
                elif isinstance(v, list): r[k] = [flat(x) if isinstance(x, dict) else x for x in v]
                else: r[k] = v
            nodes.append(r)
            return len(nodes)
        def item(d):
            return {k: flat(v) if isinstance(v, dict) else v for k, v in d.items()}
        fns = [item(i) for i in self.items if i["k"] == "fn"]
        rest = [item(i) for i in self.items if i["k"] not in ("fn", "fproto")]
        funcs = [{"n": f["n"], "rt": f["rt"], "ps": f["ps"], "body": flat(f["body"])} for f in self.funcs]
        entry = flat(call("main"))
        return {"items": self.pre + rest + fns, "funcs": funcs, "memsz": self.memsz, "entry": entry, "nodes": nodes}

def nesting(s):
    """deepest nesting of blocks in a statement"""
    d = 1 if s.get("k") == "block" else 0
    m = 0
    for v in s.values():
        if isinstance(v, dict): m = max(m, nesting(v))
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict): m = max(m, nesting(x))
    return d + m

# ---- printing ----------------------------------------------------------------------
PREC = {"*": 3, "/": 3, "%": 3, "+": 4, "-": 4, "<<": 5, ">>": 5, "<": 6, "<=": 6, ">": 6, ">=": 6,
        "==": 7, "!=": 7, "&": 8, "^": 9, "|": 10}

def esc(bs):
    out = '"'
    for i, b in enumerate(bs):
        c = chr(b)
        if c in '"\\': out += "\\" + c
        elif b == 10: out += "\\n"
        elif b == 13: out += "\\r"
        elif b == 9: out += "\\t"
        elif 32 <= b < 127: out += c
        else: out += "\\x%02X" % b
    return out + '"'

def base_decl(t):
    """(base tokens, declarator wrapper) for type t"""
    if t[0] == "arr":
        b, w = base_decl(t[1])
        # arrays of arrays: outermost bound first
        dims = []
        u = t
        while u[0] == "arr":
            dims.append(u[2]); u = u[1]
        b, w = base_decl(u)
        d = []
        for x in dims: d += ["[", str(x), "]"] if x else ["[", "]"]
        return b, (lambda inner: w(inner + d))
    if t[0] == "ptr":
        if t[1][0] == "fn":
            b, w = base_decl(t[1][1])
            return b, (lambda inner: w(["(", "*"] + inner + [")", "(", ")"]))
        b, w = base_decl(t[1])
        return b, (lambda inner: w(["*"] + inner))
    base = {"int": ["int"], "uint": ["unsigned"], "char": ["char"], "uchar": ["unsigned", "char"], "void": ["void"],
            "va": ["va_list"]}
    if t[0] == "tag": return t[1][1:].split(), (lambda inner: inner)
    if t[0] == "td": return [t[1]], (lambda inner: inner)
    return base[t[0]], (lambda inner: inner)

def decl_toks(t, n):
    if t == ["ptr", ["char"], "va"]: return ["va_list"] + [n]
    b, w = base_decl(t)
    return b + w([n] if n else [])

class Printer:
    """rng decides about redundant parentheses; None: minimal"""
    def __init__(self, rng=None, parens=0.0):
        self.rng = rng; self.pp = parens
    def E(self, e, lim=16):
        t, pr = self.e1(e)
        if pr > lim or (self.rng and self.pp and self.rng.random() < self.pp):
            return ["("] + t + [")"]
        return t
    def e1(self, e):
        k = e["k"]; E = self.E
        if k == "num":
            if "s" in e: return [e["s"]], 0
            v = e["v"]
            if v < 0: return ["-", str(-v)], 2
            return [str(v)], 0
        if k == "id":
            if "str" in e: return [esc(e["str"])], 0
            return [e["n"]], 0
        if k == "un": return [e["op"]] + E(e["e"], 2), 2
        if k == "inc":
            op = "++" if e["d"] > 0 else "--"
            return ([op] + E(e["e"], 2), 2) if e["pre"] else (E(e["e"], 1) + [op], 1)
        if k == "bin":
            p = PREC[e["op"]]
            return E(e["l"], p) + [e["op"]] + E(e["r"], p - 1), p
        if k == "and": return E(e["l"], 11) + ["&&"] + E(e["r"], 10), 11
        if k == "or": return E(e["l"], 12) + ["||"] + E(e["r"], 11), 12
        if k == "cond": return E(e["c"], 12) + ["?"] + E(e["a"], 13) + [":"] + E(e["b"], 13), 13
        if k == "asg": return E(e["l"], 2) + [e["op"] + "="] + E(e["r"], 14), 14
        if k == "comma": return E(e["l"], 15) + [","] + E(e["r"], 14), 15
        if k == "idx": return E(e["a"], 1) + ["["] + E(e["i"]) + ["]"], 1
        if k == "mem": return E(e["e"], 1) + [".", e["n"]], 1
        if k == "arrow": return E(e["e"], 1) + ["->", e["n"]], 1
        if k == "cast": return ["("] + decl_toks(e["t"], "") + [")"] + E(e["e"], 2), 2
        if k == "sizet": return ["sizeof", "("] + decl_toks(e["t"], "") + [")"], 2
        if k == "sizee":
            return ["sizeof", "("] + E(e["e"], 14) + [")"], 2
        if k == "obs": return ["obs", "("] + E(e["e"], 14) + [")"], 1
        if k == "call":
            t = E(e["f"], 1) + ["("]
            for i, a in enumerate(e["as"]):
                if i: t.append(",")
                t += E(a, 14)
            return t + [")"], 1
        if k == "vastart": return ["va_start", "(", e["ap"]["n"], ",", e["last"]["n"], ")"], 1
        if k == "vaarg": return ["va_arg", "(", e["ap"]["n"], ","] + decl_toks(e["t"], "") + [")"], 1
        raise Exception(k)
    NL = "\n"
    def S(self, s):
        k = s["k"]; E = self.E; NL = [self.NL]
        if k == "block":
            t = ["{"] + NL
            for x in s["ss"]: t += self.S(x)
            return t + ["}"] + NL
        if k == "expr": return E(s["e"]) + [";"] + NL
        if k == "if":
            t = ["if", "("] + E(s["c"]) + [")"]
            a = self.S(s["a"])
            if s["he"] and self.dangling(s["a"]): a = ["{"] + a + ["}"]
            t += a
            if s["he"]: t += ["else"] + self.S(s["b"])
            return t
        if k == "while": return ["while", "("] + E(s["c"]) + [")"] + self.S(s["body"])
        if k == "do": return ["do"] + self.S(s["body"]) + ["while", "("] + E(s["c"]) + [")", ";"] + NL
        if k == "for":
            return (["for", "("] + (E(s["i"]) if s["hi"] else []) + [";"] + (E(s["c"]) if s["hc"] else []) + [";"]
                    + (E(s["n"]) if s["hn"] else []) + [")"] + self.S(s["body"]))
        if k == "switch": return ["switch", "("] + E(s["c"]) + [")"] + self.S(s["body"])
        if k == "case":
            v = [s["s"]] if "s" in s else (["-", str(-s["v"])] if s["v"] < 0 else [str(s["v"])])
            return ["case"] + v + [":"] + NL
        if k == "default": return ["default", ":"] + NL
        if k == "break": return ["break", ";"] + NL
        if k == "continue": return ["continue", ";"] + NL
        if k == "goto": return ["goto", s["l"], ";"] + NL
        if k == "label": return [s["l"], ":"] + NL
        if k == "return": return ["return"] + (E(s["e"]) if s["he"] else []) + [";"] + NL
        if k == "decl":
            return (["static"] if s["st"] else []) + decl_toks(s["t"], s["n"]) + (["="] + E(s["i"], 14) if s["hi"] else []) + [";"] + NL
        if k == "enum":
            t = ["enum", "{"]
            for x in s["ns"]:
                t += [x["n"]]
                if x["v"] != 99999: t += ["="] + (["-", str(-x["v"])] if x["v"] < 0 else [str(x["v"])])
                t += [","]
            return t[:-1] + ["}", ";"] + NL
        if k == "tdef": return ["typedef"] + decl_toks(s["t"], s["n"]) + [";"] + NL
        if k == "struct":
            t = s["n"][1:].split() + ["{"]
            for m in s["ms"]: t += decl_toks(m["t"], m["n"]) + [";"]
            return t + ["}", ";"] + NL
        if k == "empty": return [";"] + NL
        if k == "pad":
            t = []
            for _ in range(s["c"] // 3): t += ["pad", "=", "pad", ";"] if False else ["_emit", "0x90"] * 3
            return ["{"] + t + ["_emit", "0x90"] * (s["c"] % 3) + ["}"] + NL
        raise Exception(k)
    def dangling(self, s):
        """would a following else bind to an if inside s?"""
        k = s["k"]
        if k == "if": return True if not s["he"] else self.dangling(s["b"])
        if k in ("while", "for"): return self.dangling(s["body"])
        return False
    def program(self, p):
        t = []
        for i in p.items:
            k = i["k"]
            if k == "gvar":
                t += (["static"] if i.get("static") else []) + decl_toks(i["t"], i["n"])
                if i["s"]: t += ["=", esc(i["s"][:-1])]
                elif i["hi"]: t += ["="] + self.E(i["i"], 14)
                t += [";", self.NL]
            elif k in ("fproto", "fn"):
                if k == "fn":
                    f = p.funcs[i["f"] - 1]
                    ps = [(x["n"], x["t"]) for x in f["ps"]]; va = f["va"]
                else:
                    ps = i["ps"]; va = i["va"]
                b, w = base_decl(i["rt"])
                d = [i["n"], "("]
                for j, (a, ty) in enumerate(ps):
                    if j: d.append(",")
                    d += decl_toks(ty, a)
                if va: d += [",", "..."]
                if not ps and not va: d += ["void"]
                t += b + w(d + [")"])
                if k == "fn": t += [self.NL] + self.S(f["body"])
                else: t += [";", self.NL]
            else:
                t += self.S(i)
        return t

ALNUM = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
def join(toks):
    """tokens to text, with a space between everything but line ends"""
    out = []
    prev = "\n"
    for t in toks:
        if t == "\n":
            if prev != "\n": out.append("\n")
        else:
            if prev != "\n": out.append(" ")
            out.append(t)
        prev = t
    return "".join(out)
