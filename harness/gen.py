"""Random engines and operation sequences, as driver commands and as model steps."""
import random, re
from fractions import Fraction as F
from fv import cmd, num, pair

TN = ["AlgebraicProduct", "BoundedDifference", "DrasticProduct", "EinsteinProduct", "HamacherProduct", "Minimum",
      "NilpotentMinimum"]
SN = ["AlgebraicSum", "BoundedSum", "DrasticSum", "EinsteinSum", "HamacherSum", "Maximum", "NilpotentMaximum",
      "NormalizedSum", "UnboundedSum"]
INTEGRAL = ["Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum"]
WEIGHTED = ["WeightedAverage", "WeightedSum"]
HEDGES = ["any", "extremely", "not", "seldom", "somewhat", "very"]
DY = ["Triangle", "Trapezoid", "Rectangle", "Ramp", "Binary", "Discrete", "SShape", "ZShape", "PiShape"]
CURVED = ["Bell", "Gaussian", "GaussianProduct", "Sigmoid", "SigmoidDifference", "SigmoidProduct", "Spike", "Cosine",
          "Concave"]
MONO = ["Ramp", "Concave", "SShape", "ZShape"]


def q(rng, lo, hi, den):
    """random multiple of 1/den in [lo, hi]"""
    a, b = int(lo * den), int(hi * den)
    return F(rng.randint(a, b), den)


# does the library let the hedges of a conclusion carry over to the next ones?
# (known finding F-HEDGE; set by the check from the finding's own input)
CARRY = [True]


# stands in for variables that there are none of
GONE = {"name": "gone", "terms": [{"name": "gone"}]}


class Lits(object):
    def __init__(self):
        self.m = {}
        for v in (0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0):
            self.m["%.3f" % v] = F(v)

    def add(self, text, value):
        self.m[text] = value
        return text

    def rand(self, rng, choices=(0.25, 0.5, 0.75, 1.0, 1.5, 2.0)):
        v = rng.choice(choices)
        fr = F(v).limit_denominator(1000)
        return self.add("%.3f" % v, fr)


def term_params(rng, k, lo, hi, special=0.08):
    w = hi - lo
    def pts(n, strict=True):
        while True:
            xs = sorted(q(rng, lo, hi, 4) for _ in range(n))
            if not strict or len(set(xs)) == n:
                return xs
    if k == "Triangle":
        p = pts(3, rng.random() < .7)
        if p[0] == p[2]: p = [lo, (lo + hi) / 2, hi]
        if rng.random() < special: p[0] = "-inf"
        elif rng.random() < special: p[2] = "inf"
        return p
    if k == "Trapezoid":
        p = pts(4, rng.random() < .5 and w >= 1)
        if p[0] == p[3]: p = [lo, lo + w / 4, hi - w / 4, hi]
        if rng.random() < special: p[0] = "-inf"
        elif rng.random() < special: p[3] = "inf"
        return p
    if k == "Rectangle": return pts(2)
    if k in ("Ramp", "Concave", "SShape", "ZShape"):
        p = pts(2)
        if k in ("Ramp", "Concave") and rng.random() < .5: p.reverse()
        return p
    if k == "Binary": return [q(rng, lo, hi, 4), rng.choice(["inf", "-inf"])]
    if k == "PiShape":
        p = pts(4, w >= 1)
        if p[0] == p[1] or p[2] == p[3]: p = [lo, lo + w / 4, hi - w / 4, hi]
        return p
    if k == "Discrete":
        xs = pts(rng.randint(2, 4))
        r = []
        for x in xs: r += [x, q(rng, 0, 1, 4)]
        return r
    if k == "Bell": return [q(rng, lo, hi, 4), F(rng.choice([1, 2, 4]), 4), F(rng.choice([1, 2, 3]), 1)]
    if k == "Gaussian": return [q(rng, lo, hi, 4), F(rng.choice([1, 2, 4]), 4)]
    if k == "GaussianProduct":
        p = pts(2, False)
        return [p[0], F(rng.choice([1, 2]), 4), p[1], F(rng.choice([1, 2]), 4)]
    if k == "Sigmoid": return [q(rng, lo, hi, 4), F(rng.choice([-8, -4, 4, 8]))]
    if k in ("SigmoidDifference", "SigmoidProduct"):
        p = pts(2)
        s = F(rng.choice([4, 8]))
        return [p[0], s, s if k == "SigmoidDifference" else -s, p[1]]
    if k == "Spike": return [q(rng, lo, hi, 4), F(rng.choice([1, 2, 4]))]
    if k == "Cosine": return [q(rng, lo, hi, 4), F(rng.choice([2, 4, 6]), 4)]
    if k == "Constant": return [q(rng, lo, hi, 8)]
    raise ValueError(k)


class EngineGen(object):
    def __init__(self, rng, **o):
        self.rng = rng
        self.o = dict(kind="mamdani", nin=(1, 3), nout=(1, 2), nblocks=(1, 2), nrules=(1, 5), terms=DY, tn=TN, sn=SN,
                      hedges=.3, acts=["General"], chain=.3, height=.3, df=INTEGRAL, res=[4, 8, 16], disabled=.1,
                      noop=.0, weights=.3, lock=.3, lockp=.3, curved=0.0, multi=.4, glue=.3, paren=.3, badrule=0.0,
                      eqterm=0.0, default=.5, tall=.2)
        self.o.update(o)
        # degrees above one are outside the domain of the norms: only with norms
        # that stay well conditioned there
        self.tall = rng.random() < self.o["tall"]
        if self.tall:
            self.o["tn"] = [k for k in self.o["tn"] if k in ("AlgebraicProduct", "Minimum")] or self.o["tn"]
            self.o["sn"] = [k for k in self.o["sn"] if k in ("AlgebraicSum", "BoundedSum", "Maximum", "NormalizedSum",
                                                             "UnboundedSum")] or self.o["sn"]
        else:
            self.o["sn"] = [k for k in self.o["sn"] if k != "UnboundedSum"] or self.o["sn"]
        if self.o["curved"]:
            # irrational degrees: only operators that are continuous
            self.o["tn"] = [k for k in self.o["tn"] if k[:3] not in ("Dra", "Nil")]
            self.o["sn"] = [k for k in self.o["sn"] if k[:3] not in ("Dra", "Nil")]
            self.o["acts"] = ["General"]
        self.lits = Lits()
        self.lits.add("1.000", F(1))
        self.build()

    def ch(self, p):
        return self.rng.random() < p

    def ri(self, k):
        a, b = self.o[k]
        return self.rng.randint(a, b)

    def rangeof(self):
        return self.rng.choice([(F(0), F(1)), (F(0), F(2)), (F(-1), F(1)), (F(-2), F(2)), (F(1), F(2))])

    def mkterm(self, name, lo, hi, kinds):
        rng = self.rng
        k = rng.choice(kinds)
        if self.ch(self.o["curved"]): k = rng.choice(CURVED)
        h = F(1)
        if self.ch(self.o["height"]): h = F(rng.choice([1, 2, 3, 4, 6, 8] if self.tall else [1, 2, 3, 4]), 4)
        if k in ("Constant", "Linear", "Function"): h = F(1)
        t = {"name": name, "k": k, "p": [], "h": h, "f": [], "text": ""}
        if k == "Linear":
            n = rng.choice([len(self.ins), len(self.ins) + 1, max(1, len(self.ins) - 1), len(self.ins) + 2])
            t["p"] = [q(rng, -1, 1, 4) for _ in range(n)]
        elif k == "Function":
            t["f"] = self.formula(rng.randint(1, 3))
            t["text"] = " ".join(t["f"])
        else:
            t["p"] = term_params(rng, k, lo, hi)
        return t

    def formula(self, depth):
        rng = self.rng
        if depth == 0 or rng.random() < .2:
            c = rng.random()
            if c < .35: return ["x"]
            if c < .75 and self.ins: return [rng.choice(self.ins)["name"]]
            return [self.lits.rand(rng)]
        c = rng.random()
        if c < .6:
            a, b = self.formula(depth - 1), self.formula(depth - 1)
            e = a + [rng.choice(["+", "-", "*"])] + b
            return ["("] + e + [")"] if rng.random() < .5 else e
        if c < .8:
            return [rng.choice(["min", "max"]), "("] + self.formula(depth - 1) + [","] + self.formula(depth - 1) + [")"]
        return [rng.choice(["abs", "floor", "round"]), "("] + self.formula(depth - 1) + [")"]

    # ------------------------------------------------------------ rules
    def prop(self, ref, var, kindvar):
        rng = self.rng
        hs = []
        # an unaggregated output has degrees above one, which hedges blow up
        wild = kindvar == "ant" and var in self.outs and (self.tall or var.get("agg") == "none")
        while not wild and self.ch(self.o["hedges"]) and len(hs) < 3:
            # square roots amplify rounding near their singular point: at most one of them,
            # applied first, on degrees that are exact
            ok = ["extremely", "not", "very"]
            if not (self.o["curved"] or set(hs) & {"seldom", "somewhat"} or kindvar == "con" and self.conh
                    or kindvar == "ant" and var in self.outs):
                ok += ["seldom", "somewhat"]
            hs.append(rng.choice(ok))
        hs.sort(key=lambda h: h in ("seldom", "somewhat"))
        if kindvar == "con" and hs: self.conh = True
        if kindvar != "con" and self.ch(self.o["hedges"] * .3):
            return [var["name"], "is"] + hs + ["any"]
        return [var["name"], "is"] + hs + [rng.choice(var["terms"] or GONE["terms"])["name"]]

    def antecedent(self, depth, block):
        rng = self.rng
        if depth == 0 or rng.random() < .3:
            if block > 0 and self.outs and self.ch(self.o["chain"]):
                v = rng.choice(self.outs)
            else:
                v = rng.choice(self.ins or [GONE])
            return self.prop(None, v, "ant")
        e = self.antecedent(depth - 1, block) + [rng.choice(["and", "or"])] + self.antecedent(depth - 1, block)
        if rng.random() < self.o["paren"]: e = ["("] + e + [")"]
        return e

    def rule(self, block):
        rng = self.rng
        self.conh = False
        t = ["if"] + self.antecedent(rng.choice([0, 1, 1, 2]), block) + ["then"]
        self.conh = "or" in t       # (a sum may exceed one by the last bit, where a root is NaN)
        n = 1
        while self.ch(self.o["multi"]) and n < 3: n += 1
        for i in range(n):
            if i: t.append("and")
            t += self.prop(None, rng.choice(self.outs or [GONE]), "con")
        if self.ch(self.o["weights"]):
            t += ["with", self.lits.rand(rng, (0.0, 0.25, 0.5, 0.75, 1.0) + ((1.5, 2.0) if self.tall else ()))]
        if self.ch(self.o["badrule"]):
            t = self.spoil(t)
        return t

    def spoil(self, t):
        rng = self.rng
        t = list(t)
        k = rng.randint(0, 4)
        i = rng.randrange(len(t))
        if k == 0: del t[i]
        elif k == 1: t.insert(i, rng.choice(["and", "or", "is", "then", "with", "very", "zzz", "if"]))
        elif k == 2: t[i] = rng.choice(["zzz", "is", "not", "and", "then"])
        elif k == 3: t = t[:i]
        else:
            j = rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        return t

    def text(self, toks):
        s = " ".join(toks)
        if self.ch(self.o["glue"]):
            s = s.replace("( ", "(").replace(" )", ")")
            if self.rng.random() < .3:
                for o in ("and", "or"): s = s.replace(" %s (" % o, " %s(" % o).replace(") %s " % o, ")%s " % o)
        return s

    def act(self):
        rng = self.rng
        k = rng.choice(self.o["acts"])
        a = {"k": k, "n": 1, "th": F(0), "cmp": "<"}
        if k in ("First", "Last"):
            a["n"], a["th"] = rng.randint(0, 3), F(rng.choice([0, 0, 1, 2, 4]), 8)
        elif k in ("Highest", "Lowest"):
            a["n"] = rng.randint(0, 4)
        elif k == "Threshold":
            a["cmp"], a["th"] = rng.choice(["<", "<=", "==", "!=", ">=", ">"]), F(rng.choice([0, 1, 2, 4, 6, 8]), 8)
        return a

    def dfz(self):
        rng = self.rng
        k = rng.choice(self.o["df"])
        if k in INTEGRAL: return {"k": k, "res": rng.choice(self.o["res"]), "type": "Automatic"}
        if k == "none": return {"k": "none", "res": 1, "type": "Automatic"}
        return {"k": k, "res": 1, "type": rng.choice(["Automatic"] * 3 + [self.o.get("wtype", "Automatic")])}

    def op(self, pool):
        return "none" if self.ch(self.o["noop"]) else self.rng.choice(pool)

    def default(self, lo, hi):
        if not self.ch(self.o["default"]): return "nan"
        x = q(self.rng, lo - 1, hi + 1, 4)
        return x if self.rng.random() >= .08 else self.rng.choice(["inf", "-inf"])

    # ------------------------------------------------------------ engine
    def build(self):
        rng, o = self.rng, self.o
        self.ins, self.outs, self.blocks = [], [], []
        for i in range(self.ri("nin")):
            lo, hi = self.rangeof()
            self.ins.append(dict(name="in%d" % (i + 1), en=not self.ch(o["disabled"]), lock=self.ch(o["lock"]), lo=lo,
                                 hi=hi, val="nan", terms=[]))
        for v in self.ins:
            v["terms"] = [self.mkterm(n, v["lo"], v["hi"], o["terms"]) for n in ["lo", "mid", "hi"][:rng.randint(1, 3)]]
        for i in range(self.ri("nout")):
            lo, hi = self.rangeof()
            kinds = {"mamdani": o["terms"], "sugeno": ["Constant", "Constant", "Linear", "Function"],
                     "tsukamoto": MONO, "mixed": ["Constant", "Ramp", "Triangle"]}[o["kind"]]
            v = dict(name="out%d" % (i + 1), en=not self.ch(o["disabled"]), lock=self.ch(o["lock"]), lo=lo, hi=hi,
                     val="nan", prev="nan",
                     **{"def": self.default(lo, hi)})
            v["lockp"] = self.ch(o["lockp"])
            v["agg"] = "none" if o["kind"] != "mamdani" and self.ch(.6) else self.op(o["sn"])
            v["df"] = self.dfz()
            v["terms"] = []
            self.outs.append(v)
            v["terms"] = [self.mkterm(n, lo, hi, kinds) for n in ["neg", "zero", "pos"][:rng.randint(1, 3)]]
        for b in range(self.ri("nblocks")):
            self.blocks.append(dict(name="block%d" % (b + 1), en=not self.ch(o["disabled"]), conj=self.op(o["tn"]),
                                    disj=self.op(o["sn"]), impl=self.op(o["tn"]), act=self.act(),
                                    rules=[self.rule(b) for _ in range(self.ri("nrules"))]))

        if self.ch(o.get("bare", 0)):
            # parts are left out
            c = rng.randint(0, 6)
            if c == 0: self.ins = []
            elif c == 1: self.outs = []
            elif c == 2: self.blocks = []
            elif c in (3, 4): rng.choice(self.outs)["terms"] = []
            else: rng.choice(self.blocks)["rules"] = []

    def model(self):
        def term(t):
            return {"name": t["name"], "k": t["k"], "p": [pair(x) for x in t["p"]], "h": pair(t["h"]), "f": t["f"]}
        return {
            "ins": [{"name": v["name"], "en": v["en"], "lock": v["lock"], "lo": pair(v["lo"]), "hi": pair(v["hi"]),
                     "val": [0, 0], "terms": [term(t) for t in v["terms"]]} for v in self.ins],
            "outs": [{"name": v["name"], "en": v["en"], "lock": v["lock"], "lo": pair(v["lo"]), "hi": pair(v["hi"]),
                      "val": [0, 0], "prev": [0, 0], "def": pair(v["def"]), "lockp": v["lockp"], "agg": v["agg"],
                      "df": v["df"], "fz": [], "terms": [term(t) for t in v["terms"]]} for v in self.outs],
            "blocks": [{"name": b["name"], "en": b["en"], "conj": b["conj"], "disj": b["disj"], "impl": b["impl"],
                        "act": dict(b["act"], th=pair(b["act"]["th"])),
                        "rules": [{"toks": r, "en": True, "w": [1, 1], "loaded": False, "ante": [], "cons": [],
                                   "deg": [0, 1], "trig": False} for r in b["rules"]]} for b in self.blocks],
            "lits": {k: pair(v) for k, v in self.lits.m.items()}, "carry": CARRY[0]}

    def commands(self, s):
        c = [cmd("new", s, "engine")]
        for v in self.ins:
            c.append(cmd("iv", s, v["name"], int(v["en"]), int(v["lock"]), num(v["lo"]), num(v["hi"])))
        for v in self.outs:
            c.append(cmd("ov", s, v["name"], int(v["en"]), int(v["lock"]), num(v["lo"]), num(v["hi"]), num(v["def"]),
                         int(v["lockp"]), v["agg"], dfspec(v["df"])))
        for side, vs in (("in", self.ins), ("out", self.outs)):
            for i, v in enumerate(vs):
                for t in v["terms"]:
                    ps = [t["text"]] if t["k"] == "Function" else [num(x) for x in t["p"]]
                    c.append(cmd("term", s, side, i + 1, t["name"], t["k"], num(t["h"]), *ps))
        for b in self.blocks:
            c.append(cmd("block", s, b["name"], int(b["en"]), b["conj"], b["disj"], b["impl"], actspec(b["act"])))
        for i, b in enumerate(self.blocks):
            for r in b["rules"]:
                c.append(cmd("rule", s, i + 1, self.text(r)))
        c.append(cmd("refs", s))
        return c


def dfspec(d):
    if d["k"] in INTEGRAL: return "%s %d" % (d["k"], d["res"])
    if d["k"] == "none": return "none"
    return "%s %s" % (d["k"], d["type"])


def actspec(a):
    k = a["k"]
    if k in ("First", "Last"): return "%s %d %s" % (k, a["n"], num(a["th"]))
    if k in ("Highest", "Lowest"): return "%s %d" % (k, a["n"])
    if k == "Threshold": return "%s %s %s" % (k, a["cmp"], num(a["th"]))
    return k


NEEDS = {"in": "ins", "enin": "ins", "lockin": "ins", "rangein": "ins"}
NEEDS.update({k: "outs" for k in ("out", "setprev", "enout", "lockp", "lockout", "agg", "df", "def", "rangeout", "clearout", "defuzzify")})
NEEDS.update({k: "blocks" for k in ("enblock", "loadrules", "reloadrules", "unloadrules", "addrule", "insrule", "conj", "disj", "impl", "act",
                                    "activate")})


class Scenario(object):
    """A script for the driver and, step by step, the operations of the model."""
    def __init__(self, sid):
        self.id = sid
        self.lines = []
        self.steps = []        # (model step, index of op line or None, index of obs line)
        self.needed = set()
        self.fills = {}        # step number -> function(model step, answers) that adds what was observed

    def make(self, s, eng):
        for x in eng.commands(s): self.lines.append(x)
        self.lines.append(cmd("obs", 0))
        self.steps.append(({"op": "make", "s": s, "eng": eng.model()}, None, len(self.lines) - 1))

    def op(self, name, s, *args, **model):
        self.lines.append(cmd(name, s, *args))
        k = len(self.lines) - 1
        self.lines.append(cmd("obs", s if name in ("process", "activate", "defuzzify") else model.pop("lookat", 0)))
        self.steps.append((dict(model, op=name, s=s), k, len(self.lines) - 1))

    def line(self, *a):
        self.lines.append(cmd(*a))
        return len(self.lines) - 1

    def export(self, fmt, s, d=3, ind="  ", sep=None, ns=False, own=False):
        """writes slot s as text; the dump of its structure goes with it"""
        self.line("decimals", d)
        way = random.Random("%s %d" % (self.id, len(self.lines))).choice(
            {"fll": ["", "", "file", "clone", "set", "say", "parts", "inner", "each"], "fcl": ["", "", "file", "clone", "set"],
             "cpp": ["", "file", "clone", "set"], "java": ["", "file", "clone", "set"]}.get(fmt, ["", "", "file", "clone"]))
        if way: self.line("how", way)
        k = self.line("export", fmt, s, int(ns), int(own)) if fmt == "cpp" else self.line("export", fmt, s, int(own)) if fmt == "java" else \
            self.line("export", fmt, s, ind, sep) if sep is not None else \
            self.line("export", fmt, s, ind) if fmt == "fcl" else self.line("export", fmt, s)
        self.line("decimals", 3)
        j = self.line("dump", s)
        o = self.line("obs", 0)

        def fill(m, ans):
            m["lines"] = ans[k].get("text", "").split(sep or "\n")
            m["dump"] = ans[j].get("dump", {})
            m["lib"] = ans[k].get("lib", ["", ""])
        self.fills[len(self.steps)] = fill
        self.steps.append(({"op": "export", "s": s, "fmt": fmt, "d": d, "ind": ind, "ns": ns, "own": own}, k, o))
        return k, j, s, d

    def compiled(self, key, t, src):
        """the engine that the exported program builds goes into slot t"""
        k = self.line("generated", key, t)
        o = self.line("obs", 0)

        def fill(m, ans):
            m["from"] = ans[src[1]].get("dump", {})
            m["dump"] = ans[k].get("dump", {})
        self.fills[len(self.steps)] = fill
        self.needed.add(len(self.steps))
        self.steps.append(({"op": "compiled", "s": t, "src": src[2], "d": src[3], "carry": CARRY[0]}, k, o))

    def importer(self, fmt, t, src, d=3, sep=None):
        """reads the text at hand into slot t; src: (line of the export, line of its dump), or the text given"""
        if isinstance(src, str): self.line("settext", src)
        way = random.Random("%s %d" % (self.id, len(self.lines))).choice(["", "", "file", "clone", "set"])
        if way: self.line("how", way)
        k = self.line("import", fmt, t, sep) if sep is not None else self.line("import", fmt, t)
        o = self.line("obs", 0)

        def fill(m, ans):
            if isinstance(src, str): m["lines"] = src.split(sep or "\n")
            else:
                m["lines"] = ans[src[0]].get("text", "").split(sep or "\n")
                m["from"] = ans[src[1]].get("dump", {})
            m["dump"] = ans[k].get("dump", {})
        self.fills[len(self.steps)] = fill
        if not isinstance(src, str): self.needed.add(len(self.steps))
        self.steps.append(({"op": "import", "s": t, "src": 0 if isinstance(src, str) else src[2], "fmt": fmt, "d": d, "carry": CARRY[0]}, k, o))

    def trace(self, answers):
        st = []
        for n, (m, k, o) in enumerate(self.steps):
            d = dict(m)
            d["e"] = bool(answers[k]["e"]) if k is not None else False
            d["obs"] = answers[o].get("obs", [])      # (nothing, if observing raised)
            if n in self.fills: self.fills[n](d, answers)
            st.append(d)
            if d["e"] and n in self.needed: break      # (what follows cannot be done)
        return {"id": self.id, "steps": st}


def missing(e, text):
    """the lines of a status as [kind, index, number of rules]"""
    r, n = [], {}
    idx = {v["name"]: i + 1 for i, v in enumerate(e.outs)}
    for l in text.split("\n"):
        if not l: continue
        m = re.match(r"- Engine <.*> has no (input variables|output variables|rule blocks)$", l)
        if m:
            r.append([{"input variables": "inputs", "output variables": "outputs", "rule blocks": "blocks"}[m.group(1)], 0, 0])
            continue
        m = re.match(r"- Output variable <(.*)> has no (terms|defuzzifier|aggregation)", l)
        if m:
            r.append([m.group(2), idx.get(m.group(1), -1), 0])
            continue
        m = re.match(r"- Rule block (\d+) <.*> has no (rules|conjunction|disjunction|implication)", l)
        if m:
            r.append([m.group(2), int(m.group(1)), 0])
            continue
        m = re.match(r"- Rule block (\d+) <.*> has (\d+) rules that require (conjunction|disjunction|implication)", l)
        if m: n[(m.group(3), int(m.group(1)))] = int(m.group(2))
        else: r.append([l, 0, 0])
    return [[k, i, n.get((k, i), 0)] for k, i, _ in r]


class OpGen(object):
    """Random operations over the engines of a scenario."""
    def __init__(self, rng, sc, weights):
        self.rng, self.sc = rng, sc
        self.w = weights
        self.eng = {}          # slot -> EngineGen (shape is shared by copies)
        self.nrules = {}       # slot -> list of rule counts
        self.fresh = {}        # slot -> implication pointers valid (no operator replaced since last process)

    def make(self, s, eng):
        self.sc.make(s, eng)
        self.eng[s] = eng
        self.nrules[s] = [len(b["rules"]) for b in eng.blocks]
        self.fresh[s] = False

    def load(self, s):
        for b in range(len(self.eng[s].blocks)):
            self.sc.op("loadrules", s, b + 1, i=b + 1)

    def value(self, v):
        rng = self.rng
        c = rng.random()
        if c < .05: return "nan"
        if c < .08: return rng.choice(["inf", "-inf"])
        if c < .18: return q(rng, v["lo"] - 1, v["hi"] + 1, 4)
        return q(rng, v["lo"], v["hi"], rng.choice([4, 8, 16]))

    def ask_ready(self, s):
        """is the engine ready, and if not: what is missing?"""
        sc, e = self.sc, self.eng[s]
        k, o = sc.line("ready", s), sc.line("obs", 0)
        sc.fills[len(sc.steps)] = lambda m, ans: m.update(r=ans[k].get("r", True), m=missing(e, ans[k].get("s", "")))
        sc.steps.append(({"op": "ready", "s": s}, k, o))

    def ask_type(self, s):
        sc = self.sc
        k, o = sc.line("type", s), sc.line("obs", 0)
        sc.fills[len(sc.steps)] = lambda m, ans: m.update(n=ans[k].get("n", ""))
        sc.steps.append(({"op": "type", "s": s}, k, o))

    def ask_rule(self, s):
        """what a rule was understood as"""
        sc, c = self.sc, self.rndrule(s)
        if c is None: return
        k, o = sc.line("say", s, c[0] + 1, c[1] + 1), sc.line("obs", 0)
        sc.fills[len(sc.steps)] = lambda m, ans: m.update(raised=ans[k].get("raised", "?"),
                                                          **{f: ans[k].get(f, "").split() for f in ("pre", "inf", "post", "con")})
        sc.steps.append(({"op": "say", "s": s, "i": c[0] + 1, "r": c[1] + 1}, k, o))

    def inputs(self, s):
        for i, v in enumerate(self.eng[s].ins):
            x = self.value(v)
            self.sc.op("in", s, i + 1, num(x), i=i + 1, x=pair(x))

    def process(self, s):
        self.sc.op("process", s)
        self.fresh[s] = True

    def rndrule(self, s):
        c = [(b, r) for b, n in enumerate(self.nrules[s]) for r in range(n)]
        return self.rng.choice(c) if c else None

    def step(self, s):
        rng, sc, e = self.rng, self.sc, self.eng[s]
        name = rng.choices(list(self.w), weights=list(self.w.values()))[0]
        # (engines without some of the parts)
        if name in NEEDS and not getattr(e, NEEDS[name]): return
        if name == "ready": self.ask_ready(s)
        elif name == "type": self.ask_type(s)
        elif name == "say": self.ask_rule(s)
        elif name == "run":
            self.inputs(s)
            self.process(s)
        elif name == "process":
            self.process(s)
        elif name == "in":
            i = rng.randrange(len(e.ins))
            x = self.value(e.ins[i])
            if rng.random() < .3: sc.op("inname", s, e.ins[i]["name"], num(x), k=e.ins[i]["name"], x=pair(x))
            else: sc.op("in", s, i + 1, num(x), i=i + 1, x=pair(x))
        elif name == "out":
            i = rng.randrange(len(e.outs))
            x = self.value(e.outs[i])
            sc.op("out", s, i + 1, num(x), i=i + 1, x=pair(x))
        elif name == "setprev":
            i = rng.randrange(len(e.outs))
            x = self.value(e.outs[i])
            sc.op("setprev", s, i + 1, num(x), i=i + 1, x=pair(x))
        elif name == "restart":
            sc.op("restart", s)
        elif name in ("enin", "lockin"):
            i, f = rng.randrange(len(e.ins)), rng.random() < .5
            sc.op(name, s, i + 1, int(f), i=i + 1, f=f)
        elif name in ("enout", "lockp", "lockout"):
            i, f = rng.randrange(len(e.outs)), rng.random() < .5
            sc.op(name, s, i + 1, int(f), i=i + 1, f=f)
        elif name == "enblock":
            i, f = rng.randrange(len(e.blocks)), rng.random() < .5
            sc.op(name, s, i + 1, int(f), i=i + 1, f=f)
        elif name == "enrule":
            br = self.rndrule(s)
            if br:
                f = rng.random() < .5
                sc.op(name, s, br[0] + 1, br[1] + 1, int(f), i=br[0] + 1, r=br[1] + 1, f=f)
        elif name == "weight":
            br = self.rndrule(s)
            if br:
                x = q(rng, 0, 1, 4)
                sc.op(name, s, br[0] + 1, br[1] + 1, num(x), i=br[0] + 1, r=br[1] + 1, x=pair(x))
        elif name == "loadrule":
            br = self.rndrule(s)
            if br:
                lits0 = dict(e.lits.m)
                t = e.rule(br[0])
                # new literals must be known to the model from the start: reuse only known ones
                t = [x if x in lits0 or x not in e.lits.m else "1.000" for x in t]
                sc.op(name, s, br[0] + 1, br[1] + 1, e.text(t), i=br[0] + 1, r=br[1] + 1, toks=t)
        elif name in ("ruledeg", "trigger", "deactivate", "setdeg", "byhand"):
            br = self.rndrule(s)
            if not br: return
            at = (br[0] + 1, br[1] + 1)
            for n in (("ruledeg", "trigger") if name == "byhand" else (name,)):
                m = {"lookat": s} if n == "trigger" and self.fresh[s] else {}
                x = []
                if n == "setdeg":
                    y = q(rng, 0, 2, 8)
                    x, m = [num(y)], {"x": pair(y)}
                sc.op(n, s, *at, *x, i=at[0], r=at[1], **m)
        elif name in ("reloadrule", "unloadrule"):
            br = self.rndrule(s)
            if br: sc.op(name, s, br[0] + 1, br[1] + 1, i=br[0] + 1, r=br[1] + 1)
        elif name in ("loadrules", "reloadrules", "unloadrules"):
            i = rng.randrange(len(e.blocks))
            sc.op(name, s, i + 1, i=i + 1)
        elif name in ("addrule", "insrule"):
            b = rng.randrange(len(e.blocks))
            good, keep = rng.random() < .85, e.o["badrule"]
            if not e.ins or not e.outs or not all(v["terms"] for v in e.ins + e.outs): good = False
            e.o["badrule"] = 0
            t = e.rule(b)
            e.o["badrule"] = keep
            if not good: t = t + ["zzz"]
            r = rng.randint(0, self.nrules[s][b])
            if name == "addrule": sc.op(name, s, b + 1, e.text(t), i=b + 1, toks=t)
            else: sc.op(name, s, b + 1, r + 1, e.text(t), i=b + 1, r=r + 1, toks=t)
            if good: self.nrules[s][b] += 1
        elif name == "rmrule":
            br = self.rndrule(s)
            if br:
                sc.op(name, s, br[0] + 1, br[1] + 1, i=br[0] + 1, r=br[1] + 1)
                self.nrules[s][br[0]] -= 1
        elif name in ("conj", "impl"):
            i, k = rng.randrange(len(e.blocks)), e.op(e.o["tn"])
            sc.op(name, s, i + 1, k, i=i + 1, k=k)
            self.fresh[s] = False
        elif name == "disj":
            i, k = rng.randrange(len(e.blocks)), e.op(e.o["sn"])
            sc.op(name, s, i + 1, k, i=i + 1, k=k)
        elif name == "agg":
            i, k = rng.randrange(len(e.outs)), e.op(e.o["sn"])
            sc.op(name, s, i + 1, k, i=i + 1, k=k)
        elif name == "act":
            i, a = rng.randrange(len(e.blocks)), e.act()
            sc.op(name, s, i + 1, actspec(a), i=i + 1, act=dict(a, th=pair(a["th"])))
        elif name == "df":
            i, d = rng.randrange(len(e.outs)), e.dfz()
            sc.op(name, s, i + 1, dfspec(d), i=i + 1, df=d)
        elif name == "def":
            i = rng.randrange(len(e.outs))
            x = self.value(e.outs[i])
            sc.op(name, s, i + 1, num(x), i=i + 1, x=pair(x))
        elif name == "rangeout":
            i = rng.randrange(len(e.outs))
            lo, hi = e.rangeof()
            sc.op(name, s, i + 1, num(lo), num(hi), i=i + 1, x=pair(lo), y=pair(hi))
        elif name == "rangein":
            i = rng.randrange(len(e.ins))
            lo, hi = e.rangeof()
            sc.op(name, s, i + 1, num(lo), num(hi), i=i + 1, x=pair(lo), y=pair(hi))
        elif name == "clearout":
            i = rng.randrange(len(e.outs))
            sc.op(name, s, i + 1, i=i + 1)
        elif name == "activate":
            if self.fresh[s]:
                i = rng.randrange(len(e.blocks))
                sc.op(name, s, i + 1, i=i + 1)
        elif name == "defuzzify":
            if self.fresh[s]:
                i = rng.randrange(len(e.outs))
                sc.op(name, s, i + 1, i=i + 1)
        elif name == "configure":
            c, d, m, g = e.op(e.o["tn"]), e.op(e.o["sn"]), e.op(e.o["tn"]), e.op(e.o["sn"])
            a, f = e.act(), e.dfz()
            sc.op(name, s, c, d, m, g, dfspec(f), actspec(a), conj=c, disj=d, impl=m, agg=g, df=f,
                  act=dict(a, th=pair(a["th"])))
            self.fresh[s] = False
        else:
            raise ValueError(name)

    def dup(self, how, s, t):
        # (operators that contributions refer to may be gone by now: then they are not looked at)
        self.sc.op(how, s, t, t=t, lookat=t if self.fresh[s] else 0)
        self.eng[t] = self.eng[s]
        self.nrules[t] = list(self.nrules[s])
        self.fresh[t] = self.fresh[s]

    def assemble(self, s, t, way, load):
        """slot t becomes an engine made of copies of the components of slot s"""
        sc = self.sc
        k = len(sc.lines)
        sc.fills[len(sc.steps)] = lambda m, ans: m.update(bad=ans[k].get("bad", False))
        sc.op("assemble", s, t, way, int(load), t=t, i=way, f=load)
        self.eng[t] = self.eng[s]
        self.nrules[t] = list(self.nrules[s])
        self.fresh[t] = False         # (its contributions refer to the operators of slot s)

    def delete(self, s):
        self.sc.op("del", s)
        del self.eng[s]
