"""Checks of the properties about texts (specification: Fll.tla, Fis.tla, Fcl.tla)."""
import fv, gen
from gen import *
from engine_props import probe_hedges, kinds, ALLACT, ALLDF, w, BASE, TOGGLES, CONFIG, VALUES, LOADS, STAGES

WORDS = ["a", "the", "tip", "fan", "speed 2", "of-the", "x=1", "(v)", "50%", "A.B", "x:y", "if"]


def prose(rng):
    return " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 3)))


def metadata(sc, s, e, rng):
    sc.line("meta", s, prose(rng) if rng.random() < .6 else "engine", prose(rng) if rng.random() < .5 else "")
    for side, vs in (("in", e.ins), ("out", e.outs), ("block", e.blocks)):
        for i in range(len(vs)):
            if rng.random() < .3: sc.line("desc", s, side, i + 1, prose(rng))


def everything(rng, k, curved=.3):
    o = kinds(rng, k)
    o.update(acts=ALLACT if k % 2 else ["General"], nblocks=(1, 3), badrule=.15 if k % 3 == 0 else 0,
             noop=.1 if k % 4 == 0 else 0, nout=(1, 3))
    if k % 5 == 0: o.update(df=list(o["df"]) + ["none"])
    if o.get("curved") is None and k % 3 == 1 and o["kind"] == "mamdani": o.update(curved=curved)
    o["res"] = [4, 8, 16] + ([])
    return o


def both(og, rng, sc, slots, e=None):
    e = e or og.eng[slots[0]]
    xs = [og.value(v) for v in e.ins]
    for s in slots:
        for i, x in enumerate(xs): sc.op("in", s, i + 1, num(x), i=i + 1, x=pair(x))
        sc.op("process", s)
        og.fresh[s] = True


def adopt(og, s, t):
    og.eng[t] = og.eng[s]
    og.nrules[t] = list(og.nrules[s])
    og.fresh[t] = False


def fine(e, rng):
    """gives some terms parameters that need more than three decimals"""
    for v in e.ins + e.outs:
        for t in v["terms"]:
            if t["k"] in ("Triangle", "Trapezoid", "Rectangle", "Ramp", "Discrete", "Linear", "Constant", "Gaussian"):
                t["p"] = [x if isinstance(x, str) else x + F(rng.randint(0, 15), 64) for x in t["p"]]
            if t["k"] not in ("Constant", "Linear", "Function") and rng.random() < .4:
                t["h"] = F(rng.choice([3, 5, 7, 17, 31]), 32)


def roundtrip(ctx, fmt, label, n, opts):
    r = []
    for k in range(n):
        rng = ctx.rng(label, k)
        o = opts(rng, k)
        exact = k % 3 > 0            # (numbers survive, so that evaluations may be compared)
        sc = Scenario("%s%d" % (label, k))
        og = OpGen(rng, sc, w(BASE, TOGGLES, CONFIG, VALUES, LOADS))
        e = EngineGen(rng, **o)
        if not exact:
            fine(e, rng)
            for v in e.outs:
                if v["df"]["k"] in INTEGRAL and rng.random() < .3: v["df"]["res"] = rng.choice([100, 1000])
        og.make(1, e)
        metadata(sc, 1, e, rng)
        if rng.random() < .8: og.load(1)
        if exact:
            for _ in range(rng.randint(0, 4)): og.step(1)
        d = rng.choice([3, 3, 2, 4, 6] if exact else [1, 2, 3, 3, 4, 5])
        fll = fmt == "fll"
        ind = rng.choice(["  ", "  ", "", "\t", "    "]) if fll else "  "
        sep = rng.choice([None, None, "\n", "; "]) if fll and ind == "  " else "\n" if fll else None
        if fll and sep is None: ind = "  "
        src = sc.export(fmt, 1, d, ind, sep)
        sc.importer(fmt, 2, src, d, sep)
        adopt(og, 1, 2)
        if exact:
            both(og, rng, sc, (1, 2))
            for _ in range(rng.randint(0, 3)): og.step(rng.choice((1, 2)))
            both(og, rng, sc, (2, 1))
        s2 = sc.export(fmt, 2, 3)
        sc.importer(fmt, 3, s2, 3)
        r.append(sc)
    return r


class CodeGen(EngineGen):
    """engines whose rules the FIS format has codes for (mostly)"""
    def formula(self, depth):
        f = EngineGen.formula(self, depth)
        return f if not set(f) & {","} or self.ch(.05) else self.formula(depth - 1 if depth else 0)

    def hedged(self, v, ant):
        rng = self.rng
        c = rng.random()
        if c < 1 - self.o["hedges"]: hs = []
        elif c > .995: hs = [rng.choice(["very", "not", "extremely"]) for _ in range(3)]
        else:
            hs = rng.choice([["not"], ["very"], ["extremely"], ["very", "very"], ["not", "very"], ["not", "extremely"], ["somewhat"],
                             ["seldom"], ["not", "very", "very"]])
        if (self.o["curved"] or not ant) and set(hs) & {"somewhat", "seldom"}: hs = ["very"]
        if ant and self.ch(.06): return [v["name"], "is"] + (["not"] if self.ch(.3) else []) + ["any"]
        return [v["name"], "is"] + hs + [rng.choice(v["terms"])["name"]]

    def rule(self, block):
        rng = self.rng
        vs = rng.sample(self.ins, rng.randint(1, len(self.ins)))
        if self.ch(.02): vs = vs + [rng.choice(self.ins + self.outs)]
        op = rng.choice(["and", "or"])
        t = ["if"]
        for i, v in enumerate(vs):
            if i: t.append(op if not self.ch(self.o["mixed"]) else rng.choice(["and", "or"]))
            t += self.hedged(v, True)
        t.append("then")
        ws = rng.sample(self.outs, rng.randint(1, len(self.outs)))
        for i, v in enumerate(ws):
            if i: t.append("and")
            t += self.hedged(v, False)
        if self.ch(self.o["weights"]): t += ["with", self.lits.rand(rng, (0.0, 0.25, 0.5, 0.75, 1.0))]
        return self.spoil(t) if self.ch(self.o["badrule"]) else t


def refused(e):
    for b in e.blocks:
        for t in b["rules"]:
            a = t[:t.index("then")] if "then" in t else t
            if "and" in a and "or" in a: return True
    return False


def coded(rng, k):
    o = everything(rng, k)
    o.update(chain=0, mixed=.5 if k % 7 == 6 else 0, nin=(1, 4), nout=(1, 3), acts=["General"])
    return o


FTN = dict(Minimum="min", AlgebraicProduct="prod", BoundedDifference="bounded_difference", DrasticProduct="drastic_product",
           EinsteinProduct="einstein_product", HamacherProduct="hamacher_product", NilpotentMinimum="nilpotent_minimum")
FSN = dict(Maximum="max", AlgebraicSum="probor", BoundedSum="bounded_sum", NormalizedSum="normalized_sum", DrasticSum="drastic_sum",
           EinsteinSum="einstein_sum", HamacherSum="hamacher_sum", NilpotentMaximum="nilpotent_maximum", UnboundedSum="sum")
FDF = dict(Centroid="centroid", Bisector="bisector", LargestOfMaximum="lom", MeanOfMaximum="mom", SmallestOfMaximum="som",
           WeightedAverage="wtaver", WeightedSum="wtsum")
FMF = dict(Bell="gbellmf", Binary="binarymf", Concave="concavemf", Constant="constant", Cosine="cosinemf", Discrete="discretemf",
           Function="function", Gaussian="gaussmf", GaussianProduct="gauss2mf", Linear="linear", PiShape="pimf", Ramp="rampmf",
           Rectangle="rectmf", SigmoidDifference="dsigmf", Sigmoid="sigmf", SigmoidProduct="psigmf", SShape="smf", Spike="spikemf",
           Trapezoid="trapmf", Triangle="trimf", ZShape="zmf")


class FisText(object):
    """FIS text of a generated engine, made here, with variations"""
    def __init__(self, rng, e):
        self.rng, self.e = rng, e

    def q(self, x):
        return "'" + x + "'" if self.rng.random() < .85 else x

    def n(self, x):
        if isinstance(x, str): return x
        return self.rng.choice(["%.3f", "%.3f", "%g", "%.5f", "%+.3f"]) % float(x)

    def name(self, table, k):
        return table[k] if self.rng.random() < .8 else k

    def var(self, kind, i, v):
        rng = self.rng
        kv = [("Name", self.q(v["name"])), ("Range", "[%s %s]" % (self.n(v["lo"]), self.n(v["hi"])))]
        if rng.random() < .5: kv.append(("NumMFs", str(len(v["terms"]))))
        if rng.random() < .3: kv.append(("Enabled", rng.choice(["1", "0", "1.000"])))
        if kind == "Output":
            if rng.random() < .3: kv.append(("Default", self.n(v["def"])))
            if rng.random() < .3: kv.append(("LockPrevious", rng.choice(["1", "0"])))
            if rng.random() < .3: kv.append(("LockRange", rng.choice(["1", "0"])))
        head, rest = kv[:1], kv[1:]
        if rng.random() < .4: rng.shuffle(rest)
        for t in v["terms"]:
            p = " ".join(self.n(x) for x in t["p"]) if t["k"] != "Function" else t["text"]
            rest.append(("MF%d" % (len(rest) + 1), "%s:%s,[%s]" % (self.q(t["name"]), self.q(self.name(FMF, t["k"])), p)))
        return ["[%s%d]" % (kind, i)] + [self.kv(k, v) for k, v in head + rest]

    def kv(self, k, v):
        rng = self.rng
        s = k + rng.choice(["=", "=", " = "]) + v + rng.choice(["", "", "", "  ", " % x", " # y", " // z", "# x", "//y", "\t# z"] if rng.random() < .3 else [""])
        return rng.choice(["", "", "  "]) + (s if " % x" not in s else s.replace(" % x", ""))

    def code(self, v):
        rng = self.rng
        if rng.random() < .2: return "0"
        if rng.random() < .06: return rng.choice(["0.99", "-0.990"])
        h = rng.choice(["", "", "", ".2", ".3", ".4", ".05", ".01", ".000", ".200"])
        return rng.choice(["", "", "-"]) + str(rng.randint(1, len(v["terms"]))) + h

    def text(self):
        rng, e = self.rng, self.e
        b = e.blocks[0]
        sysv = [("Name", self.q(prose(rng))), ("Type", "'mamdani'"), ("Version", "2.0"), ("NumInputs", str(len(e.ins)))]
        if b["conj"] != "none": sysv.append(("AndMethod", self.q(self.name(FTN, b["conj"]))))
        if b["disj"] != "none": sysv.append(("OrMethod", self.q(self.name(FSN, b["disj"]))))
        if b["impl"] != "none": sysv.append(("ImpMethod", self.q(self.name(FTN, b["impl"]))))
        o = e.outs[0]
        if o["agg"] != "none": sysv.append(("AggMethod", self.q(self.name(FSN, o["agg"]))))
        if o["df"]["k"] != "none": sysv.append(("DefuzzMethod", self.q(self.name(FDF, o["df"]["k"]))))
        if rng.random() < .3: rng.shuffle(sysv)
        secs = [["[System]"] + [self.kv(k, v) for k, v in sysv]]
        for i, v in enumerate(e.ins): secs.append(self.var("Input", i + 1, v))
        for i, v in enumerate(e.outs): secs.append(self.var("Output", i + 1, v))
        rules = ["[Rules]"]
        for _ in range(rng.randint(0, 4)):
            a = " ".join(self.code(v) for v in e.ins)
            c = " ".join(self.code(v) for v in e.outs)
            rules.append("%s%s, %s (%s) : %s" % (rng.choice(["", " "]), a + rng.choice(["", " "]), c, rng.choice(["1", "1.000", "0.5", "0.250"]),
                                              rng.choice("12")))
        if rng.random() < .1: rng.shuffle(secs[1:])
        secs.append(rules)
        if rng.random() < .05: secs[0], secs[1] = secs[1], secs[0]
        L = []
        for s in secs: L += s + ([""] if rng.random() < .7 else [])
        for _ in range(rng.randint(0, 3)):
            L.insert(rng.randint(0, len(L)), rng.choice(["", "  ", "% comment", "# comment", "// comment", "  % x"]))
        return L


def spoil_fis(rng, L):
    L = list(L)
    c = [i for i, x in enumerate(L) if x.strip()]
    i = rng.choice(c)
    k = rng.randint(0, 9)
    x = L[i]
    if k == 0: del L[i]
    elif k == 1: L[i] = x.replace("=", " ", 1)
    elif k == 2: L[i] = rng.choice(["x", "Foo", "MF", "Max"]) + x
    elif k == 3: L[i] = x.replace("[", "").replace("(", "")
    elif k == 4: L[i] = x.replace(",", " ")
    elif k == 5: L[i] = x.replace(":", " ")
    elif k == 6:
        ws = x.split(" ")
        del ws[rng.randrange(len(ws))]
        L[i] = " ".join(ws)
    elif k == 7: L.insert(i, rng.choice(["junk", "Foo=1", "Name=", "[Foo]", "[System]", "Range=[0 1]", "Range=[0, 1]", "MF1='a':'trimf',[0 1]",
                                         "MF1='a':'foomf',[0 1]", "1 1, 1 (1) : 1", "AndMethod='max'", "DefuzzMethod='foo'", "Enabled=x",
                                         "MF1='a':'trapmf',[0 1 2 3 0.5]", "MF1='a':'constant',[a]", "OrMethod=''", "[Rules]", "Default=x"]))
    elif k == 8:
        j = rng.choice(c)
        L[i], L[j] = L[j], L[i]
    elif k == 9: L[i] = x.replace(rng.choice("0123456789"), rng.choice(["x", "9", ".", "-"]), 1)
    return L


def X03(ctx):
    """FIS round trip"""
    probe_hedges(ctx)
    r = []
    for k in range(ctx.n(150, 3000)):
        rng = ctx.rng("fis", k)
        sc = Scenario("fis%d" % k)
        og = OpGen(rng, sc, BASE)
        e = CodeGen(rng, **coded(rng, k))
        if k % 3 == 0: fine(e, rng)
        og.make(1, e)
        sc.line("meta", 1, rng.choice(["engine", "tip of the fan", "a b=c", "x-1"]), prose(rng))
        if rng.random() < .9: og.load(1)
        if k % 3:
            for _ in range(rng.randint(0, 3)): og.step(1)
        src = sc.export("fis", 1, rng.choice([2, 3, 3, 4, 6]))
        if not refused(e):
            sc.importer("fis", 2, src, src[3])
            if all(v["df"]["k"] not in INTEGRAL for v in e.outs): both(og, rng, sc, (1, 2), e)
            s2 = sc.export("fis", 2, 3)
            sc.importer("fis", 3, s2, 3)
        r.append(sc)
    ctx.conform("EngineTrace", ["dump", "text", "import", "roundtrip", "iso"], r, "writing and reading FIS")
    r = []
    for k in range(ctx.n(100, 3000)):
        rng = ctx.rng("fisread", k)
        o = coded(rng, k)
        o.update(mixed=0, nin=(1, 2), nout=(1, 2), nrules=(1, 3), nblocks=(1, 1), badrule=0)
        sc = Scenario("readfis%d" % k)
        L = FisText(rng, CodeGen(rng, **o)).text()
        if k % 3:
            for t in range(1, 4): sc.importer("fis", t, "\n".join(spoil_fis(rng, L)))
        else:
            sc.importer("fis", 1, "\n".join(L))
            sc.needed.add(len(sc.steps) - 1)
            sc.export("fis", 1)
        r.append(sc)
    ctx.conform("EngineTrace", ["import", "text", "dump", "iso"], r, "reading FIS")


class FclText(object):
    """FCL text of a generated engine, made here, with variations"""
    TN = dict(Minimum="MIN", AlgebraicProduct="PROD", BoundedDifference="BDIF", DrasticProduct="DPROD", EinsteinProduct="EPROD",
              HamacherProduct="HPROD", NilpotentMinimum="NMIN", none="NONE")
    SN = dict(Maximum="MAX", AlgebraicSum="ASUM", BoundedSum="BSUM", NormalizedSum="NSUM", DrasticSum="DSUM", EinsteinSum="ESUM",
              HamacherSum="HSUM", NilpotentMaximum="NMAX", UnboundedSum="UnboundedSum", none="NONE")
    DF = dict(Centroid="COG", Bisector="COA", SmallestOfMaximum="LM", LargestOfMaximum="RM", MeanOfMaximum="MM", WeightedAverage="COGS",
              WeightedSum="COGSS", none="NONE")

    def __init__(self, rng, e):
        self.rng, self.e = rng, e

    def n(self, x):
        if isinstance(x, str): return x
        return self.rng.choice(["%.3f", "%.3f", "%g", "%.5f", "%+.3f"]) % float(x)

    def of(self, table, k):
        return table[k] if k == "none" or self.rng.random() < .8 else k

    def end(self, s):
        rng = self.rng
        s += rng.choice([";", ";", ";", "", " ;"])
        if rng.random() < .08: s += rng.choice([" // ", " # ", "#", "//", "# ", "\t//"]) + prose(rng)
        return rng.choice(["  ", "  ", "", "    "]) + s

    def colon(self, k, v):
        return self.end(k + self.rng.choice([" : ", " : ", " :", " :  "]) + v)

    def term(self, t):
        rng = self.rng
        a = rng.choice([" := ", " := ", " :=", ":= ", " :=  "])
        if t["k"] == "Function": p = "Function " + t["text"]
        elif t["k"] == "Constant" and rng.random() < .8: p = self.n(t["p"][0])
        elif t["k"] == "Discrete" and rng.random() < .8:
            xs = [self.n(x) for x in t["p"]]
            p = rng.choice([" ", "", ", "]).join("(%s%s%s)" % (xs[i], rng.choice([", ", ",", " "]), xs[i + 1]) for i in range(0, len(xs), 2))
        else:
            xs = [self.n(x) for x in t["p"]]
            if t["k"] not in ("Constant", "Linear") and (t["h"] != 1 or rng.random() < .1): xs.append(self.n(t["h"]))
            p = t["k"] + " " + rng.choice([" ", "  "] if rng.random() < .9 else [", "]).join(xs)
        if a == " :=" and p.startswith("Function"): a = " := "
        return self.end("TERM " + t["name"] + a + p)

    def var(self, kind, v):
        rng = self.rng
        kv = [self.end("RANGE%s:=%s(%s%s..%s%s)" % (rng.choice([" ", "  "]), rng.choice([" ", ""]), self.n(v["lo"]), rng.choice([" ", ""]),
                                                   rng.choice([" ", ""]), self.n(v["hi"])))]
        if rng.random() < .4: kv.append(self.colon("ENABLED", rng.choice(["TRUE", "FALSE"])))
        if kind == "DEFUZZIFY":
            if rng.random() < .9: kv.append(self.colon("METHOD", self.of(self.DF, v["df"]["k"])))
            if rng.random() < .9: kv.append(self.colon("ACCU", self.of(self.SN, v["agg"])))
            if rng.random() < .8: kv.append(self.end("DEFAULT := " + self.n(v["def"]) + rng.choice(["", "", " | NC", "|NC"])))
            if rng.random() < .3: kv.append(self.colon("LOCK", rng.choice(["PREVIOUS", "RANGE", "PREVIOUS | RANGE", "RANGE|PREVIOUS"])))
        kv += [self.term(t) for t in v["terms"]]
        if rng.random() < .3: rng.shuffle(kv)
        return ["%s%s%s" % (kind, rng.choice([" ", "  "]), v["name"])] + kv + ["END_" + kind]

    def text(self):
        rng, e = self.rng, self.e
        L = [["FUNCTION_BLOCK " + prose(rng)]] if rng.random() < .9 else []
        for kind, vs in (("INPUT", e.ins), ("OUTPUT", e.outs)):
            cut = rng.randint(0, len(vs)) if rng.random() < .2 else len(vs)
            for part in (vs[:cut], vs[cut:]):
                if part or not vs:
                    L.append(["VAR_" + kind] + [self.end(v["name"] + rng.choice([": ", " : ", ":"]) + "REAL") for v in part] + ["END_VAR"])
        for v in e.ins: L.append(self.var("FUZZIFY", v))
        for v in e.outs: L.append(self.var("DEFUZZIFY", v))
        for b in e.blocks:
            kv = [self.colon("AND", self.of(self.TN, b["conj"])), self.colon("OR", self.of(self.SN, b["disj"])),
                  self.colon("ACT", self.of(self.TN, b["impl"]))]
            kv = [x for x in kv if rng.random() < .9]
            if rng.random() < .3: kv.append(self.colon("ENABLED", rng.choice(["TRUE", "FALSE"])))
            kv += [self.end("RULE" + rng.choice([" %d : " % (i + 1), " : ", " 7: ", " "]) + e.text(t)) for i, t in enumerate(b["rules"])]
            if rng.random() < .2: rng.shuffle(kv)
            L.append(["RULEBLOCK " + rng.choice(["", "", "the "]) + b["name"]] + kv + ["END_RULEBLOCK"])
        if rng.random() < .9: L.append(["END_FUNCTION_BLOCK"])
        R = []
        for x in L: R += x + [""] * rng.randint(0, 1)
        for _ in range(rng.randint(0, 3)):
            R.insert(rng.randint(0, len(R)), rng.choice(["", "  ", "// comment", "# comment", "% comment", ";"]))
        return R


def spoil_fcl(rng, L):
    L = list(L)
    c = [i for i, x in enumerate(L) if x.strip() and x.strip() != "RULE"]
    i = rng.choice(c)
    k = rng.randint(0, 10)
    x = L[i]
    if k == 0: del L[i]
    elif k == 1: L[i] = x.replace(":", " ", 1)
    elif k == 2: L[i] = rng.choice(["x", "END_", "V"]) + x.strip()
    elif k == 3: L[i] = x.replace("..", rng.choice([" ", ".", "..."]))
    elif k == 4: L[i] = x.replace("=", "", 1)
    elif k == 5: L[i] = x.replace("(", "").replace(")", "")
    elif k == 6:
        ws = x.split(" ")
        del ws[rng.randrange(len(ws))]
        L[i] = " ".join(ws)
        if L[i].strip().rstrip(";").strip() == "RULE": L[i] = x
    elif k == 7: L.insert(i, rng.choice(["junk", "METHOD : FOO", "ACCU : MIN", "AND : MAX", "RANGE := (0 1)", "TERM a := Foo 1 2", "TERM a := Triangle 0 1",
                                         "TERM a", "TERM a Triangle 0 1 2", "FUZZIFY in1", "DEFUZZIFY zzz", "END_FUZZIFY", "END_FUNCTION_BLOCK",
                                         "DEFAULT := x", "DEFAULT := 1 | XX", "LOCK : FOO", "LOCK : PREVIOUS | FOO", "ENABLED : true",
                                         "OR : MAX", "in7 : REAL", "in7", "RULE 1 : foo", "AND:MIN", "TERM b x y := 0.5", "FUNCTION_BLOCK again"]))
    elif k == 8:
        j = rng.choice(c)
        L[i], L[j] = L[j], L[i]
    elif k == 9: L[i] = x.replace(rng.choice("0123456789"), rng.choice(["x", "9", ".", "-"]), 1)
    elif k == 10: L[i] = x.lower()
    return L


def X04(ctx):
    """FCL round trip"""
    probe_hedges(ctx)
    r = []
    for k in range(ctx.n(110, 3000)):
        rng = ctx.rng("fcl", k)
        sc = Scenario("fcl%d" % k)
        og = OpGen(rng, sc, BASE)
        e = EngineGen(rng, **everything(rng, k))
        if k % 3 == 0: fine(e, rng)
        og.make(1, e)
        sc.line("meta", 1, rng.choice(["engine", "tip of  the fan", "a b=c", "", "x-1"]), prose(rng))
        for i in range(len(e.blocks)):
            if rng.random() < .3: sc.line("desc", 1, "block", i + 1, prose(rng))
        if rng.random() < .9: og.load(1)
        d = rng.choice([2, 3, 3, 4, 6])
        src = sc.export("fcl", 1, d, rng.choice(["  ", "  ", "", "\t"]))
        sc.importer("fcl", 2, src, d)
        if k % 3 and all(v["df"]["k"] not in INTEGRAL for v in e.outs): both(og, rng, sc, (1, 2), e)
        s2 = sc.export("fcl", 2, 3)
        sc.importer("fcl", 3, s2, 3)
        r.append(sc)
    ctx.conform("EngineTrace", ["dump", "text", "import", "roundtrip", "iso"], r, "writing and reading FCL")
    r = []
    for k in range(ctx.n(100, 3000)):
        rng = ctx.rng("fclread", k)
        o = everything(rng, k)
        o.update(nin=(1, 2), nout=(1, 2), nrules=(1, 3), nblocks=(1, 2))
        sc = Scenario("readfcl%d" % k)
        L = FclText(rng, EngineGen(rng, **o)).text()
        if k % 3:
            for t in range(1, 4): sc.importer("fcl", t, "\n".join(spoil_fcl(rng, L)))
        else:
            sc.importer("fcl", 1, "\n".join(L))
            sc.needed.add(len(sc.steps) - 1)
            sc.export("fcl", 1)
        r.append(sc)
    ctx.conform("EngineTrace", ["import", "text", "dump", "iso"], r, "reading FCL")


def X01(ctx):
    """FLL round trip"""
    probe_hedges(ctx)
    ctx.conform("EngineTrace", ["dump", "text", "import", "roundtrip", "iso"],
                roundtrip(ctx, "fll", "fll", ctx.n(130, 2500), everything), "writing and reading FLL")


# ---------------------------------------------------------------- texts of all sorts
class Plain(object):
    """FLL text of a generated engine, made here (not by the exporter), with variations"""
    def __init__(self, rng, e):
        self.rng, self.e = rng, e

    def n(self, x):
        if isinstance(x, str): return x
        v = float(x)
        return self.rng.choice(["%.3f", "%.3f", "%g", "%.5f", "%.4e", "%+.3f"]) % v

    def b(self, f):
        return "true" if f else "false"

    def term(self, t):
        if t["k"] == "Function": p = [t["text"]]
        else:
            p = [self.n(x) for x in t["p"]]
            if t["k"] not in ("Constant", "Linear") and (t["h"] != 1 or self.rng.random() < .1): p.append(self.n(t["h"]))
        return "term", " ".join([t["name"], t["k"]] + p)

    def blocks(self):
        e, rng = self.e, self.rng
        r = []
        for v in e.ins:
            kv = [("enabled", self.b(v["en"])), ("range", self.n(v["lo"]) + " " + self.n(v["hi"])), ("lock-range", self.b(v["lock"]))]
            r.append([("InputVariable", v["name"])] + self.mix(kv, [self.term(t) for t in v["terms"]]))
        for v in e.outs:
            kv = [("enabled", self.b(v["en"])), ("range", self.n(v["lo"]) + " " + self.n(v["hi"])), ("lock-range", self.b(v["lock"])),
                  (rng.choice(["aggregation"] * 3 + ["accumulation"]), v["agg"]), ("defuzzifier", dfspec(v["df"])),
                  ("default", self.n(v["def"])), (rng.choice(["lock-previous", "lock-previous", "lock-valid"]), self.b(v["lockp"]))]
            r.append([("OutputVariable", v["name"])] + self.mix(kv, [self.term(t) for t in v["terms"]]))
        for b in e.blocks:
            a = dict(b["act"])
            k = a["k"]
            at = k
            if k in ("First", "Last"): at = "%s %d %s" % (k, a["n"], self.n(a["th"]))
            elif k in ("Highest", "Lowest"): at = "%s %d" % (k, a["n"])
            elif k == "Threshold": at = "%s %s %s" % (k, a["cmp"], self.n(a["th"]))
            kv = [("enabled", self.b(b["en"])), ("conjunction", b["conj"]), ("disjunction", b["disj"]),
                  ("implication", b["impl"]), ("activation", at)]
            if rng.random() < .1: kv[3:5] = [("activation", b["impl"])] if b["impl"] != "none" else kv[3:5]
            r.append([("RuleBlock", b["name"])] + self.mix(kv, [("rule", e.text(t)) for t in b["rules"]]))
        return r

    def mix(self, kv, rest):
        rng = self.rng
        kv = [x for x in kv if rng.random() < .93]
        if rng.random() < .3: kv.append(("description", prose(rng)))
        if rng.random() < .4: rng.shuffle(kv)
        if rng.random() < .2:
            for x in kv[:2]:
                kv.remove(x)
                rest = rest + [x]
        if kv and rng.random() < .1: kv.append(rng.choice(kv))
        return kv + rest

    def line(self, k, v):
        rng = self.rng
        s = k + rng.choice(["", "", " "]) + ":" + rng.choice([" ", " ", "", "  ", "\t"]) + v
        s = rng.choice(["", "  ", "  ", "\t", "      "]) + s + rng.choice(["", "", "", " ", "\t"])
        if rng.random() < .08: s += rng.choice([" # ", "# ", " #", "#", "  #  ", "\t# "]) + prose(rng)
        return s

    def text(self):
        rng = self.rng
        L = []
        if rng.random() < .9: L.append(self.line("Engine", prose(rng)))
        if rng.random() < .3: L.append(self.line("description", prose(rng)))
        bs = self.blocks()
        if rng.random() < .15: rng.shuffle(bs)
        for b in bs:
            for k, v in b: L.append(self.line(k, v))
            if rng.random() < .05: L.append(self.line("Engine", prose(rng)))
        for _ in range(rng.randint(0, 4)):
            L.insert(rng.randint(0, len(L)), rng.choice(["", "   ", "# " + prose(rng), "\t# x: y"]))
        return L


def spoil(rng, L):
    """breaks a text somewhere (or does nothing that matters)"""
    L = list(L)
    c = [i for i, x in enumerate(L) if ":" in x.split("#")[0]]
    i = rng.choice(c)
    key, val = L[i].split("#")[0].split(":", 1)
    ws = val.split()
    k = rng.randint(0, 11)
    if k == 0: L[i] = L[i].replace(":", " ")
    elif k == 1: L[i] = key + rng.choice(["x", " y", "s"]) + ":" + val
    elif k == 2: L[i] = key.capitalize() + ":" + val
    elif k == 3 and ws: L[i] = key + ": " + " ".join(ws[:-1])
    elif k == 4 and ws:
        j = rng.randrange(len(ws))
        ws[j] = rng.choice(["zzz", "1.2.3", "tru", "True", "0x", "1,5", "-", "none", ""])
        L[i] = key + ": " + " ".join(ws)
    elif k == 5: del L[i]
    elif k == 6: L.insert(i, rng.choice(["conjunction: Foo", "term: a", "term: b Foo 1 2", "range: 1", "range: a b", "rule:",
                                         "enabled: 1", "defuzzifier: Foo", "activation: Foo", "activation: First 1", "activation:",
                                         "activation: Threshold ~ 1", "aggregation: Minimum", "term: c Triangle 1 2", "term: c Triangle",
                                         "term: d Discrete 0 1 1", "term: e Linear", "term: f Constant", "term: f Function (", "term:",
                                         "defuzzifier:", "defuzzifier: Centroid x", "defuzzifier: WeightedSum Foo", "conjunction:",
                                         "default: x", "default: inf", "lock-range: no", "junk", ":", ": x", "a:b:c"]))
    elif k == 7: L[i] = key + ": " + val + " " + rng.choice(["1", "x", "#x", ": y"])
    elif k == 8:
        j = rng.choice(c)
        L[i], L[j] = L[j], L[i]
    elif k == 9: L.insert(0, L[i])
    elif k == 10: L[i] = "# " + L[i]
    elif k == 11 and ws: L[i] = key + ": " + "  ".join(ws)
    return L


def X02(ctx):
    """reading FLL of all sorts"""
    probe_hedges(ctx)
    r = []
    for k in range(ctx.n(260, 4000)):
        rng = ctx.rng("read", k)
        o = everything(rng, k)
        o.update(nin=(1, 2), nout=(1, 2), nrules=(1, 3), nblocks=(1, 2))
        sc = Scenario("read%d" % k)
        og = OpGen(rng, sc, BASE)
        e = EngineGen(rng, **o)
        L = Plain(rng, e).text()
        if k % 2:
            for t in range(1, 4): sc.importer("fll", t, "\n".join(spoil(rng, L)))
        else:
            sc.importer("fll", 1, "\n".join(L))
            sc.needed.add(len(sc.steps) - 1)
            og.eng[1], og.nrules[1] = e, [len(b["rules"]) for b in e.blocks]
            sc.export("fll", 1)
        r.append(sc)
    ctx.conform("EngineTrace", ["import", "text", "dump", "iso"], r, "reading FLL")


PROPS = {k: v for k, v in globals().items() if k[0] == "X" and k[1:].isdigit()}
