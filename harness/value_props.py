"""Checks of the properties about variables, fuzzy values, and collections (specification: Values.tla, Collections.tla)."""
import fv, gen
from gen import *
from parts_props import Parts, ns, ps, NOENV

NAMES = ["lo", "mid", "hi", "very.high", "t_1", "x", "a b", "", "one/two", "lo"]


def termlist(rng, lo, hi, n, bad=.1, kinds=DY, dup=.1, consts=.15):
    """terms of a variable: (model, driver fields, bad flags)"""
    ts, fields, flags = [], [n], []
    pool = rng.sample(NAMES[:6], min(n, 6)) + [rng.choice(NAMES) for _ in range(n)]
    for i in range(n):
        name = pool[i]
        if i and rng.random() < dup: name = ts[rng.randrange(i)]["name"]
        if rng.random() < .08: name = rng.choice(NAMES)
        c = rng.random()
        h = F(1) if rng.random() < .6 else F(rng.choice([1, 2, 3, 4, 6]), 4)
        b = False
        text = ""
        if c < bad:
            b, h = True, F(1)
            k, p = rng.choice([("Linear", [q(rng, -1, 1, 4) for _ in range(rng.randint(1, 3))]), ("Function", [])])
            if k == "Function": text = "x"
        elif c < bad + consts:
            k, p, h = "Constant", [q(rng, lo - 1, hi, 8)], F(1)
        else:
            k = rng.choice(kinds)
            p = term_params(rng, k, lo, hi)
        ts.append({"name": name, "k": k, "p": ps(p), "h": pair(h), "f": [], "text": text})
        fields += [name, k, num(h), len(p)] + [num(x) for x in p]
        flags.append(b)
    return ts, fields, flags


def degree(rng, wild):
    c = rng.random()
    if c < .15: return F(rng.choice([0, 1]))
    if wild and c < .22: return "nan"
    if wild and c < .3: return F(rng.randint(-8, 20), 8)
    if c < .36: return F(rng.choice([1, 2, 3, 5]), 4096)
    return q(rng, 0, 1, rng.choice([4, 8, 16]))


def V01(ctx):
    """fuzzy values"""
    scs = []
    for c in range(ctx.n(60, 600)):
        rng = ctx.rng("fuzz", c)
        sc = Parts("fuzz%d" % c)
        for _ in range(ctx.n(6, 8)):
            lo, hi = rng.choice([(F(0), F(1)), (F(0), F(4)), (F(-1), F(1)), (F(10), F(14))])
            n = rng.choice([0, 1, 2, 3, 3, 4, 5, 6])
            ts, fields, flags = termlist(rng, lo, hi, n, bad=rng.choice([0, .1, .3]))
            for _ in range(3):
                x = q(rng, lo - 1, hi + 1, rng.choice([4, 8, 16]))
                fin = [F(a[0], a[1]) for t in ts if t["k"] not in ("Linear", "Constant", "Function") for a in t["p"] if a[1]]
                if fin and rng.random() < .4: x = rng.choice(fin)
                r = rng.random()
                if r < .06: x = "nan"
                elif r < .1 and all(t["k"] != "Discrete" for t in ts): x = rng.choice(["inf", "-inf"])
                d = rng.choice([0, 1, 2, 3, 3, 4, 6])
                sc.ask({"op": "fuzz", "names": [t["name"] for t in ts], "terms": ts, "bad": flags, "x": pair(x), "env": NOENV, "d": d},
                       "fuzz", d, num(x), *fields, acts="acts", text=("text", ""), itext=("itext", ""), max="max", hi=("hi", -1),
                       hi2=("hi2", -1), hd=("hd", [0, 0]))
        scs.append(sc)
    for c in range(ctx.n(40, 400)):
        rng = ctx.rng("sort", c)
        sc = Parts("sort%d" % c)
        for _ in range(4):
            lo, hi = rng.choice([(F(0), F(1)), (F(0), F(4)), (F(-1), F(1)), (F(10), F(14))])
            n = rng.choice([1, 2, 3, 4, 5])
            ts, fields, flags = termlist(rng, lo, hi, n, bad=rng.choice([0, 0, .2]), consts=rng.choice([0, .3]))
            r = rng.choice([8, 16, 20])
            sc.ask({"op": "sortterms", "names": [t["name"] for t in ts], "terms": ts, "bad": flags, "env": NOENV, "lo": pair(lo),
                    "hi": pair(hi), "r": r}, "sortterms", r, num(lo), num(hi), *fields, order="order")
        scs.append(sc)
    for c in range(ctx.n(60, 600)):
        rng = ctx.rng("aggr", c)
        sc = Parts("aggr%d" % c)
        for _ in range(8):
            lo, hi = rng.choice([(F(0), F(1)), (F(0), F(4)), (F(-1), F(1)), ("-inf", "inf")])
            n = rng.choice([1, 2, 3, 4])
            ts, fields, flags = termlist(rng, F(0), F(1), n, bad=.1)
            wild = rng.random() < .3
            agg = rng.choice(["none", "none", "Maximum", "UnboundedSum", "BoundedSum", "AlgebraicSum"] if wild else ["none"] + SN)
            m = rng.choice([0, 1, 2, 3, 4, 5, 6])
            fz, ef = [], [m]
            for _ in range(m):
                e = {"t": rng.randint(1, n), "d": degree(rng, wild), "impl": rng.choice(["none"] + TN)}
                if fz and rng.random() < .25: e["d"] = rng.choice(fz)["d0"]
                e["d0"] = e["d"]
                fz.append(e)
                ef += [e["t"], num(e["d"]), e["impl"]]
            fz = [{"t": e["t"], "d": pair(e["d0"]), "impl": e["impl"]} for e in fz]
            d = rng.choice([0, 1, 2, 3, 3, 4, 6])
            rm = rng.randrange(m) if m else 0
            name = rng.choice(["out", "x", "fuzzy out", ""])
            # (text of accumulated degrees: only where floating point is exact)
            exact = agg in ("none", "Maximum", "UnboundedSum", "BoundedSum", "NilpotentMaximum", "DrasticSum")
            sc.ask({"op": "aggr", "names": [t["name"] for t in ts], "terms": ts, "fz": fz, "agg": agg, "name": name, "d": d, "rm": rm,
                    "lo": pair(lo), "hi": pair(hi), "exact": exact},
                   "aggr", d, name, num(lo), num(hi), agg, rm, *(fields + ef), entries="entries", text=("text", ""), otext=("otext", ""),
                   str=("str", ""), params=("params", ""), degs="degs", max="max", top=("top", -1), topd=("topd", [0, 0]),
                   groups="groups", groups2="groups2", gagg=("gagg", ""), gname=("gname", ""), glo=("glo", [0, 0]), ghi=("ghi", [0, 0]),
                   n=("n", -1), empty=("empty", False), first=("first", ""), fpar=("fpar", ""), gone="gone", rest="rest",
                   after="after", cleared=("cleared", True))
        scs.append(sc)
    ctx.conform("PartsTrace", ["fuzzify", "fuzzytext", "highest", "sort", "aggregate", "entries", "outtext", "string", "degree",
                               "groups", "remove"], scs, "fuzzy values")


KINDS = ["inputVariables", "outputVariables", "ruleBlocks", "terms", "rules"]


class CollScen(Parts):
    """a history of actions on collections; what was seen before an action is what the last one left"""
    def __init__(self, sid):
        Parts.__init__(self, sid)
        self.line("collnew")
        self.nid = 1
        self.size = {k: 0 for k in KINDS}

    def act(self, kind, do, name="", i=0, names=("a", "b", "c")):
        o = {"do": do, "name": name, "i": i, "id": self.nid, "names": name.split()}
        made = len(o["names"]) if do == "assign" else 1 if do in ("add", "insert", "set") else 0
        self.nid += made
        n = self.size[kind]
        args = {"add": [name], "insert": [name, i], "set": [name, i], "removeat": [i], "removename": [name], "rename": [i, name],
                "assign": [name], "look": []}[do]
        self.ask({"op": "coll", "kind": kind, "o": o}, "coll", kind, " ".join(names), do, *args, raised="raised", ans="ans", seq="seq",
                 count="count", at="at", beyond="beyond", found="found", vars="vars")

    def trace(self, ans):
        t = Parts.trace(self, ans)
        last = {k: [] for k in KINDS}
        for s in t["steps"]:
            if s["op"] == "coll":
                s["before"] = last[s["kind"]]
                if not s["e"]: last[s["kind"]] = s["seq"]
            elif s["op"] in ("collset", "collget"):
                s["before"] = last["inputVariables" if s["op"] == "collset" else "outputVariables"]
        return t


def C01(ctx):
    """collections"""
    import re
    r = ctx.mc("CollGraph", label="collections: state graph", workers=1)
    out = re.sub(r"\s*\n\s*", " ", r.out)
    hists = []
    for m in re.finditer(r'<<\s*"H",\s*<<((?:\s*<<[^>]*>>,?)*)\s*>>\s*>>', out):
        hists.append(tuple((a, b, int(c)) for a, b, c in re.findall(r'<<\s*"([^"]*)",\s*"([^"]*)",\s*(\d+)\s*>>', m.group(1))))
    hists = sorted(set(hists))
    if len(hists) < 100: raise fv.MachineryError("collections: no state graph")
    scs = []
    for kind in KINDS:
        sc = None
        for n, h in enumerate(hists):
            acts = [a for a in h if not (a[0] == "set" and kind in ("terms", "rules"))]
            if len(acts) < len(h) or kind in ("terms", "rules") and any(a[0] == "removename" for a in h): continue
            if sc is None or len(sc.steps) > 60:
                sc = CollScen("%s%d" % (kind, n))
                scs.append(sc)
            # (from the empty collection again)
            if sc.steps: sc.act(kind, "assign", "")
            for do, name, i in h: sc.act(kind, do, name, i)
    ctx.conform("PartsTrace", ["answer", "collection", "lookup", "value"], scs, "collections: every transition of the state graph")
    scs = []
    for c in range(ctx.n(60, 800)):
        rng = ctx.rng("coll", c)
        sc = CollScen("long%d" % c)
        size = {k: 0 for k in KINDS}
        names = ["a", "b", "c", "A", "long.name", "aa"][:rng.choice([2, 3, 6])]
        kinds = KINDS if rng.random() < .5 else [rng.choice(KINDS)]
        for _ in range(ctx.n(25, 40)):
            k = rng.choice(kinds)
            do = rng.choice(["add", "add", "insert", "insert", "set", "removeat", "removename", "rename", "assign" if rng.random() < .3 else "add"])
            if do == "set" and k in ("terms", "rules") or do == "removename" and k in ("terms", "rules"): do = "removeat"
            n = size[k]
            i = rng.randint(0, n) if do == "insert" else rng.randint(0, max(0, n - 1)) if rng.random() < .9 else n + rng.randint(0, 2)
            name = rng.choice(names)
            if do == "assign": name = " ".join(rng.choice(names) for _ in range(rng.randint(0, 4)))
            sc.act(k, do, name, i, names)
            # (only a guess at how many there are: removals by name may miss)
            size[k] = n + 1 if do in ("add", "insert") else max(0, n - 1) if do == "removeat" and i < n else \
                max(0, n - 1) if do == "removename" else len(name.split()) if do == "assign" else n
            if rng.random() < .15:
                nm = rng.choice(names + ["zz"])
                if rng.random() < .5:
                    v = q(rng, -2, 2, 4)
                    sc.ask({"op": "collset", "name": nm, "v": pair(v)}, "collset", nm, num(v), raised=("raised", True), vals="vals")
                else:
                    sc.ask({"op": "collget", "name": nm}, "collget", nm, raised=("raised", True), val=("val", [0, 0]))
        scs.append(sc)
    ctx.conform("PartsTrace", ["answer", "collection", "lookup", "value"], scs, "collections: long histories")


KEYS = {"tnorm": TN, "snorm": SN, "activation": ["First", "General", "Highest", "Last", "Lowest", "Proportional", "Threshold"],
        "defuzzifier": INTEGRAL + WEIGHTED, "term": DY + CURVED + ["Constant", "Linear", "Function"], "hedge": HEDGES}
FUNS = ["!", "~", "^", "*", "/", "%", "+", "-", "and", "or", "abs", "acos", "asin", "atan", "ceil", "cos", "cosh", "exp", "fabs", "floor",
        "log", "log10", "round", "sin", "sinh", "sqrt", "tan", "tanh", "acosh", "asinh", "atanh", "log1p", "atan2", "eq", "fmod", "ge",
        "gt", "le", "lt", "max", "min", "neq", "pow"]


SWAP = """Engine: e
InputVariable: a
  range: 0 1
  term: t %s 0 0.5 1
OutputVariable: y
  range: 0 1
  defuzzifier: %s
  term: t Constant 1
RuleBlock:
  conjunction: %s
  disjunction: %s
  activation: %s
  rule: if a is %s t then y is t
"""


def C02(ctx):
    """factories"""
    scs = []
    for c in range(ctx.n(40, 400)):
        rng = ctx.rng("fact", c)
        sc = Parts("fact%d" % c)
        sc.line("factnew")
        for k in sorted(KEYS):
            if c == 0:
                for x in KEYS[k] + ["", "Nothing", KEYS[k][0].lower() + "_", KEYS[k][0].upper() + "X"]:
                    sc.ask({"op": "fact", "k": k, "do": "make", "key": x, "hist": []}, "fact", k, "make", x, "", has="has", ctor="ctor",
                           av="av", made=("made", ""))
        ks = rng.sample(sorted(KEYS), 2)
        hist = {k: [] for k in KEYS}
        for _ in range(ctx.n(12, 16)):
            k = rng.choice(ks)
            pool = KEYS[k] + ["", "My", "Other", "any_2"]
            do = rng.choice(["make", "make", "put", "put", "drop", "clone", "look"])
            key, frm = rng.choice(pool), rng.choice(pool)
            if hist[k] and rng.random() < .4: key = rng.choice(hist[k])["key"]
            if do in ("put", "drop", "clone"): hist[k] = hist[k] + [{"do": do, "key": key, "from": frm}]
            sc.ask({"op": "fact", "k": k, "do": do, "key": key, "hist": hist[k]}, "fact", k, do, key, frm, has="has", ctor="ctor",
                   av="av", made=("made", ""))
        h = []
        for _ in range(ctx.n(12, 16)):
            pool = FUNS + ["myfun", "other"]
            do = rng.choice(["make", "make", "make", "put", "put", "drop", "clone", "assign"])
            key, frm = rng.choice(pool), rng.choice(pool)
            if h and rng.random() < .4: key = rng.choice(h)["key"]
            if key == frm: frm = "abs" if key != "abs" else "min"
            if do != "make": h = h + [{"do": do, "key": key, "from": frm}]
            sc.ask({"op": "func", "do": do, "key": key, "hist": h}, "func", do, key, frm, has="has", av="av", ops="ops", funs="funs",
                   made=("made", ""), arity=("arity", -2), isop=("isop", False), own=("own", False))
        for _ in range(4):
            key = rng.choice(KEYS["defuzzifier"] + ["", "Nothing"])
            n, ty, mode = rng.choice([1, 7, 100, 1000]), rng.choice(["Automatic", "TakagiSugeno", "Tsukamoto"]), rng.randint(0, 2)
            sc.ask({"op": "defuzzmake", "key": key, "n": n, "ty": ty, "mode": mode}, "defuzzmake", key, n, ty, mode, made=("made", ""),
                   res=("res", -1), type=("type", "?"))
        for _ in range(3):
            k = rng.choice(sorted(KEYS))
            # (after "any" there is no term)
            pool = ["Triangle", "Ramp", "Rectangle", "Gaussian", "SShape", "Bell"] if k == "term" else [x for x in KEYS[k] if x != "any"]
            do, key, frm = rng.choice(["drop", "put"]), rng.choice(pool + ["my"]), rng.choice(pool)
            use = key if rng.random() < .7 else rng.choice(pool + ["my"])
            text = SWAP % tuple(use if k == x else d for x, d in (("term", "Triangle"), ("defuzzifier", "Centroid"), ("tnorm", "Minimum"),
                                                                  ("snorm", "Maximum"), ("activation", "General"), ("hedge", "very")))
            sc.ask({"op": "factswap", "k": k, "do": do, "key": key, "from": frm, "use": use}, "factswap", k, do, key, frm, text,
                   during=("during", "?"), after=("after", "?"))
        k = rng.choice(sorted(KEYS) + ["function"])
        sc.ask({"op": "factmanager", "k": k}, "factmanager", k, rng.randint(0, 1), av="av")
        scs.append(sc)
    if True:
        sc = Parts("functions")
        sc.line("factnew")
        for x in FUNS + ["", "nothing"]:
            sc.ask({"op": "func", "do": "make", "key": x, "hist": []}, "func", "make", x, "", has="has", av="av", ops="ops", funs="funs",
                   made=("made", ""), arity=("arity", -2), isop=("isop", False), own=("own", False))
        scs.append(sc)
    ctx.conform("PartsTrace", ["factory", "construct"], scs, "factories")


PROPS = {f.__name__: f for f in (V01, C01, C02)}
