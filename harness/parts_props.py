"""Checks of the properties about the parts of an engine (specification: Parts.tla)."""
import math
import fv, gen
from gen import *

ALLTERMS = DY + CURVED


def ns(xs): return " ".join(num(x) for x in xs)
def ps(xs): return [pair(x) for x in xs]


class Parts(object):
    """independent questions to the parts of the library"""
    def __init__(self, sid):
        self.id, self.lines, self.steps = sid, [], []

    def line(self, *a):
        self.lines.append(cmd(*a))
        return len(self.lines) - 1

    def ask(self, model, *a, **keys):
        """one driver line; keys: field of the model <- field of the answer"""
        self.steps.append((model, self.line(*a), keys))

    def trace(self, ans):
        st = []
        for m, k, keys in self.steps:
            d = dict(m)
            d["e"] = bool(ans[k]["e"])
            for f, g in keys.items():
                x = ans[k]
                if isinstance(g, tuple): d[f] = x.get(g[0], g[1])
                else: d[f] = x.get(g, [])
            st.append(d)
        return {"id": self.id, "steps": st}


def degrees(rng, n, den=(8, 16, 10, 7)):
    return [F(rng.choice([0, 1])) if rng.random() < .15 else q(rng, 0, 1, rng.choice(den)) for _ in range(n)]


NORMF = [["a", "*", "b"], ["min", "(", "a", ",", "b", ")"], ["max", "(", "0", ",", "(", "a", "+", "b", "-", "1", ")", ")"],
         ["a", "+", "b", "-", "a", "*", "b"], ["max", "(", "a", ",", "b", ")"], ["(", "a", "+", "b", ")", "/", "2"],
         ["a", "^", "2", "*", "b"], ["a", "-", "b"]]
HEDGEF = [["x", "^", "2"], ["1", "-", "x"], ["2", "*", "x", "/", "(", "1", "+", "x", ")"], ["min", "(", "1", ",", "2", "*", "x", ")"],
          ["x", "^", "3", "+", "x", "/", "4"]]
FLITS = {"0": F(0), "1": F(1), "2": F(2), "3": F(3), "4": F(4)}


def N01(ctx):
    """norms"""
    ctx.mc("NormLaws", label="laws of the norms on a grid")
    scs = []
    g = ctx.n(8, 16)
    grid = [F(i, g) for i in range(g + 1)]
    for op, names in (("tnorm", TN), ("snorm", SN)):
        for k in names:
            sc = Parts("%s-%s" % (op, k))
            for x in grid:
                a, b = [x] * len(grid), grid
                sc.ask({"op": op, "k": k, "a": ps(a), "b": ps(b)}, op, k, ns(a), ns(b), v="v")
            rng = ctx.rng(op, k)
            for _ in range(ctx.n(12, 200)):
                a, b = degrees(rng, 20), degrees(rng, 20)
                for i in range(20):
                    c = rng.random()
                    if c < .1: b[i] = 1 - a[i]
                    elif c < .15: b[i] = a[i]
                if rng.random() < .1: a[0] = "nan"
                if rng.random() < .1: b[1] = "nan"
                sc.ask({"op": op, "k": k, "a": ps(a), "b": ps(b)}, op, k, ns(a), ns(b), v="v")
            scs.append(sc)
    for op in ("tnormf", "snormf"):
        sc = Parts(op)
        rng = ctx.rng(op)
        for t in NORMF:
            a, b = degrees(rng, 30, (8, 4, 16)), degrees(rng, 30, (8, 4, 16))
            sc.ask({"op": op, "toks": t, "lits": {k: pair(v) for k, v in FLITS.items()}, "a": ps(a), "b": ps(b)}, op, " ".join(t), ns(a), ns(b), v="v")
        scs.append(sc)
    ctx.conform("PartsTrace", ["norm"], scs, "norms")


def N02(ctx):
    """hedges"""
    ctx.mc("HedgeLaws", label="laws of the hedges on a grid")
    scs = []
    for k in HEDGES:
        sc = Parts("hedge-" + k)
        rng = ctx.rng(k)
        for _ in range(ctx.n(20, 300)):
            a = degrees(rng, 20)
            if rng.random() < .2 and k not in ("somewhat", "seldom"): a[0] = "nan"
            if rng.random() < .3: a[1] = F(1, 2)
            sc.ask({"op": "hedge", "k": k, "a": ps(a)}, "hedge", k, ns(a), v="v")
        scs.append(sc)
    sc = Parts("hedgef")
    for t in HEDGEF:
        rng = ctx.rng("hf", *t)
        a = degrees(rng, 30, (8, 4, 16))
        sc.ask({"op": "hedgef", "toks": t, "lits": {k: pair(v) for k, v in FLITS.items()}, "a": ps(a)}, "hedgef", " ".join(t), ns(a), v="v")
    scs.append(sc)
    ctx.conform("PartsTrace", ["hedge"], scs, "hedges")


def aterm(rng, k=None, fine=False):
    k = k or rng.choice(ALLTERMS)
    lo, hi = rng.choice([(F(0), F(1)), (F(0), F(4)), (F(-1), F(1)), (F(-4), F(2)), (F(10), F(14))])
    p = term_params(rng, k, lo, hi)
    if fine and k in ("Triangle", "Trapezoid", "Rectangle", "Ramp", "Discrete", "Constant", "Linear", "Gaussian"):
        p = [x if isinstance(x, str) else x + F(rng.randint(0, 63), 64) / 4 if k != "Discrete" else x for x in p]
        if k in ("Triangle", "Trapezoid", "Rectangle"): p = sorted(p, key=lambda x: {"-inf": -99, "inf": 99}.get(x, x))
    return k, p, lo, hi


def js(k, p, h): return {"name": "t", "k": k, "p": ps(p), "h": pair(h), "f": [], "text": ""}


NOENV = {"ins": [], "vars": {"none": [0, 0]}, "lits": {"none": [0, 0]}}


def points(rng, k, p, lo, hi, n):
    xs = [q(rng, lo - 1, hi + 1, rng.choice([4, 8, 16])) for _ in range(n)]
    fin = [x for x in p if not isinstance(x, str)]
    if k == "Discrete": fin = p[0::2]
    for i in range(n):
        if rng.random() < .3 and fin: xs[i] = rng.choice(fin)
        elif rng.random() < .1 and len(fin) > 1: xs[i] = (fin[0] + fin[1]) / 2
    xs[0] = "nan"
    if k not in ("SigmoidProduct", "SigmoidDifference", "Bell", "Concave", "Discrete", "GaussianProduct", "Cosine", "Spike"):
        xs[1] = rng.choice(["inf", "-inf"])
    return xs


def T01(ctx):
    """membership functions"""
    scs = []
    for k in ALLTERMS + ["Constant"]:
        for c in range(ctx.n(5, 60)):
            sc = Parts("%s%d" % (k, c))
            rng = ctx.rng("mem", k, c)
            for _ in range(4):
                if k == "Constant": p, lo, hi = [q(rng, -2, 2, 8)], F(-1), F(1)
                else: _, p, lo, hi = aterm(rng, k)
                h = F(1) if rng.random() < .4 or k == "Constant" else F(rng.choice([1, 2, 3, 5, 8]), 4)
                xs = points(rng, k, p, lo, hi, 24)
                sc.ask({"op": "member", "t": js(k, p, h), "xs": ps(xs), "env": NOENV, "tol": 600 if k in CURVED else 150}, "member", 0,
                       ns(xs), k, num(h), *[num(x) for x in p], v="v")
                if k != "Constant" and c % 2 == 0:
                    n, b = rng.choice([1, 2, 4, 8]), rng.random() < .5
                    sc.ask({"op": "sample", "t": js(k, p, h), "lo": pair(lo), "hi": pair(hi), "n": n, "bounded": b, "env": NOENV},
                           "sample", 0, num(lo), num(hi), n, int(b), k, num(h), *[num(x) for x in p], x="x", y="y")
            scs.append(sc)
    # terms that look at the engine
    for c in range(ctx.n(20, 200)):
        rng = ctx.rng("env", c)
        sc = Parts("env%d" % c)
        n = rng.randint(1, 3)
        vals = [q(rng, -2, 2, 8) for _ in range(n)]
        sc.line("new", 1, "e")
        for i in range(n):
            sc.line("iv", 1, "v%d" % i, 1, 0, "-5", "5")
            sc.line("in", 1, i + 1, num(vals[i]))
        env = {"ins": ps(vals), "vars": {"v%d" % i: pair(v) for i, v in enumerate(vals)}, "lits": {k: pair(v) for k, v in FLITS.items()}}
        for _ in range(3):
            p = [q(rng, -1, 1, 4) for _ in range(rng.choice([n, n + 1, n - 1, n + 2]))]
            xs = [q(rng, -2, 2, 8) for _ in range(4)]
            sc.ask({"op": "member", "t": js("Linear", p, F(1)), "xs": ps(xs), "env": env, "tol": 150}, "member", 1, ns(xs), "Linear", 1,
                   *[num(x) for x in p], v="v")
        f = rng.choice([["x", "*", "v0"], ["v0", "+", "2", "*", "x"], ["max", "(", "x", ",", "v0", ")"], ["v%d" % (n - 1), "-", "x", "^", "2"],
                        ["v0", "*", "v%d" % (n - 1), "+", "1"]])
        t = js("Function", [], F(1))
        t["f"] = f
        sc.ask({"op": "member", "t": t, "xs": ps(xs), "env": env, "tol": 150}, "member", 1, ns(xs), "Function", 1, " ".join(f), v="v")
        scs.append(sc)
    sc = Parts("directions")
    rng = ctx.rng("directions")
    for k in ("Ramp", "Sigmoid", "Binary", "Triangle"):
        for c in range(ctx.n(12, 60)):
            p = [q(rng, -2, 2, 4), q(rng, -2, 2, 4)] if k != "Triangle" else [F(0), F(1), F(2)]
            x = rng.random()
            if k != "Triangle":
                if x < .15: p[1] = p[0]
                elif x < .25: p[1] = F(0)
                elif x < .5: p[rng.randrange(2)] = rng.choice(["inf", "-inf"])
            sc.ask({"op": "direction", "t": js(k, p, F(1))}, "direction", k, 1, *[num(v) for v in p], d="d")
    scs.append(sc)
    ctx.conform("PartsTrace", ["member", "sample"], scs, "membership")


def T02(ctx):
    """parameters of terms as text"""
    scs = []
    WORDSN = ["1", "0.5", "-0.250", "2", "+1.5", "1e1", "nan", "inf", "-inf", "3.000", ".75", "12.", "abc", "1,5", "0x", "--1", "1 2"]
    for k in ALLTERMS + ["Constant", "Linear"]:
        for c in range(ctx.n(3, 40)):
            sc = Parts("%s%d" % (k, c))
            rng = ctx.rng("par", k, c)
            for _ in range(6):
                if k == "Constant": p = [q(rng, -2, 2, 64)]
                elif k == "Linear": p = [q(rng, -2, 2, 64) for _ in range(rng.randint(0, 4))]
                else: _, p, lo, hi = aterm(rng, k, True)
                h = F(1) if rng.random() < .4 or k in ("Constant", "Linear") else F(rng.choice([1, 3, 17, 40, 32 * 3]), 32)
                d = rng.choice([1, 2, 3, 3, 4, 5])
                sc.ask({"op": "params", "t": js(k, p, h), "d": d}, "params", d, k, num(h), *[num(x) for x in p], text=("text", ""), c=("c", {}),
                       e2=("ce", False))
                n = {"Constant": 1, "Linear": 3, "Discrete": 4}.get(k, len(p))
                m = max(0, n + rng.choice([0, 0, 0, 1, 1, -1, 2, -n]))
                ws = [rng.choice(WORDSN[:12]) for _ in range(m)]
                if ws and rng.random() < .3: ws[rng.randrange(len(ws))] = rng.choice(WORDSN)
                t = rng.choice([" ", " ", " ", "  "]).join(ws)
                if k not in ("Constant", "Linear") and rng.random() < .9: t = t.strip()
                if k == "Constant" and " " in t: t = t.split(" ")[0]
                sc.ask({"op": "configureterm", "k": k, "text": t}, "configureterm", k, t, c=("c", {}))
            scs.append(sc)
    pts = []
    for c in range(ctx.n(40, 400)):
        rng = ctx.rng("points", c)
        sc = Parts("points%d" % c)
        for _ in range(6):
            k = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12])
            n = [q(rng, -2, 2, 8) for _ in range(k)]
            if k > 4 and rng.random() < .4: n[2] = n[0]
            if k and rng.random() < .2: n[rng.randrange(k)] = rng.choice(["inf", "-inf"])
            m, d = q(rng, -2, 2, 8), rng.choice([3, 3, 4, 5])
            f = [rng.choice(["", "(", "<<", "x"]), rng.choice([",", " ", "=>", ""]), rng.choice([")", "", ">>"]), rng.choice([" ", "", "; ", "+"])]
            sc.ask({"op": "points", "n": ps(n), "m": pair(m), "d": d, "q": f}, "points", d, ns(n), num(m), *f, pe=("pe", False), plain=("plain", "?"),
                   text=("text", "?"), **{x: x for x in ("vec", "vec2", "one", "two", "x", "y", "s1", "s2")})
        pts.append(sc)
    for sc in scs:
        old = sc.trace
        def tr(ans, old=old):
            t = old(ans)
            for s in t["steps"]:
                if s["op"] == "params": s["e"] = s.pop("e2")
            return t
        sc.trace = tr
    ctx.conform("PartsTrace", ["params"], scs + pts, "parameters")


def T03(ctx):
    """inverses of monotonic terms"""
    scs = []
    for k in ALLTERMS:
        for c in range(ctx.n(10, 100) if k in MONO + ["Sigmoid"] else 1):
            sc = Parts("%s%d" % (k, c))
            rng = ctx.rng("tsu", k, c)
            for _ in range(4):
                _, p, lo, hi = aterm(rng, k)
                if k == "Sigmoid": p[1] = F(rng.choice([-4, -2, 1, 2, 4]))
                h = F(1) if rng.random() < .4 else F(rng.choice([1, 2, 3, 5, 8]), 4)
                ys, back = [], []
                for _ in range(12):
                    y = h * q(rng, 0, 1, rng.choice([4, 8, 16, 10]))
                    if k == "Sigmoid" and y in (0, h): y = h / 4
                    if k == "Concave":
                        if y == 0: y = h
                    # (a ramp, an S and a Z are invertible between 0 and their height; a concave term at any degree)
                    ys.append(y)
                    back.append(True)
                sc.ask({"op": "tsukamoto", "t": js(k, p, h), "ys": ps(ys), "back": back, "tol": 1200}, "tsukamoto", 0, ns(ys), k, num(h),
                       *[num(x) for x in p], v="v", w="w", mono=("mono", False), te=("te", False))
            scs.append(sc)
    for sc in scs:
        old = sc.trace
        def tr(ans, old=old):
            t = old(ans)
            for s in t["steps"]: s["e"] = s.pop("te") or s["e"]
            return t
        sc.trace = tr
    ctx.conform("PartsTrace", ["inverse", "monotonic"], scs, "inverses")


# ------------------------------------------------------------------ formulas
BIN = ["+", "-", "*"]
CMP = ["lt", "gt", "le", "ge", "eq", "neq"]
SMOOTH = ["sin", "cos", "atan", "exp", "tanh", "sinh", "cosh", "asinh", "abs", "fabs", "sqrt", "log", "log10", "log1p", "asin", "acos", "tan",
          "acosh", "atanh"]


class FGen(object):
    """random formulas; every value along the way must be one the arithmetic of the model handles"""
    def __init__(self, rng, names):
        self.rng, self.names = rng, names
        self.lits = {}

    def lit(self):
        rng = self.rng
        v = rng.choice([F(0), F(1), F(2), F(1, 2), F(3), F(1, 4), F(5, 2), F(3, 2)])
        t = rng.choice(["%g" % float(v), "%.3f" % float(v), "%.2f" % float(v)])
        self.lits[t] = F(t)
        return [t]

    def gen(self, d, exact):
        """(tokens, evaluator over environment -> float or None)"""
        rng = self.rng
        if d == 0 or rng.random() < .15:
            if rng.random() < .35:
                t = self.lit()
                v = self.lits[t[0]]
                return t, lambda e: v
            n = rng.choice(self.names)
            return [n], lambda e: e[n]
        c = rng.random()
        def ok(v):
            if v is None: return None
            if isinstance(v, F) and (abs(v.numerator) > 30000 or v.denominator > 4096): return None
            if abs(v) > 500 or v != 0 and abs(v) < 1e-2: return None
            return v
        def paren(t, p): return ["("] + t + [")"] if p else t
        if c < .42:
            o = rng.choice(BIN)
            a, f = self.gen(d - 1, exact)
            b, g = self.gen(d - 1, exact)
            # tokens in parentheses: the evaluator knows the structure
            t = ["("] + a + [")", o, "("] + b + [")"] if rng.random() < .6 or len(a) > 1 or len(b) > 1 else a + [o] + b
            def ev(e):
                x, y = f(e), g(e)
                if x is None or y is None: return None
                return ok(x + y if o == "+" else x - y if o == "-" else x * y)
            return paren(t, True), ev
        if c < .5:
            a, f = self.gen(d - 1, exact)
            o = rng.choice(["!", "~"]) if exact else "~"
            def ev(e):
                x = f(e)
                if x is None: return None
                return -x if o == "~" else F(0) if x == 1 else F(1)
            return [o, "("] + a + [")"] if len(a) > 1 else [o] + a, ev
        if c < .58:
            o = rng.choice(["min", "max"])
            a, f = self.gen(d - 1, exact)
            b, g = self.gen(d - 1, exact)
            def ev(e):
                x, y = f(e), g(e)
                if x is None or y is None: return None
                return min(x, y) if o == "min" else max(x, y)
            return [o, "("] + a + [","] + b + [")"], ev
        if exact and c < .76:
            o = rng.choice(CMP + ["and", "or", "%", "fmod"])
            a, f = self.gen(d - 1, True)
            b, g = self.gen(d - 1, True)
            def ev(e):
                x, y = f(e), g(e)
                if x is None or y is None: return None
                if o == "lt": r = x < y
                elif o == "gt": r = x > y
                elif o == "le": r = x <= y
                elif o == "ge": r = x >= y
                elif o == "eq": r = x == y
                elif o == "neq": r = x != y
                elif o == "and": r = x == 1 and y == 1
                elif o == "or": r = x == 1 or y == 1
                else:
                    if y == 0 or abs(x / y) > 1000: return None
                    k = x / y
                    k = k.numerator // k.denominator if k >= 0 else -((-k).numerator // (-k).denominator)
                    return ok(x - y * k)
                return F(int(r))
            if o in ("and", "or", "%"): return ["(", "("] + a + [")", o, "("] + b + [")", ")"], ev
            return [o, "("] + a + [","] + b + [")"], ev
        if exact and c < .9:
            o = rng.choice(["floor", "ceil", "round"])
            a, f = self.gen(d - 1, True)
            def ev(e):
                x = f(e)
                if x is None: return None
                fl = x.numerator // x.denominator
                if o == "floor": return F(fl)
                if o == "ceil": return F(-((-x).numerator // (-x).denominator))
                y = abs(x) + F(1, 2)
                y = y.numerator // y.denominator
                return F(y if x >= 0 else -y)
            return [o, "("] + a + [")"], ev
        if exact:
            a, f = self.gen(d - 1, True)
            k = rng.choice([0, 1, 2, 3])
            t = ["%d" % k]
            self.lits[t[0]] = F(k)
            def ev(e):
                x = f(e)
                if x is None: return None
                return ok(x ** k)
            if rng.random() < .5: return ["pow", "("] + a + [","] + t + [")"], ev
            return ["(", "("] + a + [")", "^"] + t + [")"], ev
        # not exact: smooth functions
        if c < .7:
            a, f = self.gen(d - 1, False)
            b, g = self.gen(d - 1, False)
            def ev(e):
                x, y = f(e), g(e)
                if x is None or y is None or abs(y) < .1: return None
                return ok(float(x) / float(y))
            return ["(", "("] + a + [")", "/", "("] + b + [")", ")"], ev
        if c < .74:
            a, f = self.gen(d - 1, False)
            b, g = self.gen(d - 1, False)
            def ev(e):
                x, y = f(e), g(e)
                if x is None or y is None or abs(y) < .1 or abs(x) < .1: return None
                return ok(math.atan2(x, y))
            return ["atan2", "("] + a + [","] + b + [")"], ev
        o = rng.choice(SMOOTH)
        a, f = self.gen(d - 1, False)
        def ev(e):
            x = f(e)
            if x is None: return None
            x = float(x)
            if o in ("exp", "sinh", "cosh") and abs(x) > 4: return None
            if o in ("sin", "cos", "tan") and abs(x) > 8: return None
            if o == "tan" and abs(math.cos(x)) < .2: return None
            if o in ("log", "log10", "sqrt") and x < .05: return None
            if o == "log1p" and x < -.9: return None
            if o in ("asin", "acos", "atanh") and abs(x) > .9: return None
            if o == "acosh" and x < 1.1: return None
            if o == "asinh" and abs(x) > 20: return None
            return ok(abs(x) if o == "fabs" or o == "abs" else getattr(math, o)(x))
        return [o, "("] + a + [")"], ev


def glue(rng, toks):
    """the text of a formula; blanks where the language does not need them are left out at random"""
    r = ""
    for i, t in enumerate(toks):
        if i:
            tight = t in "()+-*/%^!~," or toks[i - 1] in "()+-*/%^!~,"
            r += "" if tight and rng.random() < .5 else rng.choice([" ", " ", "  "])
        r += t
    return r


def flat(rng, names):
    """formulas without parentheses: precedence and associativity decide"""
    t = []
    n = rng.randint(2, 5)
    for i in range(n):
        if i: t.append(rng.choice(["+", "-", "*", "+", "-", "*", "/", "^", "and", "or", "%"]))
        while rng.random() < .15: t.append(rng.choice(["!", "~"]))
        c = rng.random()
        if c < .15: t += [rng.choice(["max", "min"]), "(", rng.choice(names), ",", rng.choice(["1", "2", "0.5"]), ")"]
        elif c < .25: t += ["("] + [rng.choice(names), rng.choice(["+", "-"]), rng.choice(["1", "2", "0.5"])] + [")"]
        elif c < .6: t.append(rng.choice(names))
        else: t.append(rng.choice(["1", "2", "3", "0.5"]))
    return t


def pyflat(toks, env):
    """magnitudes along the way, with Python's own parser"""
    import re
    s = " ".join(toks)
    py = []
    for t in toks: py.append(t)
    return s


def spoilf(rng, t):
    t = list(t)
    c = rng.randint(0, 5)
    i = rng.randrange(len(t))
    if c == 0: del t[i]
    elif c == 1: t.insert(i, rng.choice(["+", "*", "(", ")", ",", "max", "sin", "zzz", "!", "and"]))
    elif c == 2: t[i] = rng.choice(["zzz", "(", ")", "+", ","])
    elif c == 3: t = t[:i]
    elif c == 4: t.append(rng.choice(t))
    return t


def dyflat(toks, env):
    """is every value of a flat formula on the way a small binary fraction? (with a shunting-yard of its own)"""
    PREC = {"!": 100, "~": 100, "^": 90, "*": 80, "/": 80, "%": 80, "+": 70, "-": 70, "and": 60, "or": 50}
    out, st = [], []
    class Bad(Exception): pass
    def chk(v):
        if abs(v.numerator) > 20000 or v.denominator > 2048 or v.denominator & (v.denominator - 1): raise Bad()
        return v
    def app(o):
        if o in ("!", "~"):
            a = out.pop()
            out.append(-a if o == "~" else F(0) if a == 1 else F(1))
            return
        b, a = out.pop(), out.pop()
        if o == "+": v = a + b
        elif o == "-": v = a - b
        elif o == "*": v = a * b
        elif o == "/":
            if b == 0: raise Bad()
            v = a / b
        elif o == "%":
            if b == 0: raise Bad()
            k = abs(a / b)
            k = k.numerator // k.denominator
            v = a - b * (k if a / b >= 0 else -k)
        elif o == "^":
            if b.denominator != 1 or abs(b) > 4 or a == 0 and b < 0: raise Bad()
            v = a ** int(b)
        elif o == "and": v = F(int(a == 1 and b == 1))
        elif o == "or": v = F(int(a == 1 or b == 1))
        elif o == "max": v = max(a, b)
        elif o == "min": v = min(a, b)
        out.append(chk(F(v)))
    try:
        for t in toks:
            if t in ("max", "min", "("): st.append(t)
            elif t == ",":
                while st[-1] != "(": app(st.pop())
            elif t == ")":
                while st[-1] != "(": app(st.pop())
                st.pop()
                if st and st[-1] in ("max", "min"): app(st.pop())
            elif t in PREC:
                while st and st[-1] in PREC and (PREC[t] < PREC[st[-1]] or PREC[t] == PREC[st[-1]] and t not in ("!", "~", "^")): app(st.pop())
                st.append(t)
            else: out.append(env[t] if t in env else F(t))
        while st: app(st.pop())
        return len(out) == 1
    except (Bad, IndexError, OverflowError):
        return False


def F01(ctx):
    """formulas"""
    scs = []
    for c in range(ctx.n(220, 4000)):
        rng = ctx.rng("f", c)
        sc = Parts("f%d" % c)
        names = ["x"] + ["a", "b", "val", "t1"][:rng.randint(0, 3)]
        for _ in range(3):
            g = FGen(rng, names)
            kind = rng.choice(["exact", "exact", "smooth", "flat", "flat"])
            if kind == "flat":
                t = flat(rng, names)
                lits = {k: F(k) for k in ("1", "2", "3", "0.5")}
                ev = lambda e, t=t: F(1) if dyflat(t, e) else None
            else:
                t, ev = g.gen(rng.randint(1, 3), kind == "exact")
                lits = g.lits
            lits = dict(lits) or {"1": F(1)}
            n = 6
            xs = [q(rng, -2, 3, 4) for _ in range(n)]
            vals = [[q(rng, -2, 3, 4) for _ in names[1:]] for _ in range(n)]
            ok = []
            for i in range(n):
                try: v = ev(dict(zip(names, [xs[i]] + vals[i])))
                except (ValueError, OverflowError, ZeroDivisionError): v = None
                ok.append(v is not None and (abs(v) >= 1e-2 or v == 0))
            text = glue(rng, t)
            m = {"op": "feval", "text": text, "names": names[1:], "xs": ps(xs), "vals": [ps(v) for v in vals], "ok": ok,
                 "lits": {k: pair(v) for k, v in lits.items()}, "tol": 1500 if kind == "smooth" else 150}
            sc.ask(m, "feval", text, " ".join(names[1:]), ns(xs), *[ns([v[j] for v in vals]) for j in range(len(names) - 1)], v="v")
            sc.ask({"op": "ftext", "text": text}, "ftext", text, pe=("pe", True), post=("post", ""), te=("te", True),
                   tree=("tree", {"pre": "", "inf": "", "post": "", "ops": 0, "funs": 0}))
            u = spoilf(rng, t)
            text = glue(rng, u)
            sc.ask({"op": "ftext", "text": text}, "ftext", text, pe=("pe", True), post=("post", ""), te=("te", True),
                   tree=("tree", {"pre": "", "inf": "", "post": "", "ops": 0, "funs": 0}))
            m = dict(m, text=text, ok=[False] * n, xs=ps(xs[:1]), vals=[ps(v) for v in vals[:1]])
            sc.ask(m, "feval", text, " ".join(names[1:]), ns(xs[:1]), *[ns([v[j] for v in vals[:1]]) for j in range(len(names) - 1)], v="v")
        scs.append(sc)
    # terms whose formula sees the variables of an engine and variables of its own
    for c in range(ctx.n(90, 1500)):
        rng = ctx.rng("scope", c)
        sc = Parts("scope%d" % c)
        pool = ["x", "a", "b", "val", "t1"]
        ins, outs, own = [rng.sample(pool, rng.randint(0, 3)) for _ in range(3)]
        iv, ov, wv = [[q(rng, -2, 3, 4) for _ in l] for l in (ins, outs, own)]
        sc.line("new", 1, "e")
        for i, n in enumerate(ins):
            sc.line("iv", 1, n, 1, 0, "-9", "9"); sc.line("in", 1, i + 1, num(iv[i]))
        for i, n in enumerate(outs):
            sc.line("ov", 1, n, 1, 0, "-9", "9", "nan", 0, "none", "none")
            sc.line("out", 1, i + 1, num(ov[i]))
        for _ in range(3):
            names = pool if rng.random() < .3 else sorted({"x"} | set(ins) | set(outs) | set(own))
            kind = rng.choice(["exact", "exact", "smooth"])
            g = FGen(rng, names)
            t, ev = g.gen(rng.randint(1, 3), kind == "exact")
            lits = dict(g.lits) or {"1": F(1)}
            xs = [q(rng, -2, 3, 4) for _ in range(4)]
            env = dict(zip(own, wv)); env.update(zip(ins, iv)); env.update(zip(outs, ov))
            ok = []
            for x in xs:
                try: v = ev(dict(env, x=x))
                except (ValueError, OverflowError, ZeroDivisionError, KeyError): v = None
                ok.append(v is not None and (abs(v) >= 1e-2 or v == 0))
            text = glue(rng, t)
            sc.ask({"op": "fscope", "text": text, "ins": ins, "outs": outs, "own": own, "ivals": ps(iv), "ovals": ps(ov), "vals": ps(wv),
                    "xs": ps(xs), "ok": ok, "lits": {k: pair(v) for k, v in lits.items()}, "tol": 1500 if kind == "smooth" else 150},
                   "fscope", 1, text, " ".join(own), ns(wv), ns(xs), v=("v", []))
        scs.append(sc)
    ctx.conform("PartsTrace", ["postfix", "parse", "notation", "value", "scope"], scs, "formulas")


PROPS = {f.__name__: f for f in (N01, N02, T01, T02, T03, F01)}
