"""Checks of the properties about tables of values (specification: Dataset.tla)."""
import fv
from gen import *
from engine_props import probe_hedges, kinds, w, BASE, TOGGLES, CONFIG, VALUES, LOADS

SEPS = [" ", " ", ",", "; ", "\t", " | "]


def text(x):
    """a number as written in a table (dyadic, so that it is read exactly)"""
    return x if isinstance(x, str) else ("%.6f" % float(x)).rstrip("0").rstrip(".") if x.denominator > 1 else str(x.numerator)


class Tables(object):
    """An engine in slot 1, a copy that the model follows row by row in slot 2 and
    one whose tables are looked at in slot 3."""
    def __init__(self, ctx, label, k, opts):
        self.rng = ctx.rng(label, k)
        self.sc = Scenario("%s%d" % (label, k))
        self.og = OpGen(self.rng, self.sc, w(BASE, TOGGLES, CONFIG, VALUES))
        self.e = EngineGen(self.rng, **opts)
        self.og.make(1, self.e)
        self.og.load(1)

    def divisions(self, per):
        """ranges of the inputs that per equally distributed values divide exactly"""
        for i, v in enumerate(self.e.ins):
            lo = self.rng.choice([F(0), F(-1), F(1), F(-2), F(1, 2)])
            hi = lo + F(max(1, per - 1) * self.rng.choice([1, 1, 2, 3]), 4)
            self.sc.op("rangein", 1, i + 1, num(lo), num(hi), i=i + 1, x=pair(lo), y=pair(hi))
            v["lo"], v["hi"] = lo, hi

    def warm(self, n):
        for _ in range(n): self.og.step(1)

    def split(self):
        self.og.dup("clone", 1, 2)
        self.og.dup("clone", 1, 3)

    def evaluate(self, xs, per=None):
        """the copy takes the values and is evaluated; xs: a value, (digit, divisions) or None for the one it has"""
        sc = self.sc
        ks = []
        for i, x in enumerate(xs):
            if x is None:
                sc.op("keep", 2, i + 1, i=i + 1)
                continue
            if isinstance(x, tuple):
                v = self.e.ins[i]
                y = v["lo"] + (v["hi"] - v["lo"]) * F(x[0], max(1, x[1]))
                sc.lines.append(fv.cmd("ingrid", 2, i + 1, x[0], x[1]))
                sc.lines.append(fv.cmd("obs", 0))
                sc.steps.append(({"op": "in", "s": 2, "i": i + 1, "x": pair(y)}, len(sc.lines) - 2, len(sc.lines) - 1))
            else: sc.op("in", 2, i + 1, text(x), i=i + 1, x=pair(x))
        sc.needed.add(len(sc.steps))
        sc.op("process", 2)
        self.og.fresh[2] = True
        return len(sc.lines) - 1

    def digits(self, per, active):
        """the combinations, the last variable changing fastest"""
        rows = [[]]
        for a in active: rows = [r + [(d, per - 1)] for r in rows for d in range(per)] if a else [r + [None] for r in rows]
        return rows

    def step(self, model, line, looked, fill=None):
        """a step over slot 3 that slot 2 has gone through: looked are the observations after each of its evaluations"""
        sc = self.sc
        o = sc.line("obs", 0)

        def fills(m, ans):
            outs = [[x["val"] for x in ans[k]["obs"][1]["outs"]] if k is not None else [] for k in looked]
            if m["op"] == "dataset":
                m["rows"] = [{"blank": k is None, "o": y, "x": [x["val"] for x in ans[k]["obs"][1]["ins"]] if k is not None else []}
                             for k, y in zip(looked, outs)]
                m["out"] = ans[line].get("out", "")
            if m["op"] == "brun": m["rows"] = outs
            if "had" in m: m.update({f: ans[m["had"]].get(f, []) for f in ("expected", "obtained")})
            for f in ("expected", "obtained", "times", "before", "total", "can", "all", "acc", "nf", "mse", "results", "table", "names"):
                if f in ans[line]: m[f] = ans[line][f]
            if fill: fill(m, ans)
        sc.fills[len(sc.steps)] = fills
        sc.steps.append((dict(model, s=3, t=2), line, o))

    # ------------------------------------------------------------ texts of values
    def table(self, n, extra, blanks=True, bad=.15):
        """(text, rows given to the model of the harness: list of values or None, stops at an error)"""
        rng = self.rng
        nin = len(self.e.ins)
        lines, rows, stop = [], [], False
        if rng.random() < .4:
            lines.append(rng.choice(["in1 in2 out1", "# values", "x", " ".join(v["name"] for v in self.e.ins), "1 2 x"]))
        for _ in range(n):
            c = rng.random()
            if c < .08: lines.append(rng.choice(["# note", "  #1 2 3", "#"]))
            elif c < .16:
                lines.append(rng.choice(["", "  "]))
                if blanks and not stop: rows.append(None)
            elif c < .16 + bad / 4 and lines:
                lines.append(rng.choice(["zzz", "0.5 x 1 1 1 1", "1 " * (nin - 1) + "1x", "0.5;1"]))
                stop = True
            elif c < .16 + bad / 2 and nin > 1:
                lines.append(" ".join("0.5" for _ in range(nin - 1)))
                stop = True
            else:
                xs = [self.og.value(v) for v in self.e.ins]
                more = [rng.choice([F(1, 2), F(3), "nan"]) for _ in range(extra if extra >= 0 else rng.randint(0, 2))]
                lines.append(rng.choice(["", " "]) + rng.choice([" ", "  ", "\t"]).join(text(x) for x in xs + more) + rng.choice(["", " "]))
                if not stop: rows.append(xs)
        return "\n".join(lines) + ("\n" if not lines or not lines[-1] else rng.choice(["", "\n"])), rows


def small(rng, k):
    o = dict(kinds(rng, k), nblocks=(1, 2), nrules=(1, 2), nin=(1, 3), nout=(1, 2), chain=.1, lock=.2, lockp=.3, default=.5, res=[2, 4],
             hedges=.1, disabled=.05)
    return o


def fld(ctx, label, n):
    r = []
    for k in range(n):
        o = small(ctx.rng(label, "o", k), k)
        mode = ["grid", "read", "grid", "row"][k % 4]
        big = k % 20 == 2
        if big: o.update(nin=(3, 3), nout=(1, 1), nblocks=(1, 1), nrules=(1, 1))
        t = Tables(ctx, label, k, o)
        rng, sc = t.rng, t.sc
        per = 4 if big else rng.choice([1, 2, 2, 3, 3, 4, 5])
        nin = len(t.e.ins)
        while not big and per ** nin > 16: per -= 1
        if mode == "grid": t.divisions(per)
        t.warm(rng.randint(0, 3))
        if mode == "grid": t.divisions(per)
        t.split()
        if k % 3 == 1: sc.op("restart", 3), sc.op("restart", 2)
        for rep in range(1 if big else rng.choice([1, 1, 2])):
            sep, hd, oi, oo = rng.choice(SEPS), rng.random() < .7, rng.random() < .8, rng.random() < .85
            d = rng.choice([3, 3, 3, 0, 1, 2, 4, 6])
            m = {"op": "dataset", "mode": mode, "sep": sep, "hd": hd, "oi": oi, "oo": oo, "d": d}
            flags = (sep, int(hd), int(oi), int(oo))
            if mode == "grid":
                scope = "all" if big else rng.choice(["all", "each"])
                act = [True] * nin if big or rng.random() < .5 else [rng.random() < .6 for _ in range(nin)]
                top = (per + 1) ** nin - 1
                n_ = per if scope == "each" else 64 if big else rng.choice([per ** nin, top, rng.randint(per ** nin, top)])
                if scope == "each" and per == 1: n_ = rng.choice([1, 0, -1])
                if scope == "all" and per == 1 and rng.random() < .3: n_ = rng.choice([0, -2])
                given = "*" if all(act) and rng.random() < .6 else "".join("01"[a] for a in act)
                if rng.random() < .06: given = given.replace("*", "1" * nin) + "1"; act = act + [True]
                m.update(n=n_, scope=scope, active=act)
                looked = [t.evaluate(x) for x in t.digits(per, act)] if len(act) == nin else []
                sc.line("decimals", d)
                line = sc.line("fldgrid", 3, rng.choice(["string", "write", "file"]), *(flags + (n_, scope, given)))
            elif mode == "read":
                txt, rows = t.table(rng.randint(1, 7), -1)
                looked = [None if x is None else t.evaluate(x) for x in rows]
                m["text"] = txt
                sc.line("decimals", d)
                line = sc.line("fldread", 3, rng.choice(["string", "write", "file"]), *(flags + (txt,)))
            else:
                act = [True] * nin if rng.random() < .5 else [rng.random() < .6 for _ in range(nin)]
                given = "*" if all(act) and rng.random() < .6 else "".join("01"[a] for a in act)
                c = rng.random()
                xs = [t.og.value(v) for v in t.e.ins]
                if c < .1: xs = []
                elif c < .2: xs = xs[:-1]
                elif c < .4: xs = xs + [F(1)]
                if rng.random() < .06: given = given.replace("*", "1" * nin) + "1"; act = act + [True]
                m.update(x=[pair(x) for x in xs], active=act)
                ok = len(xs) >= nin and len(act) == nin
                looked = [None] if not xs else [t.evaluate([x if a else None for x, a in zip(xs, act)])] if ok else []
                sc.line("decimals", d)
                line = sc.line("fldrow", 3, *(flags + (given,) + tuple(num(x) for x in xs)))
            sc.line("decimals", 3)
            t.step(m, line, looked)
        r.append(sc)
    return r


def X05(ctx):
    """datasets"""
    probe_hedges(ctx)
    ctx.conform("EngineTrace", ["dataset"], fld(ctx, "fld", ctx.n(220, 3000)), "datasets")


UNITS = ["nanoseconds", "microseconds", "milliseconds", "seconds", "minutes", "hours"]
RATIO = [1000, 1000, 1000, 60, 60]


def runs(ctx, label, n):
    r = []
    for k in range(n):
        o = small(ctx.rng(label, "o", k), k)
        large = k % 6 == 0        # (prepared only)
        if large: o.update(nin=(1, 4), nrules=(1, 1), nblocks=(1, 1))
        t = Tables(ctx, label, k, o)
        rng, sc = t.rng, t.sc
        nin, nout = len(t.e.ins), len(t.e.outs)
        per = rng.choice([1, 2, 2, 3, 3, 4, 5])
        if large: per = rng.choice([2, 3, 4, 5, 6, 7])
        while per ** nin > (400 if large else 9): per -= 1
        t.divisions(per)
        t.warm(rng.randint(0, 3))
        t.divisions(per)
        t.split()
        name = rng.choice(["bench", "a b", ""])
        tol = rng.choice([F(0), F(1, 8), F(1, 2), F(1)])
        sc.line("bnew", 3, name, num(tol))
        for rep in range(rng.choice([1, 1, 2])):
            grid = large or rng.random() < .5
            sd = False
            if grid:
                scope = rng.choice(["all", "all", "each"])
                top = (per + 1) ** nin - 1
                n_ = per if scope == "each" else rng.choice([per ** nin, per ** nin, top, rng.randint(per ** nin, top)])
                rows = t.digits(per, [True] * nin)
                t.step({"op": "bprep", "mode": "grid", "n": n_, "scope": scope}, sc.line("bgrid", 3, n_, scope), [])
            else:
                txt, rows = t.table(rng.randint(1, 6), nout if rng.random() < .5 else -1, blanks=False, bad=.1)
                nl = -1
                ls = txt.split("\n")
                if rng.random() < .3:
                    nl = rng.randint(0, len(ls))
                    rows = None
                # (the rows that the model of the harness knows of)
                t.step({"op": "bprep", "mode": "read", "text": txt, "nl": nl}, sc.line("bread", 3, txt, nl), [])
                sc.needed.add(len(sc.steps) - 1)
                if nl >= 0: rows = plan(ls[:nl], nin)
                else: rows = plan(ls, nin)
            if large: continue
            c = rng.random()
            times = 0 if c < .04 else 1 if c < .8 else 2
            short = None in rows
            good = rows[:rows.index(None)] if short else rows
            looked = []
            for _ in range(1 if short and times else times):
                sc.op("restart", 2)
                looked = [t.evaluate(x) for x in good]
            if times == 0: continue
            once = times == 1 and rng.random() < .5
            had = sc.line("brows", 3)
            t.step({"op": "brun", "runs": times, "had": had}, sc.line("brun", 3, "once" if once else times), looked)
            sc.needed.add(len(sc.steps) - 1)
            for q in range(rng.randint(1, 3)):
                # errors: expected are the values obtained, except some
                if rng.random() < .85:
                    args = []
                    for _ in range(rng.randint(0, 5)):
                        if not good: break
                        d = rng.choice([F(1, 16), F(1, 4), F(-1, 4), F(3, 4), F(-3, 4), F(2), tol, -tol, F(3, 2), "nan", "inf"])
                        args += [rng.randrange(len(good)), nin + rng.randrange(nout), num(d)]
                    sc.line("btweak", 3, *args)
                c = rng.random()
                if c < .55: t.step({"op": "berr", "tol": pair(tol), "had": sc.line("brows", 3)}, sc.line("berr", 3), [])
                elif c < .9:
                    i = rng.randrange(6)
                    j = max(0, min(5, i + rng.choice([-1, 0, 0, 1])))
                    ts = [F(rng.randint(1, 60 if j < i else 240), rng.choice([2, 4, 8])) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
                    if j > i and RATIO[i] == 1000: ts = [F(rng.randint(10, 150)) for x in ts]
                    if j < i and RATIO[j] == 1000: ts = [F(rng.randint(1, 40), 8) for x in ts]
                    oo = rng.randint(0, nout) if nout > 1 else rng.choice([0, 1])
                    wt = rng.random() < .6
                    t.step({"op": "bres", "had": sc.line("brows", 3), "tol": pair(tol), "name": name, "o": oo, "unit": UNITS[j], "gunit": UNITS[i], "times": wt,
                            "given": [pair(x) for x in ts]},
                           sc.line("bres", 3, UNITS[j], oo, int(wt), UNITS[i], *[num(x) for x in ts]), [])
                else:
                    sh, ct, dl = rng.choice(["horizontal", "vertical"]), rng.choice(["header", "body", "both"]), rng.choice(["\t", ",", " & "])
                    t.step({"op": "bfmt", "had": sc.line("brows", 3), "shape": sh, "contents": ct, "dl": dl}, sc.line("bfmt", 3, sh, ct, dl), [])
            if rng.random() < .2:
                tol = rng.choice([F(0), F(1, 8), F(1, 2), F(1)])
                sc.line("btol", 3, num(tol))
        if rng.random() < .2:
            c, f = rng.randint(0, 3), rng.random() < .5
            t.step({"op": "bhead", "n": c, "f": f}, sc.line("bhead", 3, c, int(f)), [])
        sc.line("bdel", 3)
        r.append(sc)
    return r


def plan(lines, nin):
    """rows of values in a text, up to one with too few (None)"""
    rows = []
    for i, l in enumerate(lines):
        l = l.strip()
        if not l or l.startswith("#"): continue
        try: xs = [x if x in ("nan", "inf", "-inf") else F(x) for x in l.split()]
        except ValueError:
            if i == 0: continue
            return rows
        rows.append(xs[:nin] if len(xs) >= nin else None)
    return rows


def B01(ctx):
    """benchmarks"""
    probe_hedges(ctx)
    ctx.conform("EngineTrace", ["prepare", "run", "errors", "results"], runs(ctx, "bench", ctx.n(240, 3000)), "benchmarks")


PROPS = {"X05": X05, "B01": B01}
