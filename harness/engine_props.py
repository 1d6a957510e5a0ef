"""Checks of the properties about evaluating engines (specification: Engine.tla)."""
import fv, gen
from gen import *

ALLACT = ["General", "First", "Last", "Highest", "Lowest", "Proportional", "Threshold"]
ALLDF = INTEGRAL
STAGES = ["deg", "adj", "trig", "fz", "ival", "wval", "mem", "err", "frame"]
BASE = {"run": 10, "process": 3, "in": 3}
TOGGLES = {"enin": 2, "enout": 2, "enblock": 2, "enrule": 3, "weight": 2}
CONFIG = {"conj": 1, "disj": 1, "impl": 1, "agg": 1, "df": 1, "act": 2, "configure": 1}
VALUES = {"out": 1, "setprev": 1, "lockp": 1, "lockout": 1, "lockin": 1, "def": 1, "rangeout": 1, "rangein": 1,
          "clearout": 1, "restart": 2}
LOADS = {"loadrule": 2, "reloadrule": 2, "unloadrule": 2, "loadrules": 1, "reloadrules": 2, "unloadrules": 1,
         "addrule": 2, "insrule": 1, "rmrule": 1}
PARTIAL = {"activate": 2, "defuzzify": 2}


def w(*ds):
    r = {}
    for d in ds: r.update(d)
    return r


def probe_hedges(ctx):
    """does a hedge of one conclusion carry over to the next one? (known finding F-HEDGE)"""
    L = [cmd("new", 1, "p"), cmd("iv", 1, "a", 1, 0, "0", "1"), cmd("ov", 1, "x", 1, 0, "0", "1", "nan", 0, "Maximum", "none"),
         cmd("ov", 1, "y", 1, 0, "0", "1", "nan", 0, "Maximum", "none"),
         cmd("term", 1, "in", 1, "lo", "Ramp", "1", "0", "1"),
         cmd("term", 1, "out", 1, "t", "Ramp", "1", "0", "1"), cmd("term", 1, "out", 2, "t", "Ramp", "1", "0", "1"),
         cmd("block", 1, "b", 1, "Minimum", "Maximum", "Minimum", "General"),
         cmd("rule", 1, 1, "if a is lo then x is very t and y is t"), cmd("loadrules", 1, 1),
         cmd("in", 1, 1, "1/2"), cmd("activate", 1, 1), cmd("obs", 0)]
    ans, d = fv.drive_one(ctx.exe, L)
    try:
        v = ans[-1]["obs"][0]["outs"][1]["fz"][0]["d"]
        CARRY[0] = v != [1, 2]
    except Exception:
        CARRY[0] = False
    if CARRY[0]: ctx.known.append("F-HEDGE")


def scen(ctx, label, n, steps, weights, opts, prelude=None, init_load=True, engines=1):
    r = []
    for k in range(n):
        rng = ctx.rng(label, k)
        o = opts(rng, k) if callable(opts) else dict(opts)
        sc = Scenario("%s%d" % (label, k))
        og = OpGen(rng, sc, weights)
        e = EngineGen(rng, **o)
        og.make(1, e)
        if init_load and rng.random() < .95: og.load(1)
        if prelude: prelude(og, rng)
        a, b = steps
        for _ in range(rng.randint(a, b)):
            s = rng.choice(list(og.eng))
            og.step(s)
        r.append(sc)
    return r


def graph(ctx, label, ncases, depth, weights, opts, watch, nops=4, cap=4000, must=()):
    """explores the state graphs of small engines exhaustively and replays every transition"""
    import re
    cases, mats = [], []
    for k in range(ncases):
        rng = ctx.rng("graph", label, k)
        o = opts(rng, k) if callable(opts) else dict(opts)
        o.update(nin=(1, 1), nout=o.get("gout", (1, 1)), nblocks=o.get("gblocks", (1, 1)), nrules=o.get("grules", (1, 2)), res=[2, 4],
                 curved=0.0)
        e = EngineGen(rng, **o)
        sc = Scenario("x")
        og = OpGen(rng, sc, weights)
        og.make(1, e)
        n0 = len(sc.steps)
        if rng.random() < .9: og.load(1)
        n1 = len(sc.steps)
        # the alphabet: some operations of the wanted kinds, always evaluation and two inputs
        for _ in range(2): og.inputs(1)
        ops = {}
        tries = 0
        for m in must:
            og.w = {m: 1}
            og.step(1)
        og.w = weights
        while tries < 40 and len(ops) < nops:
            tries += 1
            og.step(1)
            ops = {sc.lines[a]: 1 for m, a, b in sc.steps[n1:] if m["op"] not in ("make", "process")}
        og.process(1)
        alpha, seen = [], set()
        for m, a, b in sc.steps[n1:]:
            if sc.lines[a] not in seen:
                seen.add(sc.lines[a])
                alpha.append((m, sc.lines[a]))
        cases.append({"eng": e.model(), "pre": [m for m, a, b in sc.steps[n0:n1]], "ops": [m for m, _ in alpha]})
        mats.append((sc, n1, alpha))
    # several explorations at once (each with one worker: breadth first)
    from concurrent.futures import ThreadPoolExecutor
    import json, os
    jobs = []
    for j in range(min(fv.NCPU, ncases)):
        f = os.path.join(fv.scratch(), "graph-%s-%d.json" % (label, j))
        with open(f, "w") as fh: json.dump({"cases": cases[j::fv.NCPU], "depth": depth}, fh)
        jobs.append((j, f))
    hists = []

    def go(job):
        return job[0], ctx.mc("EngineGraph", env={"TRACE_FILE": job[1]}, workers=1, label="%s: state graph" % label)
    with ThreadPoolExecutor(fv.NCPU) as ex:
        for j, r in ex.map(go, jobs):
            out = re.sub(r"\s*\n\s*", " ", r.out)
            for m in re.finditer(r'<<\s*"T",\s*(\d+),\s*<<([^>]*)>>\s*>>', out):
                hists.append((j + (int(m.group(1)) - 1) * fv.NCPU, tuple(int(x) for x in m.group(2).split(","))))
    pre = set((k, h[:i]) for k, h in hists for i in range(1, len(h)))
    leaves = sorted(set(x for x in hists if x not in pre))
    if len(leaves) > cap: leaves = ctx.rng("leaves", label).sample(leaves, cap)
    scs = []
    for n, (k, h) in enumerate(leaves):
        base, n1, alpha = mats[k]
        sc = Scenario("%s%d.%d" % (label, k, n))
        last = base.steps[n1 - 1][2]
        sc.lines = base.lines[:last + 1]
        sc.steps = base.steps[:n1]
        for i in h:
            m, line = alpha[i - 1]
            sc.lines.append(line)
            sc.lines.append(cmd("obs", 1 if m["op"] == "process" else 0))
            sc.steps.append((m, len(sc.lines) - 2, len(sc.lines) - 1))
        scs.append(sc)
    ctx.conform("EngineTrace", watch, scs, label + ": every transition of the state graph")


def kinds(rng, k):
    """options of engines of all inference kinds"""
    c = k % 6
    o = dict(acts=ALLACT if rng.random() < .6 else ["General"])
    if c in (0, 1): o.update(kind="mamdani", df=INTEGRAL)
    elif c == 2: o.update(kind="sugeno", df=WEIGHTED, wtype="TakagiSugeno")
    elif c == 3: o.update(kind="tsukamoto", df=WEIGHTED, wtype="Tsukamoto")
    elif c == 4: o.update(kind="mixed", df=WEIGHTED + INTEGRAL, wtype="TakagiSugeno")
    else: o.update(kind="mamdani", df=INTEGRAL, curved=.5)
    return o


def with_noop(f, p=.04):
    def g(rng, k):
        o = f(rng, k)
        o["noop"] = p if rng.random() < .3 else 0.0
        if rng.random() < .2: o["df"] = list(o["df"]) + ["none"]
        return o
    return g


# ------------------------------------------------------------------ E01
def E01(ctx):
    """evaluation is a function of configuration, inputs and remembered outputs"""
    probe_hedges(ctx)
    asp = STAGES + ["in", "iso"]
    graph(ctx, "graph", ctx.n(16, 48), ctx.n(4, 5), w({"in": 2}, TOGGLES, VALUES, CONFIG), with_noop(kinds), asp)
    ctx.conform("EngineTrace", asp, scen(ctx, "eval", ctx.n(260, 4000), (4, 12),
                w(BASE, TOGGLES, CONFIG, VALUES, PARTIAL), with_noop(kinds)), "histories of evaluations and changes")
    if not ctx.quick:
        ctx.conform("EngineTrace", asp, scen(ctx, "long", 400, (40, 60),
                    w(BASE, TOGGLES, CONFIG, VALUES, LOADS), with_noop(kinds)), "long histories")


def E02(ctx):
    """activation degree of a rule"""
    probe_hedges(ctx)
    def opts(rng, k):
        o = dict(acts=["General"], nin=(1, 3), nblocks=(1, 2), nrules=(2, 5), hedges=.5, paren=.5, chain=.4,
                 df=["SmallestOfMaximum"], res=[4], weights=.6, multi=.1, disabled=.12, eqterm=.2)
        if k % 5 == 4: o.update(curved=.5)
        if k % 7 == 6: o.update(noop=.15)
        if k % 6 == 5: o.update(kind="sugeno", df=WEIGHTED, wtype="TakagiSugeno")
        return o
    asp = ["deg", "err", "trig", "set"]
    ctx.conform("EngineTrace", asp, scen(ctx, "ante", ctx.n(340, 6000), (3, 8),
                w(BASE, {"enin": 2, "enout": 1, "conj": 2, "disj": 2, "weight": 3, "agg": 1}), opts), "antecedents")
    ctx.conform("EngineTrace", asp, scen(ctx, "own", ctx.n(70, 1000), (10, 24),
                {"ruledeg": 10, "byhand": 4, "in": 4, "weight": 1, "enin": 1, "enrule": 1, "conj": 1, "disj": 1, "unloadrule": .5,
                 "reloadrule": .5, "enout": .5, "process": 1, "clearout": 1, "deactivate": 1}, opts), "rules activated by hand")


def E03(ctx):
    """which rules fire"""
    probe_hedges(ctx)
    asp = ["trig", "adj", "deg", "err", "set"]
    o = lambda rng, k: dict(acts=[ALLACT[k % 7]], nrules=(2, 7), weights=.7, hedges=.1,
                            df=["SmallestOfMaximum"], res=[4], badrule=.1 if k % 4 == 0 else 0)
    graph(ctx, "graph", ctx.n(14, 35), ctx.n(4, 5), {"in": 3, "enrule": 3, "weight": 3, "act": 4},
          lambda rng, k: dict(o(rng, k), grules=(3, 4)), asp, nops=5)
    ctx.conform("EngineTrace", asp, scen(ctx, "act", ctx.n(280, 5000), (4, 12),
                w(BASE, {"enrule": 3, "weight": 3, "act": 4, "activate": 2, "unloadrule": 1}), o), "activation")
    ctx.conform("EngineTrace", asp, scen(ctx, "own", ctx.n(70, 1000), (10, 24),
                {"ruledeg": 4, "setdeg": 4, "trigger": 8, "byhand": 4, "in": 2, "enrule": 2, "deactivate": 2, "activate": 2, "process": 1,
                 "unloadrule": .5, "reloadrule": .5, "clearout": 1}, o), "rules triggered by hand")


def E04(ctx):
    """what a firing rule contributes"""
    probe_hedges(ctx)
    def opts(rng, k):
        o = dict(acts=ALLACT if k % 3 == 0 else ["General"], nout=(1, 3), nin=(1, 2), multi=.7, hedges=.4, chain=.1,
                 df=["SmallestOfMaximum"], res=[4], nrules=(1, 4), disabled=.12, tall=.3)
        if k % 5 == 4: o.update(kind="sugeno", df=WEIGHTED, wtype="TakagiSugeno")
        return o
    asp = ["fz", "err", "set"]
    ctx.conform("EngineTrace", asp, scen(ctx, "cons", ctx.n(320, 5000), (3, 8),
                w(BASE, {"enout": 3, "impl": 2, "enrule": 1, "activate": 3, "clearout": 1, "weight": 1}), opts),
                "consequents")
    ctx.conform("EngineTrace", asp, scen(ctx, "own", ctx.n(70, 1000), (10, 24),
                {"setdeg": 4, "trigger": 8, "byhand": 6, "in": 2, "enout": 1, "enrule": 1, "impl": 1, "process": 1, "clearout": 2,
                 "defuzzify": 1}, opts), "conclusions drawn by hand")


def E05(ctx):
    """defuzzification over a range"""
    probe_hedges(ctx)
    def opts(rng, k):
        o = dict(acts=["General"], nout=(1, 2), nin=(1, 2), df=[INTEGRAL[k % 5]], nrules=(1, 4), disabled=.03,
                 hedges=.1, res=[1, 2, 3, 4, 5, 8, 16, 20, 32], weights=.4, nblocks=(1, 1), noop=.1 if k % 6 == 0 else 0)
        if k % 5 == 4: o.update(curved=.6)
        return o
    ctx.conform("EngineTrace", ["ival", "err", "set"], scen(ctx, "int", ctx.n(320, 5000), (4, 9),
                {"run": 10, "defuzzify": 3, "df": 3, "rangeout": 2, "agg": 2, "impl": 1, "weight": 2}, opts),
                "integral defuzzifiers")


def E06(ctx):
    """defuzzification of rule conclusions"""
    probe_hedges(ctx)
    def opts(rng, k):
        c = k % 4
        o = dict(acts=["General"], nout=(1, 2), nin=(1, 3), nrules=(1, 5), disabled=.03, hedges=.15, weights=.5,
                 df=[WEIGHTED[k % 2]], nblocks=(1, 2), chain=.1)
        if c in (0, 1): o.update(kind="sugeno", wtype="TakagiSugeno")
        elif c == 2: o.update(kind="tsukamoto", wtype="Tsukamoto")
        else: o.update(kind="mixed", wtype="TakagiSugeno")
        return o
    ctx.conform("EngineTrace", ["wval", "err", "set"], scen(ctx, "wei", ctx.n(360, 6000), (4, 10),
                {"run": 10, "defuzzify": 3, "df": 2, "agg": 3, "impl": 1, "weight": 2, "out": 1}, opts),
                "weighted defuzzifiers")


def E07(ctx):
    """values of outputs between evaluations"""
    probe_hedges(ctx)
    asp = ["mem", "in", "set"]
    o = lambda rng, k: dict(kinds(rng, k), lock=.5, lockp=.5, nrules=(1, 2), res=[2, 4], noop=.02 if k % 5 == 0 else 0)
    graph(ctx, "graph", ctx.n(14, 40), ctx.n(4, 6), {"lockp": 2, "lockout": 2, "def": 2, "rangeout": 1, "setprev": 1, "out": 2,
                                                     "lockin": 1, "enrule": 1, "weight": 1},
          o, asp + ["ival", "wval"], nops=5, must=("enblock",))
    def pre(og, rng):
        og.w["rmrule"] = 0
    ctx.conform("EngineTrace", asp, scen(ctx, "mem", ctx.n(280, 5000), (8, 20),
                {"run": 10, "process": 4, "lockp": 3, "lockout": 2, "lockin": 1, "def": 2, "rangeout": 2, "rangein": 1,
                 "clearout": 1, "setprev": 2, "out": 2, "in": 3, "enrule": 3, "weight": 1, "defuzzify": 1,
                 "restart": 1, "enout": 1}, o), "output values over time")


def E08(ctx):
    """restart"""
    probe_hedges(ctx)
    asp = ["restart"] + STAGES
    graph(ctx, "graph", ctx.n(10, 32), ctx.n(4, 5), {"restart": 3, "out": 1, "setprev": 1, "lockp": 1, "enrule": 1},
          with_noop(kinds), asp, nops=4, must=("restart",))
    ctx.conform("EngineTrace", asp, scen(ctx, "rst", ctx.n(260, 4000), (6, 16),
                {"run": 8, "process": 3, "restart": 5, "clearout": 2, "lockp": 1, "lockout": 1, "lockin": 1, "out": 1,
                 "setprev": 1, "enin": 1, "enout": 1, "enblock": 1, "enrule": 1, "def": 1, "rangeout": 1, "weight": 1,
                 "activate": 1}, with_noop(kinds)), "restarts")


def copies(ctx, label, n, opts):
    """several engines: copies evolve on their own"""
    W = w(BASE, TOGGLES, CONFIG, VALUES, LOADS, PARTIAL)
    r = []
    for k in range(n):
        rng = ctx.rng(label, k)
        sc = Scenario("%s%d" % (label, k))
        og = OpGen(rng, sc, W)
        o = opts(rng, k)
        og.make(1, EngineGen(rng, **o))
        if rng.random() < .9: og.load(1)
        if rng.random() < .25: og.make(2, EngineGen(rng, **opts(rng, k)))
        for _ in range(rng.randint(0, 4)): og.step(rng.choice(list(og.eng)))
        for _ in range(rng.randint(1, 3)):
            s = rng.choice(list(og.eng))
            t = rng.choice([x for x in (1, 2, 3) if x != s])
            how = rng.choice(["clone", "copy"] + (["assign", "assign"] if t in og.eng else []))
            og.dup(how, s, t)
            for _ in range(rng.randint(2, 6)): og.step(rng.choice(list(og.eng)))
            if len(og.eng) > 1 and rng.random() < .4:
                d = rng.choice(list(og.eng))
                og.delete(d)
                for x in list(og.eng):
                    og.inputs(x)
                    og.process(x)
            for _ in range(rng.randint(0, 3)): og.step(rng.choice(list(og.eng)))
        for x in list(og.eng):
            og.inputs(x)
            og.process(x)
        r.append(sc)
    return r


def E09(ctx):
    """copies are equal and independent"""
    probe_hedges(ctx)
    ctx.conform("EngineTrace", ["copy", "iso"] + STAGES + ["load", "restart", "set", "in"],
                copies(ctx, "dup", ctx.n(260, 4000), with_noop(kinds)), "copies of engines")


def parts(ctx, label, n, opts):
    """engines made of copies of the components of others"""
    W = w(BASE, TOGGLES, CONFIG, VALUES, LOADS, PARTIAL)
    r = []
    for k in range(n):
        rng = ctx.rng(label, k)
        sc = Scenario("%s%d" % (label, k))
        og = OpGen(rng, sc, W)
        og.make(1, EngineGen(rng, **dict(opts(rng, k), badrule=.15 if rng.random() < .3 else 0)))
        if rng.random() < .8: og.load(1)
        for _ in range(rng.choice([0, 0, 1, 2, 4, 6])): og.step(1)
        for _ in range(rng.randint(1, 3)):
            s = rng.choice(list(og.eng))
            t = rng.choice([x for x in (1, 2, 3) if x != s])
            og.assemble(s, t, rng.randint(1, 5), rng.random() < .7)
            if rng.random() < .7: sc.export("fll", t)
            for _ in range(rng.randint(1, 5)): og.step(rng.choice(list(og.eng)))
            if rng.random() < .4:
                d = rng.choice([x for x in og.eng if x != t])
                og.delete(d)
                for x in list(og.eng):
                    og.inputs(x)
                    og.process(x)
            for _ in range(rng.randint(0, 3)): og.step(rng.choice(list(og.eng)))
        for x in list(og.eng):
            if rng.random() < .5: og.load(x)
            og.inputs(x)
            og.process(x)
        r.append(sc)
    return r


def E14(ctx):
    """components are copied whole"""
    probe_hedges(ctx)
    ctx.conform("EngineTrace", ["copy", "iso", "dump"] + STAGES + ["load", "restart", "set", "in"],
                parts(ctx, "part", ctx.n(260, 4000), with_noop(kinds)), "copies of components")


def E10(ctx):
    """disabling"""
    probe_hedges(ctx)
    asp = ["trig", "fz", "deg", "mem", "frame", "set", "iso"]
    o = lambda rng, k: dict(kinds(rng, k), disabled=.25)
    graph(ctx, "graph", ctx.n(12, 40), ctx.n(4, 5), TOGGLES, lambda rng, k: dict(o(rng, k), gout=(1, 2), gblocks=(1, 2)),
          asp, nops=5, must=("enin", "enout", "enblock", "enrule"))
    ctx.conform("EngineTrace", asp, scen(ctx, "ena", ctx.n(260, 4000), (6, 14),
                w({"run": 6, "process": 4}, {k: 4 for k in ("enin", "enout", "enblock", "enrule")},
                  {"reloadrule": 1, "weight": 1, "activate": 1, "defuzzify": 1, "restart": 1}), o), "enabling and disabling")


def E11(ctx):
    """loading and unloading rules"""
    probe_hedges(ctx)
    asp = ["load", "err", "set", "trig", "deg", "frame", "say"]
    o = lambda rng, k: dict(kinds(rng, k), badrule=.25, nrules=(1, 4), multi=.4, weights=.5)
    graph(ctx, "graph", ctx.n(10, 32), ctx.n(4, 5), w(LOADS, {"enrule": 2, "weight": 2}), o, asp, nops=5)
    ctx.conform("EngineTrace", asp, scen(ctx, "load", ctx.n(280, 4500), (5, 14),
                w({"run": 6, "process": 2, "say": 12}, {k: 2 * v for k, v in LOADS.items()}, {"weight": 2, "enrule": 2}), o),
                "rules loaded and unloaded")


def bare(rng, k):
    o = dict(kinds(rng, k), noop=rng.choice([0, 0, .1, .3]), bare=.2 if k % 3 == 0 else 0, badrule=.1 if k % 4 == 0 else 0,
             nout=(1, 3), nblocks=(1, 3), nrules=(1, 4), multi=.4)
    if k % 2 == 0: o["df"] = list(o["df"]) + ["none"]
    return o


def E12(ctx):
    """readiness"""
    probe_hedges(ctx)
    ctx.conform("EngineTrace", ["ready", "iso"], scen(ctx, "ready", ctx.n(300, 5000), (8, 20),
                w({"run": 3, "process": 2, "ready": 12}, CONFIG, {k: 3 for k in ("conj", "disj", "impl", "agg", "df")}, LOADS,
                  {"enout": 1, "enblock": 1, "enrule": 1}), bare), "readiness")
    # rules with several conclusions, over outputs of which only some need an implication
    both = lambda rng, k: dict(kinds(rng, 4), noop=rng.choice([.2, .5, .8]), nin=(1, 2), nout=(2, 3), nblocks=(1, 1), nrules=(1, 2), multi=.9)
    ctx.conform("EngineTrace", ["ready", "iso"], scen(ctx, "both", ctx.n(150, 2000), (6, 14),
                w({"run": 1, "ready": 12}, {k: 3 for k in ("impl", "df")}, {"enout": 1, "enrule": 1}), both), "readiness of mixed conclusions")


def E13(ctx):
    """kind of inference"""
    probe_hedges(ctx)
    def opts(rng, k):
        o = bare(rng, k)
        if k % 3 == 0: o["df"] = WEIGHTED if k % 6 else INTEGRAL
        if k % 5 == 1: o["tn"] = ["AlgebraicProduct"]
        if k % 5 == 2: o["tn"] = ["AlgebraicProduct"] * 3 + ["Minimum"]
        o["nrules"] = (0, 1)
        return o
    ctx.conform("EngineTrace", ["type", "iso"], scen(ctx, "type", ctx.n(400, 6000), (8, 20),
                {"type": 10, "df": 4, "impl": 5, "agg": 1, "configure": 1, "enout": 1, "enblock": 1, "rmrule": 1}, opts), "kinds of inference")


def ALL(ctx):
    probe_hedges(ctx)
    asp = STAGES + ["in", "iso", "set", "load", "restart", "copy"]
    ctx.conform("EngineTrace", asp, scen(ctx, "all", ctx.n(300, 5000), (4, 14),
                w(BASE, TOGGLES, CONFIG, VALUES, LOADS, PARTIAL), with_noop(kinds)), "all")


PROPS = {f.__name__: f for f in (E01, E02, E03, E04, E05, E06, E07, E08, E09, E10, E11, E12, E13, E14, ALL)}
