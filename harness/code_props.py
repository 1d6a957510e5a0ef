"""Checks of engines written as programs (specification: Code.tla): the text of C++, Java and R, and the engines
that compiled C++ builds."""
import hashlib, os, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
import fv
from gen import *
from engine_props import probe_hedges, kinds, w, BASE, TOGGLES, CONFIG, VALUES, LOADS
from text_props import prose, everything, both, adopt, fine
from dataset_props import Tables, small, text

ODD = ['say "hi"', "back\\slash", "two\nlines", '"', "\\", 'a\\"b', "tab\\t", "nan", "inf"]


def oddities(sc, s, e, rng):
    sc.line("meta", s, rng.choice(ODD), rng.choice(ODD))
    for side, vs in (("in", e.ins), ("out", e.outs), ("block", e.blocks)):
        for i in range(len(vs)):
            if rng.random() < .3: sc.line("desc", s, side, i + 1, rng.choice(ODD))


def settle(e):
    """linear terms of inputs do without coefficients (they are created before the engine has all its inputs)"""
    for v in e.ins:
        for t in v["terms"]:
            if t["k"] == "Linear": t["p"] = [F(1, 2)]


def texts(ctx, label, n):
    r = []
    for k in range(n):
        rng = ctx.rng(label, k)
        o = everything(rng, k)
        o.update(badrule=.1 if k % 3 == 0 else 0, nblocks=(0, 2), nout=(0, 3), nin=(0, 3)) if k % 4 == 0 else None
        if k % 4 == 0: o.update(chain=0, hedges=0)
        sc = Scenario("%s%d" % (label, k))
        e = EngineGen(rng, **o)
        if k % 4 == 0:
            for b in e.blocks: b["rules"] = b["rules"] if rng.random() < .5 else []
        if k % 2: fine(e, rng)
        named = rng.random() < .3
        if named:
            # (names that rules have no use for)
            for v in e.ins + e.outs:
                if rng.random() < .5: v["name"] = rng.choice(["a b", "x-1", "%", "1st", "_z", 'q"', "a.b"]) + rng.choice(["", "2"])
                for t in v["terms"]:
                    if rng.random() < .3: t["name"] = rng.choice(["a b", "x-1", "nan", "infinite", 'q"t', "\\"])
        og = OpGen(rng, sc, w(BASE, TOGGLES, CONFIG, LOADS))
        og.make(1, e)
        (oddities if rng.random() < .5 else metadata)(sc, 1, e, rng)
        if not named and e.blocks:
            if rng.random() < .5: og.load(1)
            if e.ins and e.outs:
                for _ in range(rng.randint(0, 3)): og.step(1)
        for lang in ("cpp", "java", "cpp"):
            sc.export(lang, 1, rng.choice([3, 3, 1, 2, 4, 6, 0] if k % 2 == 0 else [1, 2, 3, 3, 4, 5]), ns=rng.random() < .5, own=rng.random() < .5)
        r.append(sc)
    return r


def metadata(sc, s, e, rng):
    sc.line("meta", s, prose(rng) if rng.random() < .6 else "engine", prose(rng) if rng.random() < .5 else "")
    for side, vs in (("in", e.ins), ("out", e.outs), ("block", e.blocks)):
        for i in range(len(vs)):
            if rng.random() < .3: sc.line("desc", s, side, i + 1, prose(rng))


def compiled(ctx, label, n):
    """scenarios whose exported programs are compiled, run and evaluated next to their engines"""
    r = []
    for k in range(n):
        rng = ctx.rng(label, k)
        o = everything(rng, k)
        o.update(badrule=0, nblocks=(1, 2))
        sc = Scenario("%s%d" % (label, k))
        e = EngineGen(rng, **o)
        settle(e)
        for b in e.blocks:
            if rng.random() < .2: b["name"] = ""
        exact = k % 3 > 0
        if not exact: fine(e, rng)
        og = OpGen(rng, sc, w(BASE, TOGGLES, CONFIG, VALUES, LOADS))
        og.make(1, e)
        (oddities if k % 4 == 0 else metadata)(sc, 1, e, rng)
        if rng.random() < .8: og.load(1)
        if exact:
            for _ in range(rng.randint(0, 4)): og.step(1)
        sc.marks = [len(sc.lines)]
        src = sc.export("cpp", 1, rng.choice([3, 3, 4, 6]) if exact else rng.choice([1, 2, 3, 5]), ns=k % 2 == 0, own=rng.random() < .5)
        sc.source = src[0]
        sc.key = sc.id
        sc.cut = len(sc.lines)
        sc.compiled(sc.key, 2, src)
        adopt(og, 1, 2)
        if exact:
            both(og, rng, sc, (1, 2))
            for _ in range(rng.randint(0, 3)): og.step(rng.choice((1, 2)))
            both(og, rng, sc, (2, 1))
        r.append(sc)
    return r


UNIT = """#include <fuzzylite/Headers.h>
#include <map>
#include <string>
std::map<std::string, fl::Engine* (*)()>& generated();
"""


def unit(key, code):
    f = "build_" + "".join(c if c.isalnum() else "_" for c in key)
    return "static fl::Engine* %s() {\n%s\nreturn engine;\n}\nstatic bool did_%s = (generated()[\"%s\"] = &%s, true);\n" % (f, code, f, key, f)


def compile_programs(ctx, programs):
    """an executable with the programs {key: code} linked in, and the keys of those that do not compile"""
    d = os.path.join(fv.scratch(), "programs")
    os.makedirs(d, exist_ok=True)
    flags = ["g++", "-std=c++11", "-O0", "-g0", "-w", "-I" + fv.REPO]

    def cc(name, keys):
        src, obj = os.path.join(d, name + ".cpp"), os.path.join(d, name + ".o")
        with open(src, "w") as fh: fh.write(UNIT + "".join(unit(k, programs[k]) for k in keys))
        p = subprocess.run(flags + ["-c", src, "-o", obj], capture_output=True, text=True, errors="replace")
        return obj if p.returncode == 0 else None, p.stderr
    keys = sorted(programs)
    parts = [keys[i::fv.NCPU] for i in range(fv.NCPU) if keys[i::fv.NCPU]]
    objs, bad = [], {}
    with ThreadPoolExecutor(fv.NCPU) as ex:
        for part, (obj, err) in zip(parts, ex.map(lambda x: cc("part%d" % x[0], x[1]), enumerate(parts))):
            if obj: objs.append(obj)
            else:
                alone = list(ex.map(lambda k: (k,) + cc("one-" + hashlib.sha256(k.encode()).hexdigest()[:12], [k]), part))
                for k, o, er in alone:
                    if o: objs.append(o)
                    else: bad[k] = er[-2000:]
    exe = os.path.join(d, "driver")
    p = subprocess.run(["g++"] + fv.objects() + objs + ["-o", exe, "-lpthread"], capture_output=True, text=True)
    if p.returncode: raise fv.MachineryError("cannot link:\n" + p.stderr[-3000:])
    return exe, bad


def X06(ctx):
    """programs"""
    probe_hedges(ctx)
    ctx.conform("EngineTrace", ["text", "dump"], texts(ctx, "code", ctx.n(120, 2500)), "the text of programs in C++ and Java")
    for turn in range(ctx.n(1, 12)):
        scs = compiled(ctx, "prog%d-" % turn, 112)
        res = fv.drive(ctx.exe, [s.lines[:s.cut] for s in scs])
        progs, live = {}, []
        for s, (ans, died) in zip(scs, res):
            if died is not None:
                ctx.violation("the library did not survive scenario %s (%s)" % (s.id, died), {"script": s.lines[:s.cut], "died": died})
            elif ans[s.source]["e"]:
                ctx.violation("engine of scenario %s could not be exported" % s.id, {"script": s.lines[:s.cut]})
            else:
                progs[s.key] = ans[s.source]["text"]
                live.append(s)
        exe, bad = compile_programs(ctx, progs)
        for k in sorted(bad)[:3]:
            ctx.violation("the program exported in scenario %s does not compile" % k, {"program": progs[k], "errors": bad[k]})
        plain, ctx.exe = ctx.exe, exe
        ctx.conform("EngineTrace", ["compiled", "iso"] + STAGES_ALL, [s for s in live if s.key not in bad], "engines built by compiled programs")
        ctx.exe = plain
        ctx.parts.append({"part": "programs compiled", "kind": "compilation", "programs": len(progs), "refused": len(bad)})
    ctx.conform("EngineTrace", ["rscript"], scripts(ctx, "r", ctx.n(80, 1500)), "scripts for R")


STAGES_ALL = ["deg", "adj", "trig", "fz", "ival", "wval", "mem", "err", "frame"]


def scripts(ctx, label, n):
    r = []
    for k in range(n):
        o = small(ctx.rng(label, "o", k), k)
        mode = ["grid", "read", "grid", "file", "default"][k % 5]
        o.update(nout=(1, 3))
        if mode == "default": o.update(nin=(1, 2), nblocks=(1, 1), nrules=(1, 2))
        t = Tables(ctx, label, k, o)
        rng, sc = t.rng, t.sc
        nin, nout = len(t.e.ins), len(t.e.outs)
        if mode == "default": mode = "grid"
        a = rng.randrange(nin)
        b = rng.randrange(nin)
        na = len({a, b})
        per = rng.choice([1, 2, 2, 3, 4])
        if mode == "grid": t.divisions(per)
        t.warm(rng.randint(0, 3))
        if mode == "grid": t.divisions(per)
        if rng.random() < .8: metadata(sc, 1, t.e, rng)
        t.split()
        act = [i in (a, b) for i in range(nin)]
        zs = [rng.randrange(nout) for _ in range(rng.randint(1, 2))] if rng.random() < .5 else list(range(nout))
        colors = rng.choice([None, None, "blue green white"])
        m = {"op": "rscript", "mode": mode, "sep": " ", "hd": True, "oi": True, "oo": True, "d": 3, "a": a + 1, "b": b + 1,
             "zs": [z + 1 for z in zs], "colors": (colors or "yellow red black").split(), "file": "", "active": act}
        args = (rng.choice(["string", "file"]), mode, a + 1, b + 1, "".join(str(z + 1) for z in zs), colors or "*")
        j = sc.line("dump", 3)
        u = sc.line("rusual", 3)
        looked = []
        if mode == "grid":
            scope = rng.choice(["all", "each"])
            # (values for all: as many per variable as fit, whatever the number of active ones)
            top = (per + 1) ** nin - 1
            n_ = per if scope == "each" else rng.randint(per ** nin, top)
            m.update(n=n_, scope=scope)
            looked = [t.evaluate(x) for x in t.digits(per, act)]
            line = sc.line("rscript", 3, *(args + (n_, scope)))
        elif mode == "read":
            txt, rows = t.table(rng.randint(1, 5), -1)
            looked = [None if x is None else t.evaluate(x) for x in rows]
            m["text"] = txt
            line = sc.line("rscript", 3, *(args + (txt,)))
        else:
            m["file"] = "/a/b c.fld"
            line = sc.line("rscript", 3, *(args + (m["file"],)))

        def fill(m, ans, j=j, line=line, u=u):
            m["dump"] = ans[j].get("dump", {})
            m["out"] = ans[line].get("out", "")
            m["lib"] = ans[line].get("lib", ["", ""])
            m["usual"] = ans[u].get("usual", False)
        line_fill(t, m, line, looked, fill)
        r.append(sc)
    return r


def line_fill(t, m, line, looked, fill):
    sc = t.sc
    o = sc.line("obs", 0)

    def fills(m, ans):
        outs = [[x["val"] for x in ans[k]["obs"][1]["outs"]] if k is not None else [] for k in looked]
        m["rows"] = [{"blank": k is None, "o": y, "x": [x["val"] for x in ans[k]["obs"][1]["ins"]] if k is not None else []}
                     for k, y in zip(looked, outs)]
        fill(m, ans)
    sc.fills[len(sc.steps)] = fills
    sc.steps.append((dict(m, s=3, t=2), line, o))


PROPS = {"X06": X06}
