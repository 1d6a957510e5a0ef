"""Checks of the command-line tool (specification: Console.tla)."""
import os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import fv
from gen import *
from engine_props import kinds
from text_props import everything
from parts_props import Parts

MAMDANI = """Engine: simple-dimmer
InputVariable: ambient
  enabled: true
  range: 0.000 1.000
  lock-range: false
  term: DARK Triangle 0.000 0.250 0.500
  term: MEDIUM Triangle 0.250 0.500 0.750
  term: BRIGHT Triangle 0.500 0.750 1.000
OutputVariable: power
  enabled: true
  range: 0.000 2.000
  lock-range: false
  aggregation: Maximum
  defuzzifier: Centroid 200
  default: nan
  lock-previous: false
  term: LOW Triangle 0.000 0.500 1.000
  term: MEDIUM Triangle 0.500 1.000 1.500
  term: HIGH Triangle 1.000 1.500 2.000
RuleBlock: 
  enabled: true
  conjunction: none
  disjunction: none
  implication: Minimum
  activation: General
  rule: if ambient is DARK then power is HIGH
  rule: if ambient is MEDIUM then power is MEDIUM
  rule: if ambient is BRIGHT then power is LOW
"""
TAKAGI = """Engine: approximation
  description: approximation of sin(x)/x
InputVariable: inputX
  description: value of x
  enabled: true
  range: 0.000 10.000
  lock-range: false
""" + "".join("  term: NEAR_%d Triangle %d.000 %d.000 %d.000\n" % (i, i - 1, i, i + 1) for i in range(1, 10)) + """OutputVariable: outputFx
  description: value of the approximation of x
  enabled: true
  range: -1.000 1.000
  lock-range: false
  aggregation: none
  defuzzifier: WeightedAverage Automatic
  default: nan
  lock-previous: true
""" + "".join("  term: f%d Constant %s\n" % (i + 1, c) for i, c in enumerate(
    "0.840 0.450 0.040 -0.180 -0.190 -0.040 0.090 0.120 0.040".split())) + """OutputVariable: trueValue
  description: value of f(x)=sin(x)/x
  enabled: true
  range: -1.060 1.000
  lock-range: false
  aggregation: none
  defuzzifier: WeightedAverage Automatic
  default: nan
  lock-previous: true
  term: fx Function sin(inputX)/inputX
OutputVariable: difference
  description: error e=f(x) - f'(x)
  enabled: true
  range: -1.000 1.000
  lock-range: false
  aggregation: none
  defuzzifier: WeightedAverage Automatic
  default: nan
  lock-previous: false
  term: error Function outputFx-trueValue
RuleBlock: 
  enabled: true
  conjunction: none
  disjunction: none
  implication: AlgebraicProduct
  activation: General
""" + "".join("  rule: if inputX is NEAR_%d then outputFx is f%d\n" % (i, i) for i in range(1, 10)) + \
    "  rule: if inputX is any then trueValue is fx and difference is error\n"
# an engine that counts its evaluations
COUNTER = """Engine: counter
InputVariable: x
  enabled: true
  range: 0.000 1.000
  lock-range: false
  term: a Triangle 0.000 0.500 1.000
OutputVariable: y
  enabled: true
  range: 0.000 100.000
  lock-range: false
  aggregation: none
  defuzzifier: WeightedAverage Automatic
  default: 1.000
  lock-previous: true
  term: more Function x + y
RuleBlock: 
  enabled: true
  conjunction: none
  disjunction: none
  implication: none
  activation: General
  rule: if x is any then y is more
"""


# an engine whose second output depends on the first
CHAINED = MAMDANI.replace("RuleBlock: \n", """OutputVariable: inverse
  enabled: true
  range: 0.000 1.000
  lock-range: false
  aggregation: Maximum
  defuzzifier: Centroid 100
  default: 0.500
  lock-previous: false
  term: LOW Triangle 0.000 0.250 0.500
  term: HIGH Triangle 0.500 0.750 1.000
RuleBlock: 
""") + "  rule: if power is HIGH then inverse is LOW\n  rule: if power is LOW then inverse is HIGH\n"
EXAMPLES = ["mamdani/" + x for x in ("AllTerms SimpleDimmer Laundry ObstacleAvoidance SimpleDimmerChained SimpleDimmerInverse "
            "matlab/mam21 matlab/mam22 matlab/shower matlab/tank matlab/tank2 matlab/tipper matlab/tipper1 "
            "octave/investment_portfolio octave/mamdani_tip_calculator").split()] + \
           ["takagi-sugeno/" + x for x in ("approximation ObstacleAvoidance SimpleDimmer matlab/fpeaks matlab/invkine1 "
            "matlab/invkine2 matlab/juggler matlab/membrn1 matlab/membrn2 matlab/slbb matlab/slcp matlab/slcp1 matlab/slcpp1 "
            "matlab/sltbu_fl matlab/sugeno1 matlab/tanksg matlab/tippersg octave/cubic_approximator octave/heart_disease_risk "
            "octave/linear_tip_calculator octave/sugeno_tip_calculator").split()] + \
           ["tsukamoto/tsukamoto", "hybrid/tipper", "hybrid/ObstacleAvoidance"]
FORMATS = ["fll", "fcl", "fis", "cpp", "java", "R", "fld"]
# (the ones that need not be read back from FIS)
FREE = ["mamdani/Laundry", "mamdani/SimpleDimmerInverse", "mamdani/SimpleDimmerChained", "hybrid/tipper", "hybrid/ObstacleAvoidance"]


def tool(ctx):
    """the command-line tool, built from the tree"""
    d = os.path.join(fv.scratch(), "tool")
    os.makedirs(d, exist_ok=True)
    obj, exe = os.path.join(d, "main.o"), os.path.join(d, "fuzzylite")
    p = subprocess.run(fv.CXX + ["-c", os.path.join(fv.REPO, "src/main.cpp"), "-o", obj], capture_output=True, text=True)
    if p.returncode == 0:
        p = subprocess.run(["g++"] + fv.library() + [obj, "-o", exe, "-lpthread"], capture_output=True, text=True)
    if p.returncode: raise fv.MachineryError("cannot build the tool:\n" + p.stderr[-3000:])
    return exe


class Run(object):
    """one run of the tool, in a folder of its own"""
    def __init__(self, args, files, keys="", out="", extra=None):
        self.args, self.files, self.keys, self.out = args, files, keys, out

    def go(self, exe, d):
        os.makedirs(d)
        for n, t in self.files.items():
            with open(os.path.join(d, n), "w", newline="") as fh: fh.write(t)
        try:
            p = subprocess.run([exe] + self.args, input=self.keys.encode(), capture_output=True, timeout=60, cwd=d,
                               env=dict(os.environ, LC_ALL="C", MALLOC_PERTURB_="165"))
            self.exit, self.stdout = p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            self.exit, self.stdout = "timeout", ""
        def read(n):
            try:
                with open(os.path.join(d, n), newline="", errors="replace") as fh: return fh.read()
            except OSError: return None
        self.kept = all(read(n) == t for n, t in self.files.items() if n != self.out)
        self.written = (read(self.out) if self.out else None) or ""
        shutil.rmtree(d)

    def answer(self):
        return {"args": self.args, "files": [{"name": n, "text": t} for n, t in sorted(self.files.items()) if n != self.out],
                "keys": self.keys, "exit": self.exit if isinstance(self.exit, int) else -99, "stdout": self.stdout,
                "written": self.written, "kept": self.kept}


class ExamplesRun(Run):
    """a run that exports all the examples from one folder to another"""
    def __init__(self, texts):
        Run.__init__(self, ["export-examples", "from", "to/"], texts)

    def go(self, exe, d):
        for e in EXAMPLES:
            for o in ("from", "to"): os.makedirs(os.path.join(d, o, os.path.dirname(e)), exist_ok=True)
        def read(*n):
            try:
                with open(os.path.join(d, *n), newline="", errors="replace") as fh: return fh.read()
            except OSError: return None
        for n, t in self.files.items():
            with open(os.path.join(d, "from", n + ".fll"), "w", newline="") as fh: fh.write(t)
        try:
            p = subprocess.run([exe] + self.args, stdin=subprocess.DEVNULL, capture_output=True, timeout=120, cwd=d,
                               env=dict(os.environ, LC_ALL="C", MALLOC_PERTURB_="165"))
            self.exit = p.returncode
        except subprocess.TimeoutExpired:
            self.exit = -99
        self.made = {(f, e): read("to", e + "." + f) for f in FORMATS for e in EXAMPLES}
        self.kept = all(read("from", n + ".fll") == t for n, t in self.files.items())
        shutil.rmtree(d)


class Asked(Parts):
    """runs of the tool next to what the library answers"""
    def __init__(self, sid):
        Parts.__init__(self, sid)
        self.runs = []

    def refused(self, run):
        """a run that is to fail, or to explain the usage, before the library is asked for anything"""
        self.runs.append(run)
        self.steps.append((run, None, None))

    def convert(self, run, **key):
        k = {"mode": "text", "hd": True, "oi": True, "data": "", "n": 0, "scope": ""}
        k.update(key)
        if k["mode"] == "text": q = self.line("toolconv", k["d"], k["inf"], k["outf"], k["text"])
        elif k["mode"] == "data": q = self.line("tooltab", k["d"], k["inf"], int(k["hd"]), int(k["oi"]), "data", k["data"], k["text"])
        else: q = self.line("tooltab", k["d"], k["inf"], int(k["hd"]), int(k["oi"]), "values", k["n"], k["scope"], k["text"])
        self.runs.append(run)
        self.steps.append((run, k, [q]))

    def session(self, run, evals, **key):
        k = {"mode": "keys", "hd": True, "oi": True, "data": "", "n": 0, "scope": ""}
        k.update(key)
        qs = [self.line("toolopen", 1, k["d"], k["inf"], int(k["oi"]), k["text"])]
        for op, x in evals: qs.append(self.line("toolproc", 1, k["d"], *x) if op == "process" else self.line("toolrestart", 1, k["d"]))
        self.runs.append(run)
        self.steps.append((run, k, [evals] + qs))

    def table(self, run, bad, pairs, runs):
        qs = [self.line("toolbench", runs, a, b) for a, b in pairs]
        self.runs.append(run)
        self.steps.append((run, "table", [bad] + qs))

    def examples(self, run, bad):
        qs = {}
        if not bad:
            for t in set(run.files.values()):
                for f in FORMATS:
                    if f == "fld": qs[f, t] = self.line("tooltab", 9, "fll", 1, 1, "values", 1024, "AllVariables", t)
                    elif f != "R": qs[f, t] = self.line("toolconv", 3, "fll", f, t)
            for e, t in run.files.items(): qs["R", e] = self.line("toolframe", 3, e.split("/")[-1], t)
        self.runs.append(run)
        self.steps.append((run, "examples", [bad, qs]))

    def trace(self, ans):
        st = []
        examples = {"mamdani": MAMDANI, "takagi": TAKAGI}
        for run, key, qs in self.steps:
            if key == "examples":
                bad, a = qs[0], {k: ans[q] for k, q in qs[1].items()}
                bad = bad or any(x["e"] for x in a.values())
                lib = lambda f, e: a["R", e] if f == "R" else a[f, run.files[e]]
                st.append({"op": "examples", "exit": run.exit, "kept": run.kept, "bad": bad, "e": False, "made": [] if bad else [
                    {"format": f, "files": [{"name": e + "." + f, "there": run.made[f, e] is not None, "text": run.made[f, e] or "",
                                             "lib": lib(f, e)["text"]} for e in EXAMPLES]} for f in FORMATS]})
                continue
            d = dict(run.answer(), op="tool", examples=examples, evals=[], start=[], header="", lib="", le=False, key={}, e=False)
            if key == "table":
                a = [ans[q] for q in qs[1:]]
                bad = qs[0] or any(x["e"] for x in a)
                d = {"op": "table", "args": run.args, "exit": d["exit"], "written": run.written, "bad": bad, "e": False,
                     "rows": [] if bad else [x["row"] for x in a], "columns": [] if bad else a[0]["columns"]}
            elif key is not None:
                d["key"] = key
                if key["mode"] == "keys":
                    o = ans[qs[1]]
                    d["le"] = bool(o["e"])
                    if not o["e"]:
                        d["start"], d["header"] = o["ins"], o["header"]
                        for (op, x), q in zip(qs[0], qs[2:]):
                            y = ans[q]
                            d["evals"].append({"op": op, "x": x, "ins": y["ins"], "o": y.get("o", []), "e": bool(y.get("bad", False))})
                else:
                    y = ans[qs[0]]
                    d["le"], d["lib"] = bool(y["e"]), y.get("text", "")
            st.append(d)
        return {"id": self.id, "steps": st}


def sources(ctx, n):
    """texts of engines: {format: [(text, inputs)]}"""
    scs, eng = [], []
    for k in range(n):
        rng = ctx.rng("source", k)
        o = dict(everything(rng, k), nin=(1, 3), nblocks=(1, 2), nrules=(1, 3), res=[2, 4], badrule=0, noop=0)
        sc = Scenario("s%d" % k)
        e = EngineGen(rng, **o)
        og = OpGen(rng, sc, {})
        og.make(1, e)
        og.load(1)
        sc.at = [sc.line("export", f, 1) for f in ("fll", "fis", "fcl")]
        sc.n = len(e.ins)
        scs.append(sc)
    r = {"fll": [], "fis": [], "fcl": []}
    for sc, (ans, died) in zip(scs, fv.drive(ctx.exe, [s.lines for s in scs])):
        if died is not None: continue
        for f, q in zip(("fll", "fis", "fcl"), sc.at):
            if not ans[q]["e"]: r[f].append((ans[q]["text"], sc.n))
    r["fll"] += [(MAMDANI, 1), (TAKAGI, 1)]
    return r


NUMBERS = ["0", "1", "0.5", ".25", "-1", "2.75", "1e-1", "nan", "inf", "-inf", "+3", "0.125", "7", "0.3", "0.7"]


def typing(rng, n):
    """keys and the evaluations they ask for"""
    keys, evals, given, typed = "", [], [], ""
    def end():
        evals.append(("process", list(given)))
        given[:] = []
    def blank(c):
        nonlocal typed
        given.append(typed if typed and good(typed) else "")
        typed = ""
        if len(given) == n: end()
        return c
    def good(t):
        try: float(t)
        except ValueError: return False
        return t not in ("-nan",)
    for _ in range(rng.randint(1, 12)):
        c = rng.random()
        if c < .62:
            t = rng.choice(NUMBERS)
            keys += t
            typed += t
            if rng.random() < .92: keys += blank(rng.choice("  \n\t"))
        elif c < .70:
            t = rng.choice(["x", "1.2.3", "-", "abc", "5x", "0,5", "", "=", "\x01", "/"])
            keys += t
            typed += t.replace("\x01", "")
            keys += blank(rng.choice(" \n"))
        elif c < .80:
            keys += rng.choice("pP")
            end()
            typed = ""
        elif c < .87:
            if rng.random() < .5: keys += rng.choice(NUMBERS)
            keys += rng.choice("dD")
            given[:] = []
            typed = ""
        elif c < .94:
            if rng.random() < .4: keys += rng.choice(NUMBERS)
            keys += rng.choice("rR")
            evals.append(("restart", []))
            given[:] = []
            typed = ""
        else:
            if rng.random() < .5: keys += rng.choice(NUMBERS)
            keys += rng.choice("hH")
            typed = ""
    if rng.random() < .4:
        keys += rng.choice("qQ") + rng.choice(["", "1 2 3 p", "p"])
    return keys, evals


def conversions(ctx, src, n):
    r = []
    for k in range(n):
        rng = ctx.rng("run", k)
        sc = Asked("run%d" % k)
        for _ in range(6):
            inf = rng.choice(["fll", "fll", "fis", "fcl"])
            text, nin = rng.choice(src[inf])
            if rng.random() < .06: text, nin = text[:rng.randint(1, len(text))], 0
            c = rng.random()
            example = None
            files, args = {}, []
            if c < .15:
                example = rng.choice(["m", "mamdani", "t", "ts", "takagi-sugeno"])
                inf, text = "fll", MAMDANI if example[0] == "m" else TAKAGI
                nin = 1
                args.append(["-example", example])
            outf = rng.choice(["fll", "fld", "fcl", "fis", "cpp", "java", "fld", "fld"])
            single = c > .88
            name = rng.choice(["engine", "a.b", "my_engine-1"])
            iname = name + "." + inf if single or rng.random() < .6 else rng.choice(["engine.txt", "engine", "x.fll.bak", "x.fis"])
            oname = "out." + outf if single or rng.random() < .6 else rng.choice(["result.txt", "result", "out.fll", "out.fld", "out.fis." + outf, "v1.0." + outf])
            tostd = not single and rng.random() < .08 and outf not in ("fld",)
            if not example:
                files[iname] = text
                args.append(["-i", iname])
                if iname.split(".")[-1] != inf or "." not in iname or rng.random() < .2: args.append(["-if", inf])
            elif rng.random() < .3: args.append(["-i", "none.fis"])
            if example and rng.random() < .3: args.append(["-if", rng.choice(["fis", "fcl", "xml"])])
            if not tostd: args.append(["-o", oname])
            if tostd or "." not in oname or oname.split(".")[-1] != outf or rng.random() < .2: args.append(["-of", outf])
            d = 3
            if not single and rng.random() < .4:
                d = rng.choice([3, 4, 5, 6] if example else [1, 2, 3, 4, 5, 6, 0])
                args.append(["-decimals", rng.choice(["%d", "%d", "%d.0"]) % d])
            key = dict(text=text, inf=inf, outf=outf, d=d)
            keys = ""
            if outf == "fld":
                mode = "keys" if single else rng.choice(["data", "values", "values", "keys", "keys"])
                key.update(mode=mode, oi=True, hd=True)
                if not single and rng.random() < .3:
                    x = rng.choice(["true", "false", "no", "True"])
                    args.append(["-dinputs", x])
                    key["oi"] = x == "true"
                if not single and rng.random() < .3:
                    x = rng.choice(["true", "false", "1"])
                    args.append(["-dheader", x])
                    key["hd"] = x == "true" or mode == "keys"
                if mode == "data":
                    rows = ["\t".join(rng.choice(NUMBERS) for _ in range(max(1, nin + rng.choice([0, 0, 0, 0, 1, -1] if rng.random() < .2 else [0])))) for _ in range(rng.randint(0, 5))]
                    if rng.random() < .2: rows.insert(0, "# comment")
                    if rng.random() < .1: rows.append("a b c")
                    data = "".join(x + "\n" for x in rows)
                    files["data.fld"] = data
                    args.append(["-d", "data.fld"])
                    key["data"] = data
                    if rng.random() < .2: args.append(["-values", "3"])
                elif mode == "values":
                    m = rng.choice([1, 2, 3, 4, 8, 9, 10])
                    args.append(["-values", str(m)])
                    key.update(n=m, scope="EachVariable")
                    if rng.random() < .6:
                        key["scope"] = rng.choice(["EachVariable", "AllVariables"])
                        args.append(["-scope", key["scope"]])
            bad = rng.random() < .22
            if not bad:
                if rng.random() < .6: rng.shuffle(args)
                if not single and rng.random() < .1:
                    a = rng.choice(args)
                    args.insert(0, [a[0], "other"])
                flat = sum(args, [])
                if single and not example: flat = [iname, oname]
                elif len(args) < 2: continue
                if key.get("mode") == "keys":
                    keys, evals = typing(rng, max(1, nin))
                    if nin == 0: continue
                    sc.session(Run(flat, files, keys, "" if tostd else oname), evals, **key)
                else: sc.convert(Run(flat, files, keys, "" if tostd else oname), **key)
            else:
                def drop(k): return [a for a in args if a[0] != k]
                b = rng.randrange(14)
                if b == 0: flat = sum(args, [])[:-1] if len(args) > 1 else ["a", "b", "c"]
                elif b == 1: flat = sum(args + [[rng.choice(["-x", "-decimal", "-I", "input", "--help"]), "1"]], [])
                elif b == 2: flat = sum(drop("-decimals") + [["-decimals", rng.choice(["x", "", "3x"])]], [])
                elif b == 3 and not example: flat = sum(drop("-i") + [["-i", "absent." + inf]], [])
                elif b == 4 and not example: flat = sum(drop("-if") + [["-if", rng.choice(["cpp", "FLL", "fld", "xml"])]], [])
                elif b == 5: flat = sum(drop("-of") + [["-of", rng.choice(["FLL", "R", "txt", "xml"])]], [])
                elif b == 6: flat = sum(drop("-example") + [["-example", rng.choice(["x", "tipper", "", "M"])]], [])
                elif b == 7: flat = sum(drop("-of") + [["-of", "fld"], ["-d", "absent.fld"]], [])
                elif b == 8:
                    flat = sum([a for a in args if a[0] not in ("-of", "-d", "-values", "-scope")]
                               + [["-of", "fld"], ["-values", "x" if rng.random() < .5 else "4"], ["-scope", "each"]], [])
                elif b == 10 and not example: flat = sum(drop("-i"), [])
                elif b == 11 and not example:
                    flat = sum([a for a in args if a[0] not in ("-i", "-if")] + [["-i", "plain"]], [])
                    files["plain"] = text
                elif b == 12: flat = sum([a for a in args if a[0] not in ("-o", "-of")] + rng.choice([[["-o", "result"]], []]), [])
                elif b == 13: flat = sum(drop("-o") + [["-o", "absent/" + oname]], [])
                else: flat = rng.choice([[], ["-i"], ["help"]])
                if len(args) < 2 and b not in (0, 9) or len(flat) == 2 and flat[0][0] != "-": continue
                sc.refused(Run(flat, files, "", "" if tostd else oname))
        r.append(sc)
    # the outputs shown are those of one evaluation, also for engines that refer to their own outputs
    sc = Asked("counter")
    for text in (COUNTER,):
        for keys, evals in (("1 1 1 ", [("process", ["1"])] * 3), ("1 r0.5 p", [("process", ["1"]), ("restart", []), ("process", ["0.5"]), ("process", [])]),
                            ("1h2 3 ", [("process", ["2"]), ("process", ["3"])]), ("1r0 pp", [("restart", []), ("process", ["0"]), ("process", []), ("process", [])])):
            sc.session(Run(["e.fll", "o.fld"], {"e.fll": text}, keys, "o.fld"), evals, text=text, inf="fll", outf="fld", d=3)
    r.append(sc)
    return r


def tables(ctx, src, n):
    r = []
    for k in range(n):
        rng = ctx.rng("table", k)
        sc = Asked("table%d" % k)
        for _ in range(2):
            pairs, files = [], {}
            for i in range(rng.randint(1, 3)):
                text, nin = rng.choice(src["fll"])
                nout = text.count("OutputVariable:")
                rows = [" ".join(rng.choice(["0", "1", "0.5", "0.25", "nan"]) for _ in range(nin + nout)) for _ in range(rng.randint(1, 4))]
                data = "".join(x + "\n" for x in rows)
                pairs.append((text, data))
                files["e%d.fll" % i], files["d%d.fld" % i] = text, data
            names = [("e%d.fll" % i, "d%d.fld" % i) for i in range(len(pairs))]
            if rng.random() < .4:
                # (the same data for two engines)
                pairs.insert(1, pairs[0])
                names.insert(1, names[0])
            runs = rng.choice([1, 2, 3])
            many = rng.random() < .5
            bad = rng.random() < .2
            if many:
                fl, dl = [], []
                for i in range(len(pairs)):
                    if rng.random() < .3:
                        x = rng.choice(["# not this", "", "  ", "#e0.fll"])
                        fl.append(x)
                        dl.append(rng.choice(["", x, "d0.fld"]))
                    fl.append(rng.choice(["%s", " %s", "%s  "]) % names[i][0])
                    dl.append(rng.choice(["%s", "%s\t"]) % names[i][1])
                files["engines.txt"], files["data.txt"] = "\n".join(fl) + "\n", "\n".join(dl) + rng.choice(["\n", ""])
                args = ["benchmarks", "engines.txt", "data.txt", str(runs), "out.tsv"]
            else:
                pairs = pairs[:1]
                args = ["benchmark", "e0.fll", "d0.fld", str(runs), "out.tsv"]
            if bad:
                c = rng.randrange(3)
                if c == 0: args = args[:rng.choice([2, 3])]
                elif c == 1: args[rng.choice([1, 2])] = "absent"
                else: args[3] = "many"
            sc.table(Run(args, files, "", "out.tsv"), bad, pairs, runs)
        r.append(sc)
    return r


def collections_of_examples(ctx, n):
    r = []
    for k in range(n):
        rng = ctx.rng("examples", k)
        sc = Asked("examples%d" % k)
        # (few engines, so that their tables are made once, each under several names)
        def renamed(text, i): return text.replace("ambient", "in%d" % i).replace("0.250", rng.choice(["0.200", "0.125", "0.250"]))
        pool = [renamed(MAMDANI, 1), renamed(MAMDANI, 2), TAKAGI]
        texts = {e: rng.choice(pool) for e in EXAMPLES}
        for e in FREE: texts[e] = renamed(CHAINED, 3) if rng.random() < .7 else rng.choice(pool)
        bad = k % 4 == 3
        if bad:
            e = rng.choice(EXAMPLES)
            if rng.random() < .5: del texts[e]
            else: texts[e] = texts[e].replace("Triangle", "Trangle", 1)
        sc.examples(ExamplesRun(texts), bad)
        r.append(sc)
    return r


def K01(ctx):
    """the command-line tool"""
    exe = tool(ctx)
    src = sources(ctx, ctx.n(40, 250))
    scs = conversions(ctx, src, ctx.n(220, 2500)) + tables(ctx, src, ctx.n(25, 200)) + collections_of_examples(ctx, ctx.n(4, 16))
    runs = [x for s in scs for x in s.runs]
    d = os.path.join(fv.scratch(), "runs")
    with ThreadPoolExecutor(fv.NCPU) as ex:
        list(ex.map(lambda x: x[1].go(exe, os.path.join(d, str(x[0]))), enumerate(runs)))
    ctx.conform("PartsTrace", ["exit", "output", "files", "keys", "table"], scs, "runs of the command-line tool")


PROPS = {"K01": K01}
