"""Shared machinery of the checks: build, drive, check traces with TLC, report."""
import json, os, re, shutil, subprocess, sys, time, hashlib, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FV_REPO", "/repo")
BUILD = os.environ.get("FV_BUILD", os.path.join(VERIF, ".build"))
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = os.cpu_count() or 4
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
COMMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = ["g++", "-std=c++11", "-O1", "-g0", "-w", "-I" + REPO, "-DFL_BUILD_PATH=\"/verif\""]


class MachineryError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def scratch():
    d = os.path.join(BUILD, "run-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def cleanup():
    d = os.path.join(BUILD, "run-%d" % os.getpid())
    if os.path.isdir(d):
        shutil.rmtree(d, ignore_errors=True)


def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def _headers():
    r = glob.glob(REPO + "/fuzzylite/**/*.h", recursive=True) + glob.glob(REPO + "/fl/**/*.h", recursive=True)
    return r


OBJECTS, SOURCES = [], []


def objects():
    """what the driver is linked from"""
    build()
    return list(OBJECTS)


def library():
    """the objects of the library alone"""
    return [o for o, s in zip(objects(), SOURCES) if not s.startswith(VERIF + "/driver/")]


def build():
    """Compiles /repo's current sources and the driver; returns the driver's path.
    Objects are reused only when source and all headers have the same content."""
    os.makedirs(BUILD, exist_ok=True)
    srcs = sorted(p for p in glob.glob(REPO + "/src/**/*.cpp", recursive=True)
                  if os.path.basename(p) != "main.cpp")
    if not srcs:
        raise MachineryError("no sources in " + REPO)
    hd = _digest(_headers()) + " ".join(CXX)
    drv = sorted(glob.glob(VERIF + "/driver/*.cpp"))
    dh = hd + _digest(glob.glob(VERIF + "/driver/*.h"))
    jobs, objs = [], []
    for s in srcs + drv:
        key = hashlib.sha256(((dh if s in drv else hd) + s + _digest([s])).encode()).hexdigest()[:24]
        o = os.path.join(BUILD, "o-%s-%s.o" % (os.path.basename(s)[:-4], key))
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))
    OBJECTS[:] = objs
    SOURCES[:] = srcs + drv
    exe = os.path.join(BUILD, "driver-" + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24])
    if os.path.exists(exe):
        return exe

    def cc(job):
        s, o = job
        tmp = o + ".tmp%d" % os.getpid()
        r = subprocess.run(CXX + ["-c", s, "-o", tmp], capture_output=True, text=True)
        if r.returncode == 0:
            os.replace(tmp, o)
        return (s, r.returncode, r.stderr)
    with ThreadPoolExecutor(NCPU) as ex:
        for s, rc, err in ex.map(cc, jobs):
            if rc:
                raise MachineryError("cannot compile %s:\n%s" % (s, err[-3000:]))
    tmp = exe + ".tmp%d" % os.getpid()
    r = subprocess.run(["g++"] + objs + ["-o", tmp, "-lpthread"], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("cannot link:\n" + r.stderr[-3000:])
    os.replace(tmp, exe)
    for p in glob.glob(BUILD + "/driver-*"):
        if p != exe:
            try: os.remove(p)
            except OSError: pass
    keep = set(objs)
    for p in glob.glob(BUILD + "/o-*.o"):
        if p not in keep:
            try: os.remove(p)
            except OSError: pass
    return exe


# ---------------------------------------------------------------- driver
def esc(s):
    return s.replace("\\", "\\\\").replace("\t", "\\t").replace("\n", "\\n").replace("\r", "\\r")


def cmd(*a):
    return "\t".join(esc(str(x)) for x in a)


def drive_one(exe, lines, timeout=60):
    """Runs one script; returns (answers, died) with died = None or a description."""
    env = dict(os.environ, MALLOC_PERTURB_="165", LC_ALL="C")
    cwd = scratch()
    try:
        r = subprocess.run([exe], input="\n".join(lines) + "\n", capture_output=True, text=True, errors="replace",
                           timeout=timeout, env=env, cwd=cwd)
        out, rc, err = r.stdout, r.returncode, r.stderr
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"")
        out = out.decode(errors="replace") if isinstance(out, bytes) else out
        rc, err = "timeout", ""
    ans = []
    for x in out.split("\n"):
        if not x:
            continue
        try:
            ans.append(json.loads(x))
        except ValueError:
            break
    if rc == 3:
        raise MachineryError("driver: " + err[-500:])
    died = None
    if rc != 0 or len(ans) != len(lines):
        died = "driver ended with %s after %d of %d commands" % (rc, len(ans), len(lines))
    return ans, died


def drive(exe, scripts, chunk=40, timeout=120):
    """Runs many scripts (lists of command lines), several per process.
    Returns a list of (answers, died)."""
    res = [None] * len(scripts)

    def run(idx):
        lines = []
        for i in idx:
            lines += scripts[i] + ["reset"]
        ans, died = drive_one(exe, lines, timeout)
        if died is None:
            p = 0
            for i in idx:
                res[i] = (ans[p:p + len(scripts[i])], None)
                p += len(scripts[i]) + 1
        else:
            for i in idx:
                a, d = drive_one(exe, scripts[i] + ["reset"], timeout)
                if d is not None:      # a crash counts only when it repeats
                    a2, d2 = drive_one(exe, scripts[i] + ["reset"], timeout)
                    if d2 is None:
                        a, d = a2, None
                res[i] = (a[:len(scripts[i])], d)
    groups = [list(range(i, min(i + chunk, len(scripts)))) for i in range(0, len(scripts), chunk)]
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(run, groups))
    return res


# ---------------------------------------------------------------- TLC
class TLCResult(object):
    def __init__(self):
        self.out = ""
        self.states = 0
        self.distinct = 0
        self.printed = []
        self.violated = False
        self.ok = False
        self.wall = 0.0


def tlc(module, cfg=None, env=None, args=(), timeout=600, workers=None, heap="6g", depth_first=False):
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmdl = ["java"] + os.environ.get("FV_JAVA", "").split() + ["-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC,
            "-cp", TLAJAR + ":" + COMMJAR, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
            "-workers", str(workers or NCPU), "-config", cfg or os.path.join(SPEC, module + ".cfg")]
    cmdl += list(args) + [os.path.join(SPEC, module + ".tla") if not os.path.isabs(module) else module]
    t0 = time.time()
    try:
        r = subprocess.run(cmdl, capture_output=True, text=True, errors="replace", timeout=timeout, env=e, cwd=meta)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode(errors="replace"), "timeout"
    res = TLCResult()
    res.out, res.rc, res.wall = out, rc, time.time() - t0
    ms = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if ms:
        res.states = int(ms[-1][0].replace(",", ""))
        res.distinct = int(ms[-1][1].replace(",", ""))
    res.violated = rc in (12, 13) or "is violated" in out
    res.ok = rc == 0
    if rc == "timeout":
        raise MachineryError("TLC timed out on %s after %ds" % (module, timeout))
    if not res.ok and not res.violated:
        raise MachineryError("TLC failed on %s (%s):\n%s" % (module, rc, out[-4000:]))
    if res.violated and re.search(r"Error: (Evaluating|The first|TLC threw|In evaluation|Attempted)", out):
        raise MachineryError("TLC evaluation error on %s:\n%s" % (module, out[-4000:]))
    shutil.rmtree(meta, ignore_errors=True)
    return res


UNJUDGED = []      # traces the model gave no verdict on (must stay empty on the unchanged tree)


def check_traces(module, watch, traces, extra=None, shards=None, timeout=800, cfg=None):
    """Checks traces (dicts with id and steps) against a trace specification.
    Returns (rejects, states): rejects = list of (id, step, op, aspects, watched)."""
    shards = shards or max(1, min(int(os.environ.get("FV_S", max(1, NCPU // 2))), len(traces) // 4 or 1))
    # balance by number of steps
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]["steps"]))
    parts = [[] for _ in range(shards)]
    for k, i in enumerate(order):
        parts[k % shards].append(traces[i])
    parts = [p for p in parts if p]
    jobs = []
    for k, p in enumerate(parts):
        f = os.path.join(scratch(), "trace-%s-%d.json" % (module, k))
        d = {"watch": sorted(watch), "traces": p}
        d.update(extra or {})
        with open(f, "w") as fh:
            json.dump(d, fh)
        jobs.append((f, p))

    def once(job):
        f, p = job
        r = tlc(module, cfg=cfg, env={"TRACE_FILE": f}, args=["-continue"], workers=int(os.environ.get("FV_W", "2")), timeout=timeout,
                heap="3g")
        rej = {}
        out = re.sub(r"\s*\n\s*", " ", r.out)
        for m in re.finditer(r'<<\s*"REJECT",\s*("[^"]*"|\d+),\s*(\d+),\s*"([^"]*)",\s*(\{[^}]*\})(.*?)>>', out):
            i = m.group(1).strip('"')
            asp = set(re.findall(r'"([^"]*)"', m.group(4)))
            rej[i] = (i, int(m.group(2)), m.group(3), asp, bool(asp & set(watch)), m.group(5).strip(", "))
        # every trace must have been consumed to its end or rejected
        expect = 2 * len(p)
        if r.distinct != expect:
            raise MachineryError("trace check of %s looked at %d states, expected %d\n%s"
                                 % (module, r.distinct, expect, r.out[:200] + "\n".join(
                                     x for x in r.out.split("\n") if "rror" in x)[:2000]))
        if r.violated != any(x[4] for x in rej.values()):
            raise MachineryError("inconsistent verdict from TLC:\n" + r.out[-3000:])
        return list(rej.values()), r.distinct, r.states

    def go(job):
        f, p = job
        try:
            res = [once(job)]
            os.remove(f)
            return res
        except MachineryError as ex:
            # the model could not judge some trace of this shard: judge the others
            if len(p) == 1:
                shutil.copy(f, os.path.join(BUILD, "unjudged.json"))
                os.remove(f)
                UNJUDGED.append((p[0]["id"], str(ex)[-1500:]))
                if len(UNJUDGED) > 40:
                    raise
                return []
            os.remove(f)
            res = []
            for h in (p[:len(p) // 2], p[len(p) // 2:]):
                f2 = f[:-5] + "-%s.json" % h[0]["id"]
                d = {"watch": sorted(watch), "traces": h}
                d.update(extra or {})
                with open(f2, "w") as fh:
                    json.dump(d, fh)
                res += go((f2, h))
            return res
    rejects, states, gen = [], 0, 0
    with ThreadPoolExecutor(NCPU) as ex:
        for rej, st, g in [y for x in ex.map(go, jobs) for y in x]:
            states += st
            gen += g
            rejects += rej
    return rejects, states, gen


# ---------------------------------------------------------------- numbers
def num(fr):
    """Fraction or special -> text for the driver, pair for the model"""
    if fr is None or fr == "nan":
        return "nan"
    if fr == "inf" or fr == "-inf":
        return fr
    return "%d/%d" % (fr.numerator, fr.denominator)


def pair(fr):
    if fr is None or fr == "nan":
        return [0, 0]
    if fr == "inf":
        return [1, 0]
    if fr == "-inf":
        return [-1, 0]
    return [fr.numerator, fr.denominator]


# ---------------------------------------------------------------- reporting
def known_findings(prop):
    r = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d["property"] == prop and d.get("status") == "known":
                    r.append(d)
    return r


def replay_path(prop, data):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (prop, SEED))
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p


def evidence(prop, level, coverage, t0, assumptions=(), violations=0):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage,
                   "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2),
                   "violations": violations}, f, indent=1)
