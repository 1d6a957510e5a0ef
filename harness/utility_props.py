"""Checks of the properties about operations on numbers and texts (specification: Utilities.tla)."""
import fv
from gen import *
from parts_props import Parts, ns, ps

UNIT = 1 << 22


def scal(rng, den=(1, 2, 4, 8), lo=-20, hi=20, special=.15):
    if rng.random() < special: return rng.choice(["nan", "inf", "-inf", F(0), F(1), F(0), F(1)])
    return q(rng, lo, hi, rng.choice(den))


def text(rng, alphabet, n):
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(0, n)))


def number_text(rng):
    c = rng.random()
    if c < .1: return rng.choice(["nan", "inf", "-inf", "+inf", "Inf", "NaN", "-nan", "infinity", "nan ", " nan", " inf", "", " ", "\t3"])
    s = rng.choice(["", "", "", "+", "-", "-", "--", "+-"] if rng.random() < .5 else ["", "-"])
    i = rng.choice(["", "0", "1", "7", "12", "00", "345", "1000"])
    f = rng.choice(["", "", ".", ".0", ".5", ".25", ".125", ".3333", ".."])
    e = rng.choice(["", "", "", "", "e1", "e-1", "E2", "e+1", "e", "e+", "e-2", "ee1", "e0"]) if rng.random() < .4 else ""
    t = s + i + f + e
    if rng.random() < .15:
        k = rng.randint(0, len(t))
        t = t[:k] + rng.choice([" ", "x", "-", ",", ".", "f", "0", "_", "\t"]) + t[k:]
    return t


def O01(ctx):
    """operations"""
    scs = []

    def operand(x):
        return {"k": x, "i": 0} if isinstance(x, str) else {"k": "fin", "i": x}

    def arg(x, den):
        return x if isinstance(x, str) else num(F(x, den))

    # comparisons near the tolerance
    for c in range(ctx.n(30, 300)):
        rng = ctx.rng("cmp", c)
        sc = Parts("cmp%d" % c)
        for _ in range(25):
            if rng.random() < .6:
                tol, den, n, d = "default", UNIT, 4194304, 1000000
            else:
                k = rng.randint(1, 8)
                den = 1 << rng.choice([3, 8, 10])
                tol, n, d = num(F(k, den)), k, 1
            a = rng.choice(["nan", "inf", "-inf"]) if rng.random() < .12 else rng.choice([0, 1, -1, den, -den, rng.randint(-den, den)])
            dx = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 500])
            b = rng.choice(["nan", "inf", "-inf"]) if rng.random() < .12 else \
                rng.randint(-den, den) // 4096 if isinstance(a, str) else a + rng.choice([-1, 1]) * dx
            sc.ask({"op": "compare", "a": operand(a), "b": operand(b), "n": n, "d": d}, "compare", arg(a, den), arg(b, den), tol,
                   lt="lt", gt="gt", le="le", ge="ge", eq="eq", close="close", flt="flt", fgt="fgt", fle="fle", fge="fge", feq="feq", fneq="fneq")
        for _ in range(10):
            def some(): return rng.choice(["nan", "inf", "-inf"]) if rng.random() < .1 else rng.choice([0, 1, 3, 4, 5, 6, 9, 200, -1, -4, -5, -300])
            x, a, b = some(), some(), some()
            sc.ask({"op": "within", "x": operand(x), "a": operand(a), "b": operand(b), "n": 4194304, "d": 1000000}, "within",
                   arg(x, UNIT), arg(a, UNIT), arg(b, UNIT), v="v")
        scs.append(sc)
    for c in range(ctx.n(40, 400)):
        rng = ctx.rng("num", c)
        sc = Parts("num%d" % c)
        for _ in range(20):
            x, y, z = scal(rng), scal(rng), scal(rng)
            if rng.random() < .2: y = x
            sc.ask({"op": "arith", "x": pair(x), "y": pair(y), "z": pair(z)}, "arith", num(x), num(y), num(z), min="min", max="max",
                   bound="bound", add="add", sub="sub", mul="mul", div="div", mod="mod", neg="neg", round="round", land="land", lor="lor",
                   lnot="lnot", isnan="isnan", isinf="isinf", isfinite="isfinite")
        for _ in range(4):
            x, a, b, cc, d = [q(rng, -8, 8, rng.choice([1, 2, 4])) for _ in range(5)]
            if a == b: b += 1
            sc.ask({"op": "scale", "x": pair(x), "a": pair(a), "b": pair(b), "c": pair(cc), "d": pair(d)}, "scale",
                   *[num(v) for v in (x, a, b, cc, d)], plain="plain", unbounded="unbounded", bounded="bounded")
            n = rng.randint(1, 20)
            sc.ask({"op": "midpoints", "a": pair(a), "b": pair(b), "n": n}, "midpoints", num(a), num(b), n, v="v")
            v = [q(rng, -8, 8, rng.choice([1, 2, 4])) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
            if v and rng.random() < .1: v[rng.randrange(len(v))] = rng.choice(["nan", "inf", "-inf"])
            m = q(rng, -4, 4, 2)
            sc.ask({"op": "stats", "v": ps(v), "m": pair(m)}, "stats", num(m), *[num(x) for x in v], sum="sum", mean="mean", var="var",
                   varm="varm", sd="sd", sdm="sdm")
        for _ in range(2):
            n = rng.randint(0, 4)
            lo = [rng.randint(-1, 2) for _ in range(n)]
            hi = [l + rng.choice([0, 1, 1, 2]) for l in lo]
            x = [rng.randint(l, h) if rng.random() < .4 else rng.choice([l, h]) for l, h in zip(lo, hi)]
            for _ in range(10):
                p = rng.randint(0, n) if rng.random() < .3 else -1
                sc.ask({"op": "counter", "x": list(x), "p": n if p < 0 else p, "lo": lo, "hi": hi}, "counter", p, n, *(x + lo + hi),
                       after="after", more=("more", "?"))
                # (the generator's own counter)
                k = (n if p < 0 else p) - 1
                while k >= 0:
                    if x[k] < hi[k]:
                        x[k] += 1
                        break
                    x[k] = lo[k]
                    k -= 1
        scs.append(sc)
    for c in range(ctx.n(40, 400)):
        rng = ctx.rng("txt", c)
        sc = Parts("txt%d" % c)
        for _ in range(8):
            al = rng.choice(["ab", "ab ", "aab.", "a b_1.", "a, b;"])
            t = text(rng, al, 12)
            f = text(rng, al, rng.choice([1, 2, 3]))
            w = rng.choice([text(rng, al, 3), f + f, f + "x", "", "xyz"])
            sc.ask({"op": "replace", "text": t, "find": f, "with": w}, "replace", t, f, w, all=("all", ""), first=("first", ""),
                   fall=("fall", ""), ffirst=("ffirst", ""))
            sc.ask({"op": "split", "text": t, "by": f}, "split", t, f, dropped="dropped", kept="kept", joined=("joined", ""))
            t = text(rng, rng.choice(["a 1", " \t\na", "aZ09_.-+ ", "  x", "abc/%$#"]), 10)
            k = rng.choice(["digit", "alpha", "alnum", "upper", "lower", "space"])
            w = rng.choice(["", "_", "--", "a"])
            sc.ask({"op": "textop", "text": t, "class": k, "with": w}, "textop", t, k, w, trim=("trim", ""), name=("name", ""),
                   format=("format", ""), str=("str", ""))
        for _ in range(15):
            t = number_text(rng)
            alt = scal(rng)
            sc.ask({"op": "tonum", "text": t, "alt": pair(alt)}, "tonum", t, num(alt), raised=("raised", "?"), v=("v", [7, 7]), w=("w", [7, 7]),
                   w2=("w2", [7, 7]), ok=("ok", "?"), isnum=("isnum", "?"))
        for _ in range(4):
            t = rng.choice([" ", "  ", "\t", "\n"]).join(number_text(rng) if rng.random() < .3 else rng.choice(["1", "-2.5", "nan", "inf", "0.25"])
                                                       for _ in range(rng.randint(0, 5)))
            alt = scal(rng)
            sc.ask({"op": "tonums", "text": t, "alt": pair(alt)}, "tonums", t, num(alt), raised=("raised", "?"), v="v", w="w", ok=("ok", "?"))
        for _ in range(6):
            d = rng.choice([0, 1, 2, 3, 3, 4, 5, 6])
            xs = [scal(rng, (1, 2, 3, 7, 8, 16, 64), -9, 9) for _ in range(rng.randint(0, 5))]
            if rng.random() < .5: xs.append(F(rng.randint(-12, 12), rng.choice([1024, 4096, 3000, 30000])))
            sep = rng.choice([" ", ", ", "", ";"])
            sc.ask({"op": "tostr", "d": d, "sep": sep, "xs": ps(xs)}, "tostr", d, sep, *[num(x) for x in xs], strs="strs", join=("join", "?"))
            w = [text(rng, "ab c", 4) for _ in range(rng.choice([0, 1, 2, 3, 3, 4]))]
            n = [rng.randint(-30, 2000) for _ in range(rng.choice([0, 1, 2, 3, 3, 4]))]
            sc.ask({"op": "joins", "sep": sep, "words": w, "ns": n}, "joins", sep, len(w), *(w + [len(n)] + n), join=("join", "?"),
                   joinv=("joinv", "?"), ints=("ints", "?"), intsv=("intsv", "?"))
        scs.append(sc)
    ctx.conform("PartsTrace", ["compare", "interval", "bounds", "arithmetic", "logic", "finite", "scale", "midpoints", "counter",
                               "statistics", "replace", "split", "trim", "name", "format", "string", "number", "numbers", "join"], scs,
                "operations on numbers and texts")


PROPS = {"O01": O01}
