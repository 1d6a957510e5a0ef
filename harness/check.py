#!/usr/bin/env python3
"""check.py PROP [quick|thorough] -- decides one property on /repo's working tree."""
import importlib, json, os, sys, time, random, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fv


class Ctx(object):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples = []
        self.parts = []
        self.violations = []
        self.known = []
        self.assume = []
        self.exe = fv.build()
        fv.log("[%s] built in %.1fs" % (prop, time.time() - self.t0))

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *k):
        return random.Random("%s/%s/%s" % (fv.SEED, self.prop, "/".join(map(str, k))))

    def left(self, total=None):
        return (total or (75 if self.quick else 1500)) - (time.time() - self.t0)

    # ---------------------------------------------------------- model checking
    def mc(self, module, cfg=None, env=None, args=(), label=None, timeout=1500, workers=None):
        r = fv.tlc(module, cfg=cfg, env=env, args=args, timeout=timeout, workers=workers)
        if r.violated:
            raise fv.MachineryError("the specification itself is violated: %s\n%s" % (module, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.states
        self.parts.append({"part": label or module, "kind": "exhaustive model checking", "states": r.distinct,
                           "transitions": r.states, "wall_s": round(r.wall, 1)})
        fv.log("[%s] %s: %d states %.1fs" % (self.prop, label or module, r.distinct, r.wall))
        return r

    # ---------------------------------------------------------- conformance
    def violation(self, what, data):
        self.violations.append((what, data))
        fv.log("[%s] VIOLATION: %s" % (self.prop, what))

    def conform(self, module, watch, scenarios, label, extra=None, died=True, timeout=800, cfg=None):
        """drive scenarios (objects with .id .lines .trace(answers)) and check them"""
        if not scenarios:
            return
        t0 = time.time()
        res = fv.drive(self.exe, [s.lines for s in scenarios])
        t1 = time.time()
        by = {str(s.id): s for s in scenarios}
        traces = []
        for s, (ans, d) in zip(scenarios, res):
            if d is not None:
                if died:
                    self.violation("%s: the library did not survive scenario %s (%s)" % (label, s.id, d),
                                   {"scenario": s.id, "script": s.lines, "answers": len(ans), "died": d})
                continue
            traces.append(s.trace(ans))
        if not traces:
            return
        rej, states, gen = fv.check_traces(module, watch, traces, extra, timeout=timeout, cfg=cfg)
        bad = [r for r in rej if r[4]]
        seen = set()
        for r in bad:
            if len(self.violations) >= 5 or (r[2], tuple(sorted(r[3]))) in seen and len(seen) > 2:
                continue
            s = by[r[0]]
            # an alarm must repeat when the scenario runs alone
            ans, d = fv.drive_one(self.exe, s.lines + ["reset"])
            if d is not None:
                ans, d = fv.drive_one(self.exe, s.lines + ["reset"])
                if d is not None:
                    self.violation("%s: the library did not survive scenario %s" % (label, s.id),
                                   {"scenario": s.id, "script": s.lines, "died": d})
                    continue
            t = s.trace(ans[:len(s.lines)])
            rej2, _, _ = fv.check_traces(module, watch, [t], extra, shards=1, timeout=timeout, cfg=cfg)
            if not any(x[4] for x in rej2):
                fv.log("[%s] alarm of %s did not repeat" % (self.prop, s.id))
                continue
            seen.add((r[2], tuple(sorted(r[3]))))
            st = t["steps"][r[1] - 1] if 0 < r[1] <= len(t["steps"]) else None
            self.violation("%s: step %d (%s) of scenario %s is not allowed by the specification: %s"
                           % (label, r[1], r[2], r[0], ",".join(sorted(r[3] & set(watch)))),
                           {"scenario": s.id, "module": module, "step": r[1], "op": r[2],
                            "aspects": sorted(r[3]), "detail": r[5], "script": s.lines, "observed": st,
                            "watch": sorted(watch), "trace": t, "extra": extra})
        nsteps = sum(len(t["steps"]) for t in traces)
        self.states += states
        self.transitions += gen
        self.traces += len(traces)
        self.steps += nsteps
        if len(self.samples) < 5:
            for t in traces[:2]:
                self.samples.append({"trace": str(t["id"]), "steps": [x.get("op") for x in t["steps"]][:40]})
        others = len([r for r in rej if not r[4]])
        self.parts.append({"part": label, "kind": "traces of the real code checked against " + module,
                           "traces": len(traces), "steps": nsteps, "watched": sorted(watch),
                           "rejected": len(bad), "diverged_elsewhere": others,
                           "wall_s": round(time.time() - t0, 1)})
        fv.log("[%s] %s: %d traces, %d steps, drive %.1fs, check %.1fs, %d rejected, %d elsewhere"
               % (self.prop, label, len(traces), nsteps, t1 - t0, time.time() - t1, len(bad), others))
        if others and not bad:
            fv.log("   elsewhere e.g. %s" % ([r[:4] for r in rej if not r[4]][:3],))

    def finish(self):
        for k in fv.known_findings(self.prop):
            if k["id"] in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "steps_validated": self.steps,
               "samples": self.samples, "parts": self.parts, "unjudged_traces": len(fv.UNJUDGED)}
        fv.evidence(self.prop, "model_checking", cov, self.t0, self.assume, len(self.violations))
        if self.violations:
            what, data = self.violations[0]
            p = fv.replay_path(self.prop, {"property": self.prop, "what": what, "seed": fv.SEED, "tier": self.tier,
                                           "data": data,
                                           "others": [{"what": w, "data": d} for w, d in self.violations[1:]]})
            for w, _ in self.violations:
                print("# " + w)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        if fv.UNJUDGED:
            fv.log("no verdict on %d traces: %s" % (len(fv.UNJUDGED), fv.UNJUDGED[0]))
            return 2
        print("OK property=%s traces=%d steps=%d states=%d wall=%.1fs"
              % (self.prop, self.traces, self.steps, self.states, time.time() - self.t0))
        return 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    fv.TIER = tier
    rc = 2
    try:
        props = importlib.import_module("props")
        ctx = Ctx(prop, tier)
        props.PROPS[prop](ctx)
        rc = ctx.finish()
    except fv.MachineryError as ex:
        print("MACHINERY-ERROR property=%s %s" % (prop, ex))
    except Exception:
        print("MACHINERY-ERROR property=%s" % prop)
        traceback.print_exc()
    finally:
        fv.cleanup()
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
