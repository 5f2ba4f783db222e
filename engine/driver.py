"""Running one check: collecting violations and counts, known findings, evidence and replay files."""
import json, multiprocessing, os, queue, re, sys, traceback
import units
from lib import Broken

VERIF = units.VERIF


class Ctx:
    def __init__(self, prop, tier, only=None):
        self.prop, self.tier, self.only = prop, tier, only
        self.viol = {}
        self.counts = {}
        self.samples = []
        self.unitnames = []
        self.mins = {}
        self.funcs = set()
        self.assume = []
        self._cache = {}

    def programs(self, names):
        names = [n for n in names if self.only is None or n in self.only]
        miss = [n for n in names if n not in self._cache]
        if miss:
            for n, p in zip(miss, units.load(miss)):
                self._cache[n] = p
        for n in names:
            if n not in self.unitnames:
                self.unitnames.append(n)
        return [self._cache[n] for n in names]

    def each(self, names, fn, jobs=8):
        """run fn(ctx, program) for every unit, in parallel processes, and merge what they report"""
        names = [n for n in names if self.only is None or n in self.only]
        if not names:
            raise Broken("no units")
        units.prepare()
        for n in names:
            if n not in self.unitnames:
                self.unitnames.append(n)
        if os.environ.get("VP_SERIAL") or len(names) == 1:
            for n in names:
                fn(self, units.extract(n))
            return
        mp = multiprocessing.get_context("fork")
        q = mp.Queue()
        todo = list(names)
        run = {}
        err = []
        while todo or run:
            while todo and len(run) < jobs:
                n = todo.pop(0)
                pr = mp.Process(target=_work, args=(q, self, fn, n))
                pr.start()
                run[n] = pr
            try:
                n, kind, data = q.get(timeout=1)
            except queue.Empty:
                for n, pr in list(run.items()):
                    if not pr.is_alive() and pr.exitcode != 0:
                        raise Broken("unit %s: worker ended with %s" % (n, pr.exitcode))
                continue
            run.pop(n).join()
            if kind == "ok":
                viol, counts, samples, funcs = data
                for k, v in viol.items():
                    w = self.viol.setdefault(k, v)
                    for u in v["units"]:
                        if u not in w["units"]:
                            w["units"].append(u)
                for k, v in counts.items():
                    self.counts[k] = self.counts.get(k, 0) + v
                for s in samples:
                    self.sample(s)
                self.funcs |= funcs
            else:
                err.append("unit %s: %s" % (n, data))
        if err:
            raise Broken("\n".join(err))

    def violation(self, key, where, msg, path=(), unit=""):
        """key: stable identity of the broken instance (rule + function), independent of line numbers"""
        v = self.viol.setdefault(key, {"key": key, "where": where, "msg": msg, "path": list(path), "units": []})
        if unit not in v["units"]:
            v["units"].append(unit)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def analysed(self, fn):
        self.funcs.add(fn.qn)

    def sample(self, s, cap=12):
        if len(self.samples) < cap and s not in self.samples:
            self.samples.append(s)

    def need(self, name, least):
        """the rule must have matched at least this many instances (counted on the current run)"""
        self.mins[name] = least


def _work(q, ctx, fn, name):
    sys.setrecursionlimit(100000)
    try:
        ctx.viol, ctx.counts, ctx.samples, ctx.funcs = {}, {}, [], set()
        fn(ctx, units.extract(name))
        q.put((name, "ok", (ctx.viol, ctx.counts, ctx.samples, ctx.funcs)))
    except (Broken, units.ExtractError) as e:
        q.put((name, "err", str(e)))
    except BaseException:
        q.put((name, "err", traceback.format_exc()))


def known(prop):
    out = {}
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) key=\[(.*?)\] (.*)$", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def finish(ctx, wall, mod):
    k = known(ctx.prop)
    new = [v for key, v in sorted(ctx.viol.items()) if key not in k]
    old = [v for key, v in sorted(ctx.viol.items()) if key in k]
    if not new and ctx.only is None:
        for name, least in ctx.mins.items():
            if ctx.counts.get(name, 0) < least:
                raise Broken("rule instance count %s = %d, expected at least %d" % (name, ctx.counts.get(name, 0), least))
    cov = {"explanation": mod.EXPLANATION.strip().replace("\n", " "), "rule": mod.RULE.strip().replace("\n", " "), "units": ctx.unitnames,
           "functions_analysed": len(ctx.funcs), "instances": ctx.counts, "samples": ctx.samples,
           "violations": [{"instance": v["key"], "at": v["where"], "what": v["msg"], "units": v["units"]} for v in new],
           "known_findings": [v["key"] for v in old]}
    ev = {"property": ctx.prop, "tier": ctx.tier if ctx.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "wall_s": round(wall, 2), "violations": len(new),
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assume}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (ctx.prop, v["key"], k[v["key"]]))
    print("%s: %d units, %d functions, instances: %s" % (ctx.prop, len(ctx.unitnames), len(ctx.funcs), ", ".join("%s=%d" % i for i in sorted(ctx.counts.items()))))
    rp = os.path.join(VERIF, "evidence", ctx.prop + ".violation.txt")
    if os.path.exists(rp):
        os.unlink(rp)
    if not new:
        return 0
    with open(rp, "w") as f:
        for v in new:
            f.write("%s\n  instance: %s\n  rule broken: %s\n  configurations: %s\n" % (v["where"], v["key"], v["msg"], ", ".join(v["units"])))
            for s in v["path"]:
                f.write("    %s\n" % s)
            f.write("\n")
    for v in new:
        print("%s: %s [%s] (%s)" % (v["where"], v["msg"], v["key"], ",".join(v["units"])))
    print("VIOLATION property=%s replay=%s" % (ctx.prop, rp))
    return 1
