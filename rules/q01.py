RULE = """For every concrete class that owns timers: any two id constants ever used with a timer of that object have different values; an id lies at or above the
end of the range of every base of the class that declares it and below the end of that class's own range; a class's range begins no lower than its base's ends;
an id used without a named constant collides with none. A callback that tells timers apart by id tests exactly the ids it is armed with, and an id that is
asked about, stopped or re-targeted is one that the object arms somewhere."""
EXPLANATION = """Constant evaluation (by the compiler, after full instantiation) of every timer call of every function each concrete class can run, in every
configuration and both file transfer demos; the tested ids come from the branch facts of the callback's paths."""
ASSUMPTIONS = ["application classes follow the documented rule to begin at their base's TIMER_END"]
import f01
from lib import *
from witness_units import ALL, LIB

ARM = ("set_timer", "create_or_update_timer")
USE = ("start_timer", "stop_timer", "is_timer", "find_timer", "change_timer_status", "change_timer_interval", "change_timer_call_back")


def strip(fn, s):
    """innermost expression below casts and parentheses"""
    while s >= 0:
        x = fn.st[s]
        if x["k"] in ("cast", "pass") and x.get("c"):
            s = x["c"][0]
            continue
        return s
    return s


def sites(p, c, names):
    """(function, line, value or None, named constant or None, call node) of timer calls of an object of class c"""
    out = []
    fns = class_functions(p, c)
    for fn in fns:
        if fn.cls is not None and p.classes[fn.cls]["qn"] == NS + "timer":
            continue
        for _, x in fn.calls():
            if x.get("d") is None or p.decls[x["d"]]["n"] not in names or not x.get("c"):
                continue
            d = p.decls[x["d"]]
            if d.get("cls") is None or p.classes[d["cls"]]["qn"] != NS + "timer":
                continue
            o = x.get("obj", -1)
            if o is not None and o >= 0 and fn.st[strip(fn, o)]["k"] != "this" and not this_like(p, fn, o):
                continue
            for v, k in values(p, fns, fn, x["c"][0], 0):
                out.append((fn, x["l"], v, k, x))
    return out


def this_like(p, fn, o):
    x = fn.st[strip(fn, o)]
    if x["k"] == "un" and x.get("op") == "*" and x.get("c"):
        return this_like(p, fn, x["c"][0])
    return x["k"] == "this"


def values(p, fns, fn, s, depth):
    x = fn.st[s]
    i = strip(fn, s)
    y = fn.st[i]
    named = y["d"] if y["k"] == "ref" and y.get("d") is not None and p.decls[y["d"]]["k"] not in ("parm", "param") and (y.get("cv") is not None or p.decls[y["d"]].get("cv") is not None) else None
    for z in (x, y):
        if z.get("cv") is not None:
            return [(z["cv"], named)]
    if named is not None:
        return [(p.decls[named]["cv"], named)]
    if y["k"] == "ref" and y.get("d") in fn.params and depth < 4:
        k = fn.params.index(y["d"])
        out = []
        for g in fns:
            for _, z in g.calls():
                if z.get("d") == fn.id and len(z.get("c", [])) > k:
                    out += values(p, fns, g, z["c"][k], depth + 1)
        return out
    return []


def ends(p, c):
    """(class, begin, end) of every class of c's line that reserves a range, nearest first"""
    out = []
    for b in p.bases(c):
        k = {p.decls[i]["n"]: p.decls[i].get("cv") for i in p.classes[b].get("consts", [])}
        if k.get("TIMER_END") is not None:
            out.append((b, k.get("TIMER_BEGIN"), k["TIMER_END"]))
    return out


def unit(ctx, p):
    lib = p.tu in LIB
    for c in p.leaf_classes(NS + "timer"):
        cn = p.classes[c]["qn"]
        arm = sites(p, c, ARM)
        use = sites(p, c, USE)
        rng = ends(p, c)
        if not rng:
            raise Broken("no timer range in %s" % cn)
        ctx.count("classes")
        by = {}
        for fn, line, v, k, x in arm + use:
            ctx.analysed(fn)
            ctx.count("timer_calls")
            by.setdefault(v, {}).setdefault(k, (fn, line))
        for v, ks in by.items():
            nm = [k for k in ks if k is not None and p.decls[k]["n"] not in ("TIMER_END", "TIMER_BEGIN")]
            if len(nm) > 1:
                fn, line = ks[nm[1]]
                ctx.violation("shared id %s" % ", ".join(sorted(p.decls[k]["qn"] for k in nm)), fn.where(line), "two timers of one object (%s) have the same id %d: starting one replaces the other" % (cn, v), (), p.tu)
        # ranges
        for i, (b, begin, end) in enumerate(rng):
            up = [e for b2, _, e in rng[i + 1:] if b2 in p.bases(b)]
            lo = max(up) if up else 0
            ctx.count("ranges")
            if begin is not None and begin < lo or end < lo or begin is not None and end < begin:
                ctx.violation("range of %s" % p.classes[b]["qn"], p.classes[b].get("f", "") or p.classes[b]["qn"], "the timer ids of this class (%s..%s) overlap those of its base (up to %s)" % (begin, end, lo), (), p.tu)
            for j in p.classes[b].get("consts", []):
                d = p.decls[j]
                if not any(j in ks for ks in by.values()) or d["n"] in ("TIMER_END", "TIMER_BEGIN"):
                    continue
                ctx.count("ids")
                v = d["cv"]
                if not lo <= v < end:
                    ctx.violation("id %s" % d["qn"], "%s:%s" % (d.get("f", ""), d.get("l", "")), "timer id %d lies outside the range %d..%d its class reserves" % (v, lo, end), (), p.tu)
        seen = {}
        for b, begin, end in rng:
            for j in p.classes[b].get("consts", []):
                d = p.decls[j]
                if d["n"] in ("TIMER_END", "TIMER_BEGIN") or p.ty(d["ty"])["s"].replace("const ", "") != "unsigned short":
                    continue
                o = seen.setdefault(d["cv"], j)
                if o != j and not any({o, j} <= set(ks) for ks in by.values()):
                    ctx.violation("shared id %s" % ", ".join(sorted((d["qn"], p.decls[o]["qn"]))), "%s:%s" % (d.get("f", ""), d.get("l", "")), "two timer ids of one object (%s) have the same value %d" % (cn, d["cv"]), (), p.tu)
        # ids without a name
        own = rng[0]
        for fn, line, v, k, x in arm:
            if k is None and not any(lo <= v < e and p.bases(b) and fn.cls in (b,) for (b, lo, e) in [(b, max([e2 for b2, _, e2 in rng[i + 1:] if b2 in p.bases(b)] or [0]), e) for i, (b, _, e) in enumerate(rng)]) and lib:
                ctx.violation("id in %s" % fn.qn, fn.where(line), "a timer is armed with id %d, which its class did not reserve" % v, (), p.tu)
        # ids referred to are armed
        if lib:
            armed = {v for _, _, v, _, _ in arm}
            for fn, line, v, k, x in use:
                if v not in armed:
                    ctx.violation("never armed: %s in %s" % (p.decls[k]["n"] if k is not None else v, fn.qn), fn.where(line), "a timer is asked about or stopped that the object never starts", (), p.tu)
            handlers(ctx, p, c, arm)


_h = {}


def tested(p, c, fn):
    """ids the callback compares its argument with"""
    k = (p.tu, c, fn.id)
    if k not in _h:
        out = set()

        def label(ex, st, ev):
            for a in st.facts:
                if a[0] == "eq" and ("arg", 0) in a[1:]:
                    out.update(x[1] for x in a[1:] if x[0] == "c")
            return None
        paths, ex = trace(p, fn, c, label, force=True)
        for q in paths:
            for a in q.facts:
                if a[0] == "eq" and ("arg", 0) in a[1:]:
                    out.update(x[1] for x in a[1:] if x[0] == "c")
        _h[k] = out
    return _h[k]


def bound(p, fn, s, out):
    """functions a callback argument names"""
    for y in walk(fn, s):
        if y["k"] == "ref" and y.get("d") in p.fns:
            out.add(y["d"])
    return out


def walk(fn, s, seen=None):
    seen = set() if seen is None else seen
    if s is None or s < 0 or s in seen:
        return
    seen.add(s)
    x = fn.st[s]
    if not x:
        return
    yield x
    for k in list(x.get("c", [])) + [x.get("obj", -1), x.get("callee", -1)]:
        for y in walk(fn, k, seen):
            yield y


def handlers(ctx, p, c, arm):
    by = {}
    for fn, line, v, k, x in arm:
        if len(x["c"]) < 3:
            continue
        for h in bound(p, fn, x["c"][2], set()):
            g = p.fns[h]
            if len(g.params) == 1 and p.ty(p.decls[g.params[0]]["ty"])["s"] in ("unsigned short", "tid"):
                by.setdefault(h, {})[v] = (fn, line, k)
    for h, ids in by.items():
        g = p.fns[h]
        t = tested(p, c, g)
        ctx.analysed(g)
        ctx.count("dispatching_callbacks")
        for v, (fn, line, k) in ids.items():
            if t and v not in t:
                ctx.violation("unhandled id in %s" % g.qn, fn.where(line), "a timer is armed with id %d and a callback that does not know it" % v, (), p.tu)
        for fn, line, v, k, x in arm:
            if v in t and len(x["c"]) > 2 and h not in bound(p, fn, x["c"][2], set()):
                ctx.violation("second use of id %d in %s" % (v, fn.qn), fn.where(line), "the id of a timer that %s handles is armed with another callback: one purpose replaces the other" % g.qn, (), p.tu)
        for v in t - set(ids):
            ctx.violation("id %s of %s never armed" % (v, g.qn), g.where(), "the callback handles timer id %d, which is never armed with it" % v, (), p.tu)


def run(ctx):
    ctx.each(ALL, unit)
    ctx.need("timer_calls", 100)
    ctx.need("ids", 60)
    ctx.need("ranges", 40)
    ctx.need("dispatching_callbacks", 10)
