RULE = """For every class of the callback wrappers: each of its overriding hooks really overrides a virtual function of the wrapped class; it calls the callback registered
under its own name exactly once when there is one and never otherwise, before the built-in behaviour, with the object itself and the hook's own arguments in
order; it runs the built-in behaviour of the same hook, with the same arguments, exactly once unless the application asked to replace it (or the callback of a
yes/no hook said no); its result is the built-in result when that ran, otherwise the callback's, and for a yes/no hook yes only when every part said yes.
Registering stores the given callable, with its parameters in order, and the inverse of 'pass on', in the slot its hook reads; no two hooks share a slot."""
EXPLANATION = """Every path of every hook and of every registering function (both overloads) of the wrapper classes, instantiated over server, client and UDP sockets,
a server and a pool, in two configurations; slots are related by the fields the paths use."""
ASSUMPTIONS = ["boost::function calls what was assigned to it"]
from lib import *

UNITS = ("callbacks", "cbpassive")
CB = NS + "ext::callbacks::"


def slots(p, c):
    out = {}
    for f in p.classes[c].get("fs", []):
        k = p.ty(p.decls[f]["ty"]).get("cls")
        if k is not None and p.classes[k]["qn"] == "std::pair" or "std::pair<" in p.ty(p.decls[f]["ty"])["s"]:
            out[f] = k
    return out


PAIR = ("first", "second")
P = None


def slot_of(t, S, which):
    """the slot whose first (0) / second (1) the location is"""
    while t and t[0] in ("v", "addr", "deref") and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    if t and t[0] == "f" and t[1] and t[1][0] == "f" and t[1][1] == ("this",) and t[1][2] in S and P.decls[t[2]]["n"] == PAIR[which]:
        return t[1][2]


def there(cond, taken, S):
    """(slot, callback present) that a branch on a slot's callable says"""
    hit = None
    for s in subterms(cond):
        if s and s[0] in ("pure", "call") and isinstance(s[1], str) and not s[1].endswith("operator()"):
            for x in subterms(s):
                k = slot_of(x, S, 0) if x and x[0] == "f" else None
                if k is not None:
                    hit = (k, s[1].split("::")[-1])
            if hit:
                break
    if not hit:
        return None
    v = taken
    if hit[1] in ("empty", "operator!"):
        v = not v
    c = cond
    while c and c[0] in ("un", "bin"):
        if c[0] == "un" and c[1] == "!":
            v = not v
            c = c[2]
        elif c[0] == "bin" and c[1] == "==":
            v = not v
            break
        else:
            break
    return hit[0], v


def same(a, b):
    while a and a[0] in ("v", "addr", "deref") and a != b and isinstance(a[1], tuple):
        a = a[1]
    return a == b


def hook(ctx, p, c, fn, S, used):
    d = p.decls[fn.id]
    bool_ = is_bool(p, d)

    def label(ex, st, ev):
        if ev.kind == "branch":
            return ("B", ev.cond, ev.taken, len(st.rule))
        if ev.kind == "call" and ev.d is not None:
            k = slot_of(ev.obj, S, 0) if ev.obj is not None else None
            if k is not None and ev.name == "operator()":
                return ("CB", k, tuple(ev.args), ev.res, ev.line, len(st.rule))
            if not ev.inlined and ev.name == fn.name and ev.d != fn.id and ev.obj in (("this",), ("deref", ("addr", ("this",)))):
                return ("SUP", ev.d, tuple(ev.args), ev.res, ev.line, len(st.rule))
    paths, ex = trace(p, fn, c, label, force=True, opaque=lambda p, d: d["n"] == fn.name and d["id"] != fn.id)
    ctx.analysed(fn)
    nm = fn.name

    def bad(q, rule, msg, line=None):
        ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-8:], p.tu)
    if not d.get("ov"):
        ctx.violation("override in %s" % fn.qn, fn.where(), "this hook overrides nothing in the wrapped class, so it is never called", (), p.tu)
    mine = set()
    for q in paths:
        if q.kind == "throw":
            continue
        ctx.count("hook_paths")
        cb, sup = q.all("CB"), q.all("SUP")
        present = {}
        for l in q.all("B"):
            t = there(l[1], l[2], S)
            if t:
                present[t[0]] = t[1]
                mine.add(t[0])
        mine |= {l[1] for l in cb}
        if len(cb) > 1:
            bad(q, "callback", "the callback runs more than once")
        for l in cb:
            if present.get(l[1]) is not True:
                bad(q, "callback", "a callback runs without a test that it was registered", l[4])
            a = l[2]
            want = [("this",)] + [("param", i) for i in range(len(fn.params))]
            alt = [("this",)] + [("arg", i) for i in range(len(fn.params))]
            if len(a) != len(want) or not all(same(x, y) or same(x, z) or passed(x, y, z) for x, y, z in zip(a, want, alt)):
                bad(q, "callback arguments", "the callback does not get the hook's own arguments in order", l[4])
        for k, v in present.items():
            if v and not any(l[1] == k for l in cb):
                bad(q, "callback", "a registered callback does not run")
        if not present:
            bad(q, "callback", "a path ignores the registered callback")
        if len(sup) > 1:
            bad(q, "built-in", "the built-in behaviour runs more than once")
        replace = None
        for k in list(mine or S):
            for l in q.all("B"):
                t = flag(l[1], l[2], k, S)
                if t is not None:
                    replace = t
                    mine.add(k)
        veto = cb and bool_ and truth(ex, q.facts, cb[-1][3]) is False
        if sup and replace is not False:
            bad(q, "built-in", "the built-in behaviour runs although the application may have asked to replace it", sup[0][4])
        if not sup and replace is not True and not veto:
            bad(q, "built-in", "the built-in behaviour is left out although the application did not ask to replace it")
        for l in sup:
            if len(l[2]) != len(fn.params) or not all(same(x, ("param", i)) or same(x, ("arg", i)) or passed(x, ("param", i), ("arg", i)) for i, x in enumerate(l[2])):
                bad(q, "built-in arguments", "the built-in behaviour does not get the hook's own arguments", l[4])
            if cb and q.labels.index(cb[0]) > q.labels.index(l):
                bad(q, "order", "the built-in behaviour runs before the callback", l[4])
        if p.ty(d["ty"])["s"] == "void":
            continue
        v = q.val
        parts = [l[3] for l in cb + sup]
        if not parts:
            continue
        if bool_:
            want = [truth(ex, q.facts, t) for t in parts]
            got = v[1] != 0 if v and v[0] == "c" else truth(ex, q.facts, v) if v else None
            ok = v in parts and all(w is True for t, w in zip(parts, want) if t != v) or (got is False and False in want) or (got is True and all(w is True for w in want)) or isboth(v, parts)
        else:
            ok = v == (sup or cb)[-1][3]
        if not ok:
            bad(q, "result", "the hook's result is not that of its callback and its built-in behaviour")
    if len(mine) != 1:
        ctx.violation("slot in %s" % fn.qn, fn.where(), "the hook uses the slots of %d registrations" % len(mine), (), p.tu)
    for k in mine:
        used.setdefault(k, set()).add(nm)
    ctx.count("hooks")


def passed(x, y, z):
    """a by-value argument handed on: a copy of the parameter"""
    return bool(x) and x[0] in ("tmp", "pure", "call") and (x[0] == "tmp" or has(x, lambda s: s in (y, z)))


def isboth(v, parts):
    return bool(v) and v[0] in ("bin",) and v[1] in ("&", "&&") and sorted(map(str, v[2:])) == sorted(map(str, parts))


def flag(cond, taken, k, S):
    """truth of the flag at loc that the branch says"""
    c, v = cond, taken
    while c and c[0] == "un" and c[1] == "!":
        c, v = c[2], not v
    if c and c[0] == "bin" and c[1] in ("==", "!=") and c[3] == T0:
        c, v = c[2], v if c[1] == "!=" else not v
    if c and c[0] == "v" and slot_of(c[1], S, 1) == k:
        return v
    return None


def register(ctx, p, c, fn, S, reg):
    def label(ex, st, ev):
        if ev.kind == "call" and ev.d is not None:
            k = slot_of(ev.obj, S, 0) if ev.obj is not None else None
            if k is not None and not ev.inlined:
                return ("SET", k, ev.name, tuple(ev.args), ev.line, len(st.rule))
        if ev.kind == "write":
            k = slot_of(ev.loc, S, 1)
            if k is not None:
                return ("FLAG", k, ev.val, ev.line, len(st.rule))
            k = slot_of(ev.loc, S, 0)
            if k is not None:
                return ("SET", k, "operator=", (ev.val,), ev.line, len(st.rule))
    paths, ex = trace(p, fn, c, label, force=True)
    ctx.analysed(fn)
    ptr = p.ty(p.decls[fn.params[0]]["ty"]).get("ptr")
    for q in paths:
        if q.kind == "throw":
            continue
        ctx.count("register_paths")

        def bad(rule, msg, line=None):
            ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-8:], p.tu)
        s, f = q.all("SET"), q.all("FLAG")
        if len(s) != 1 or len(f) != 1 or s[0][1] != f[0][1]:
            bad("registration", "registering does not store the callable and its flag in one slot")
            continue
        reg.setdefault(s[0][1], set()).add(fn.name)
        a = s[0][3]
        if s[0][2] not in ("operator=", "assign", "swap") or not a or not has(a[0], lambda t: t in (("arg", 0), ("param", 0))) and a[0][0] != "tmp":
            bad("registration", "what is stored is not the callable given", s[0][4])
        b = [t for t in subterms(a[0]) if t and t[0] in ("pure", "call") and isinstance(t[1], str) and t[1].split("::")[-1] == "bind"]
        for t in b:
            seq = [p.decls[x[1]]["n"] for a in t[-1][1:] for x in list(subterms(a))[:] if x and x[0] == "g"]
            if seq != ["_%d" % (i + 1) for i in range(len(seq))] or not seq:
                bad("registration", "the callback's parameters are bound out of order", s[0][4])
        if not (f[0][2] and f[0][2][0] == "un" and f[0][2][1] == "!" and f[0][2][2] in (("arg", 1), ("v", ("param", 1)))) and not alt(f[0][2]):
            bad("registration", "the flag stored is not the inverse of 'pass on'", f[0][3])
    ctx.count("registrations")


def alt(v):
    return bool(v) and v[0] == "bin" and v[1] == "==" and T0 in v[2:] and ("arg", 1) in v[2:]


def unit(ctx, p):
    global P
    P, n = p, 0
    for c in range(len(p.classes)):
        if not p.classes[c] or not p.classes[c]["qn"].startswith(CB):
            continue
        S = slots(p, c)
        if not S:
            continue
        n += 1
        used, reg = {}, {}
        for fn in list(p.fns.values()):
            if fn.cls != c or p.decls[fn.id].get("ctor") or fn.name.startswith("<"):
                continue
            ids = {x["d"] for x in fn.st if x and x["k"] == "mem"}
            if p.decls[fn.id].get("virt"):
                hook(ctx, p, c, fn, S, used)
            elif ids & set(S):
                register(ctx, p, c, fn, S, reg)
        for f in S:
            nm = p.decls[f]["n"]
            h, r = used.get(f, set()), reg.get(f, set())
            where = "%s::%s" % (p.classes[c]["qn"], nm)
            if len(h) != 1:
                ctx.violation("slot %s" % where, "", "the slot is used by %s instead of one hook" % (", ".join(sorted(h)) or "no hook"), (), p.tu)
            if len(r) != 1:
                ctx.violation("slot %s" % where, "", "the slot is set by %s instead of one registration" % (", ".join(sorted(r)) or "no registration"), (), p.tu)
            if h and r and "register_" + sorted(h)[0] != sorted(r)[0]:
                ctx.violation("slot %s" % where, "", "%s registers for %s" % (sorted(r)[0], sorted(h)[0]), (), p.tu)
            ctx.count("slots")
    if not n:
        raise Broken("callback wrapper classes")


def run(ctx):
    ctx.each(UNITS, unit)
    ctx.need("hooks", 70)
    ctx.need("registrations", 140)
    ctx.need("slots", 70)
