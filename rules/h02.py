RULE = """The number of references an object holds changes by n exactly where it takes (or gives back) n from the pump for its own context, never below zero; clearing leaves none, resetting leaves at
least one. Every class bound to a pump forwards taking and giving back to the pump's counting functions, unchanged and for the same pump. Each conversion of a pump to a context takes
one reference, and every object begins with one. Every destructor chain gives all back at a level where giving back still reaches the pump; a socket that closes gives all back unless the
facts of that path make it start again; whatever is started again takes a reference first. In the pump every access to a context's count happens under the mutex of the contexts; the
context with the fewest references is chosen; the counted context is the one asked for, by the number asked for; no count is skipped because of a mode that can change later."""
EXPLANATION = """Effect balance: the change of the object's counter against the arguments of the calls that take and give back, as linear forms on every path; obligations on destructors, close and
reset hooks of every concrete class; lock sets at every access to a context's count; per-iteration analysis of the search loops."""
ASSUMPTIONS = ["an object is created with the context that the conversion of its pump chose", "the application adds and removes references only through the given functions, where the documentation allows it"]
import loops
import locks
from b03 import deep
from f02 import core
from lib import *
from linear import *
from witness_units import LIB, DEMO

TAKE, GIVE = ("attach_io_context", "assign_io_context"), ("detach_io_context", "return_io_context")
ADD, SUB, CLEAR, RESET = "add_io_context_refs", "sub_io_context_refs", "clear_io_context_refs", "reset_io_context_refs"


def canon(t):
    while isinstance(t, tuple) and t and (t[0] in ("v", "rd", "addr", "deref") or t[0] == "conv"):
        t = t[-1] if t[0] == "conv" else t[1]
    return t


def shape(t):
    """a term without call sites"""
    t = canon(t)
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "call":
        return ("call", t[1], shape(t[3]) if len(t) > 3 and t[3] else None)
    if t and t[0] == "pure":
        return ("call", t[1]) + tuple(shape(x) for x in t[2][:1])
    return tuple(shape(x) for x in t)


def unit(ctx, p):
    pump = p.cls_by_qn(NS + "service_pump")
    if not pump:
        raise Broken("no service pump in " + p.tu)
    # classes that count
    own = {}
    for i, k in enumerate(p.classes):
        for m in k.get("ms", []):
            d = p.decls[m]
            if d["n"] in (ADD, SUB) and m in p.fns and d.get("cls") == i:
                own.setdefault(i, {}).setdefault(d["n"], p.fns[m])
    if not own:
        raise Broken("nothing counts references in " + p.tu)
    for K in sorted(own):
        counters(ctx, p, K, own[K])
    bound(ctx, p, own)
    conversions(ctx, p)
    contexts(ctx, p, pump[0])


# ---------------------------------------------------------------- the object's own count
def counters(ctx, p, K, fs):
    ctx.count("counting_classes")

    def label(ex, st, ev):
        if ev.kind == "branch":
            return ("B", ev.cond, ev.taken)
        if ev.kind == "write" and ev.loc and ev.loc[0] == "f" and ev.loc[1] == ("this",):
            return ("W", ev.loc[2], ev.val, ev.line)
        if ev.kind == "call" and ev.d is not None and ev.name in TAKE + GIVE:
            return ("T" if ev.name in TAKE else "G", tuple(deep(ex, st, a) for a in ev.args), ev.line)
    fns = [p.fns[m] for m in p.classes[K].get("ms", []) if m in p.fns and p.decls[m].get("cls", K) == K]
    names = TAKE + GIVE
    opq = lambda p, d: d["n"] in names
    field = set()
    for fn in fs.values():
        for q in trace(p, fn, K, label, force=True, inline_all=True, opaque=opq)[0]:
            field |= {l[1] for l in q.labels if l[0] == "W" and p.ty(p.decls[l[1]]["ty"]).get("int")}
    if len(field) != 1:
        raise Broken("%d counters in %s" % (len(field), p.classes[K]["qn"]))
    F = field.pop()
    loc = ("v", ("f", ("this",), F))
    home = set()
    touching = [fn for fn in fns if touches(fn, {p.decls[F]["n"]}) or fn.name in (ADD, SUB, CLEAR, RESET)]
    for fn in touching:
        ctx.analysed(fn)
        ctor = p.decls[fn.id].get("ctor")
        if ctor:
            continue
        for q in trace(p, fn, K, label, force=True, inline_all=True, opaque=opq)[0]:
            if q.kind not in ("exit", "void"):
                continue
            env = Env(p)
            env.cs.append({("f", ("this",), F): 1})
            for i, a in enumerate(fn.params):
                env.cs.append({("arg", i): 1})
            start = env.form(loc)
            v, net, n = start, {}, 0
            for l in q.labels:
                if l[0] == "B":
                    env.assume(l[1], l[2])
                elif l[0] == "W" and l[1] == F:
                    v = env.form(l[2])
                elif l[0] in ("T", "G"):
                    if len(l[1]) < 2:
                        ctx.violation("count missing in %s" % fn.qn, fn.where(l[2]), "a reference is taken or given back without saying how many", q.trail[-8:], p.tu)
                        continue
                    net = add(net, env.form(l[1][1]), 1 if l[0] == "T" else -1)
                    home.add(shape(l[1][0]))
                    n += 1
            delta = add(v, start, -1)
            ctx.count("count_paths")
            if not env.eq0(add(delta, net, -1)):
                ctx.violation("unbalanced in %s" % fn.qn, q.where, "the object's count changes by another number than it takes from or gives back to the pump", q.trail[-8:], p.tu)
            if not env.ge0(v):
                ctx.violation("negative in %s" % fn.qn, q.where, "the object's count can fall below zero", q.trail[-8:], p.tu)
            want = None
            if fn.name == ADD:
                want = {("arg", 0): 1}
            elif fn.name == SUB:
                want = {("arg", 0): -1} if delta else None
                if not delta and not env.eq0({("arg", 0): 1}) and not env.ge0(add({("arg", 0): 1}, add(start, const(1)), -1)):
                    ctx.violation("not given back in %s" % fn.qn, q.where, "references that the object holds are not given back when asked to", q.trail[-8:], p.tu)
            elif fn.name == CLEAR and not env.eq0(v):
                ctx.violation("not cleared in %s" % fn.qn, q.where, "clearing can leave references behind", q.trail[-8:], p.tu)
            elif fn.name == RESET and not env.ge0(add(v, const(-1))):
                ctx.violation("not reset in %s" % fn.qn, q.where, "after a reset the object can be without a reference", q.trail[-8:], p.tu)
            if want is not None and not env.eq0(add(delta, want, -1)):
                ctx.violation("other number in %s" % fn.qn, q.where, "the object's count changes by another number than asked for", q.trail[-8:], p.tu)
    if len(home) > 1:
        ctx.violation("two contexts in %s" % p.classes[K]["qn"], next(iter(fs.values())).where(), "references are taken from one context and given back to another", [], p.tu)
    for fn in fns:
        if p.decls[fn.id].get("ctor") and not copy_ctor(p, fn):
            ctx.count("initial_counts")
            for q in trace(p, fn, K, label, force=True, opaque=lambda p, d: True, calls=names)[0]:
                v = next((l[2] for l in reversed(q.labels) if l[0] == "W" and l[1] == F), None)
                if v != ("c", 1):
                    ctx.violation("initial count in %s" % fn.qn, q.where, "a new object says that it holds another number of references than the one its context was chosen with", q.trail[-5:], p.tu)


def copy_ctor(p, fn):
    ps = p.decls[fn.id].get("ps", [])
    return len(ps) == 1 and p.ty(p.decls[ps[0]]["ty"] if isinstance(ps[0], int) and ps[0] < len(p.decls) and p.decls[ps[0]] else 0).get("cls") == fn.cls if ps else False


# ---------------------------------------------------------------- classes bound to a pump
def pfinal(p, c, name):
    for b in [c] + list(p.bases(c)):
        for m in p.classes[b].get("ms", []):
            d = p.decls[m]
            if d["n"] == name and d.get("virt"):
                f = p.final(c, m)
                return p.fns.get(f if f is not None else m)
    return None


def forwards(p, c, fn):
    """None when the function does nothing, else [(facts, kind, object, args, line)] per path"""
    def label(ex, st, ev):
        if ev.kind == "branch":
            return ("B", ev.cond, ev.taken)
        if ev.kind == "call" and ev.d is not None and ev.name in ("assign_io_context", "return_io_context"):
            return ("X", ev.name, ev.obj, tuple(ev.args), ev.line)
    return trace(p, fn, c, label, force=True, inline_all=True, opaque=lambda p, d: d["n"] in ("assign_io_context", "return_io_context") or d["n"] in ("get_service_pump", "get_matrix"))[0]


_f = {}


def route(p, c, name):
    fn = pfinal(p, c, name)
    if fn is None:
        return None, None
    k = (p.tu, fn.id)
    if k not in _f:
        _f[k] = forwards(p, c, fn)
    return fn, _f[k]


def pumped(p, c):
    fn, qs = route(p, c, "detach_io_context")
    return fn is not None and any(l[0] == "X" for q in qs for l in q.labels)


def bound(ctx, p, own):
    roots = set(own)
    seen = set()
    leaves = {c for c in p.leaf_classes(NS + "timer")}
    for c in range(len(p.classes)):
        bs = list(p.bases(c))
        if not (set(bs) | {c}) & roots or not p.classes[c].get("ms"):
            continue
        service = any(p.classes[b]["qn"] in (NS + "service_pump::i_service", NS + "socket") for b in bs)
        fa, qa = route(p, c, "attach_io_context")
        fd, qd = route(p, c, "detach_io_context")
        if fa is None or fd is None:
            continue
        if not pumped(p, c):
            if service and c in leaves:
                ctx.violation("not forwarded by %s" % p.classes[c]["qn"], fd.where(), "references of this class are counted but never given back to its pump", [], p.tu)
            continue
        ctx.count("bound_classes")
        for fn, qs, name in ((fa, qa, "assign_io_context"), (fd, qd, "return_io_context")):
            if (p.tu, fn.id) in seen:
                continue
            seen.add((p.tu, fn.id))
            ctx.analysed(fn)
            for q in qs:
                xs = [l for l in q.labels if l[0] == "X"]
                ctx.count("forwardings")
                if not xs:
                    if not any(l[0] == "B" and null(p, l) and pointer(p, l[1]) for l in q.labels):
                        ctx.violation("dropped in %s" % fn.qn, q.where, "a path neither forwards the references to the pump nor knows that there is none", q.trail[-6:], p.tu)
                elif len(xs) != 1 or xs[0][1] != name or len(xs[0][3]) < 2 or [canon(a) for a in xs[0][3][:2]] not in ([("arg", 0), ("arg", 1)], [("param", 0), ("arg", 1)], [("param", 0), ("param", 1)]):
                    ctx.violation("altered in %s" % fn.qn, q.where, "the pump is told another context or number than the object counts", q.trail[-6:], p.tu)
        if {shape(l[2]) for q in qa for l in q.labels if l[0] == "X"} != {shape(l[2]) for q in qd for l in q.labels if l[0] == "X"}:
            ctx.violation("two pumps in %s" % p.classes[c]["qn"], fd.where(), "references are taken from one pump and given back to another", [], p.tu)
        destructors(ctx, p, c, bs, own)
        if any(p.classes[b]["qn"] == NS + "socket" for b in bs):
            closing(ctx, p, c)


def null(p, l):
    """the fact says that a pointer is null"""
    k, v = l[1], l[2]
    while k[0] == "un" and k[1] == "!":
        k, v = k[2], not v
    if k[0] == "bin" and k[1] in ("==", "!="):
        for a, b in ((k[2], k[3]), (k[3], k[2])):
            if a == ("c", 0) and b[0] != "c":
                return v == (k[1] == "==")
    return k[0] in ("v", "rd", "f", "call", "pure") and not v


def pointer(p, t):
    """every field the condition reads is a pointer"""
    fs = [s[2] for s in subterms(t) if isinstance(s, tuple) and len(s) == 3 and s[0] == "f"]
    cs = [s[1] for s in subterms(t) if isinstance(s, tuple) and s and s[0] in ("call", "pure")]
    return bool(fs or cs) and all(p.ty(p.decls[x]["ty"]).get("ptr") is not None for x in fs) and all("matrix" in str(x) for x in cs)


_d = {}


def destructors(ctx, p, c, bs, own):
    """each counting base is cleared by a destructor at a level where giving back reaches the pump"""
    for K in sorted(set(bs) & set(own)) + ([c] if c in own else []):
        ok = False
        for b in [c] + bs:
            if b != K and K not in p.bases(b) or not pumped(p, b):
                continue
            mine, qs = route(p, b, "detach_io_context")
            if mine is not route(p, c, "detach_io_context")[0] and not all(any(l[0] == "X" for l in q.labels) for q in qs):
                continue  # at that level the pump may not be reached
            k = (p.tu, b, K)
            if k not in _d:
                _d[k] = False
                for m in p.classes[b].get("ms", []):
                    fn = p.fns.get(m)
                    if fn is None or not (fn.name.startswith("~") or fn.name == "<dtor>") or p.decls[m].get("cls", b) != b:
                        continue

                    def label(ex, st, ev):
                        if ev.kind == "call" and ev.d is not None and ev.name == CLEAR and ev.frame.depth == 0 or ev.kind == "call" and ev.d is not None and ev.name == CLEAR:
                            return ("CLR", p.decls[ev.d].get("cls"))
                    qs = trace(p, fn, b, label, force=True, inline_all=True, opaque=lambda p, d: d["n"] in (CLEAR, "stop_all_timer") or d["n"].startswith("~") or d["n"] == "<dtor>")[0]
                    ctx.analysed(fn)
                    _d[k] = bool(qs) and all(any(l[0] == "CLR" and l[1] == K for l in q.labels) for q in qs)
            ok = ok or _d[k]
        ctx.count("destructions")
        if not ok:
            ctx.violation("kept by %s" % p.classes[c]["qn"].split("::")[-1], p.fns[p.classes[c]["ms"][0]].where() if p.classes[c]["ms"] and p.classes[c]["ms"][0] in p.fns else p.classes[c]["qn"],
                          "no destructor of %s gives back the references counted in %s at a level where that reaches the pump" % (p.classes[c]["qn"], p.classes[K]["qn"]), [], p.tu)


def replaced(p, fn, q):
    """the path where the application registered a handler in place of the library's"""
    return "callbacks" in fn.qn and any(l[0] == "B" and has(l[1], lambda t: t[0] == "f" and p.decls[t[2]]["n"] == "second") and core(l[1], l[2])[1] for l in q.labels)


def closing(ctx, p, c):
    """on_close gives all back unless its facts make the socket start again; reset and starting again take one first"""
    fn = method(p, c, "on_close", False)
    after = method(p, c, "after_close", False)

    def label(ex, st, ev):
        if ev.kind == "branch":
            return ("B", ev.cond, ev.taken, ev.line)
        if ev.kind == "call" and ev.d is not None:
            if ev.name in (CLEAR, RESET):
                return (ev.name,)
            if ev.name == "start":
                return ("START",)
    def rounds(ex, st, ev):
        return ev.kind == "branch" and sum(1 for l in st.rule if l[0] == "B" and l[3] == ev.line) >= 2
    stop = lambda p, d: d["n"] in (CLEAR, RESET, "start", "del_socket", "clear_buffer", "set_value", "stop_all_timer", "stop_timer", "shutdown", "close", "unified_out", "info_out", "error_out")
    getter = lambda g: bool(g.d.get("const")) and len(g.st) < 25 and not g.params
    key = ("close", p.tu, fn.id if fn else None, after.id if after else None)
    if fn is not None and key not in _d:
        _d[key] = True
        ctx.analysed(fn)
        qs = trace(p, fn, c, label, force=True, calls=(CLEAR,), bodies=getter, opaque=stop, prune=rounds)[0]
        aq = trace(p, after, c, label, force=True, opaque=stop, calls=("start",), bodies=getter)[0] if after else []
        for q in qs:
            if q.kind not in ("exit", "void"):
                continue
            ctx.count("closings")
            if any(l[0] == CLEAR for l in q.labels) or replaced(p, fn, q):
                continue
            facts = [(core(l[1], l[2])) for l in q.labels if l[0] == "B"]
            facts = {(shape(k), v) for k, v in facts}
            cons = [a for a in aq if not replaced(p, after, a) and not any((canon(core(l[1], l[2])[0]), not core(l[1], l[2])[1]) in facts for l in a.labels if l[0] == "B")]
            if not cons or not all(any(l[0] == "START" for l in a.labels) for a in cons):
                ctx.violation("kept at the close by %s" % fn.qn, q.where, "a socket that is not started again keeps its references when it closes", q.trail[-8:], p.tu)
    rs = method(p, c, "reset", False)
    if rs is not None and ("reset", p.tu, rs.id) not in _d:
        _d[("reset", p.tu, rs.id)] = True
        qs = trace(p, rs, c, label, force=True, inline_all=False, calls=(RESET,), opaque=stop, prune=rounds)[0]
        ctx.count("resets")
        for q in qs:
            if q.kind in ("exit", "void") and not any(l[0] == RESET for l in q.labels) and not replaced(p, rs, q):
                ctx.violation("reused without a reference by %s" % rs.qn, q.where, "a socket that is reused is not given a reference again", q.trail[-8:], p.tu)
    ini = method(p, c, "init", False)
    if ini is not None and ("init", p.tu, ini.id) not in _d:
        _d[("init", p.tu, ini.id)] = True
        qs = trace(p, ini, c, label, force=True, opaque=stop, calls=(RESET, "start"))[0]
        ctx.count("service_starts")
        for q in qs:
            names = [l[0] for l in q.labels if l[0] in (RESET, "START")]
            if "START" in names and RESET not in names[:names.index("START")]:
                ctx.violation("started without a reference by %s" % ini.qn, q.where, "a service is started (again) before it takes a reference", q.trail[-8:], p.tu)


_c = {}


def calls_one(p, fn, names):
    k = (p.tu, fn.id)
    if k not in _c:
        _c[k] = {p.decls[x["d"]]["n"] for _, x in fn.calls() if x.get("d") is not None}
    return bool(_c[k] & set(names))


# ---------------------------------------------------------------- pump -> context
def conversions(ctx, p):
    """every conversion takes exactly one reference"""
    for fn in p.fns.values():
        for s, x in fn.calls():
            d = p.decls[x["d"]] if x.get("d") is not None else None
            if d is None or d["n"] != "assign_io_context" or not d["qn"].startswith(NS + "service_pump"):
                continue
            if len(d.get("ps", [])) != 1:
                continue
            ctx.count("conversions")
            a = x.get("c", [])[-1] if x.get("c") else None
            if a is not None and a >= 0 and any(fn.st[i].get("cv") == 0 for i in (a, fn.strip(a)) if fn.st[i]):
                ctx.violation("uncounted in %s" % fn.qn, fn.where(x["l"]), "an object is bound to a context without taking a reference", [], p.tu)


# ---------------------------------------------------------------- the pump's own count
def contexts(ctx, p, P):
    cc = next((i for i, k in enumerate(p.classes) if k["qn"] == NS + "service_pump::context"), None)
    if cc is None:
        raise Broken("no contexts in " + p.tu)
    R = [f for f in p.classes[cc].get("fs", []) if p.ty(p.decls[f]["ty"]).get("int")]
    if len(R) != 1:
        raise Broken("%d counts in a context" % len(R))
    R = R[0]
    mutexes = set()
    for fn in [p.fns[m] for m in p.classes[P].get("ms", []) if m in p.fns]:
        if not reach(p, fn, R) or p.decls[fn.id].get("ctor") or fn.name in ("<dtor>",) or fn.name.startswith("~"):
            continue
        called_by = [g for g in p.fns.values() if g.cls == P and g is not fn and any(x.get("d") == fn.id for _, x in g.calls())]
        if called_by and p.decls[fn.id].get("acc") and all(reach(p, g, R) for g in called_by):
            continue  # analysed inside its callers
        if not touches(fn, {p.decls[R]["n"]}) and p.decls[fn.id]["n"].startswith("operator"):
            continue
        ctx.analysed(fn)
        search(ctx, p, P, fn, R, mutexes)
    if len(mutexes) > 1:
        ctx.violation("two mutexes", p.classes[P]["qn"], "the counts of the contexts are guarded by different mutexes", [], p.tu)


_r = {}


def reach(p, fn, R, n=0):
    k = (p.tu, fn.id)
    if k not in _r:
        _r[k] = False
        _r[k] = touches(fn, {p.decls[R]["n"]}) or n < 3 and any(x.get("d") in p.fns and p.fns[x["d"]].cls == fn.cls and reach(p, p.fns[x["d"]], R, n + 1) for _, x in fn.calls())
    return _r[k]


def search(ctx, p, P, fn, R, mutexes):
    name = fn.name
    held = {}

    def isR(t):
        t = canon(t)
        return isinstance(t, tuple) and len(t) == 3 and t[0] == "f" and t[2] == R

    def label(ex, st, ev):
        out = []
        L = next((l[1] for l in reversed(st.rule) if l[0] == "LK"), locks.LockState.empty())
        new, evs = locks.step(p, ex, st, ev, L)
        if new != L:
            out.append(("LK", new))
        x = loops.label(ex, st, ev)
        if x:
            out.append(x)
        if ev.kind == "branch":
            out.append(("B", ev.cond, ev.taken, ev.line, new[0] if any(isR(t) for t in subterms(ev.cond) if isinstance(t, tuple)) else None))
        elif ev.kind == "write":
            out.append(("W", ev.loc, ev.val, ev.op, ev.line, new[0] if isR(ev.loc) or any(isR(t) for t in subterms(ev.val) if isinstance(t, tuple)) else None))
        elif ev.kind == "call" and ev.d is not None and any(isR(a) for a in ev.args):
            out.append(("U", tuple(ev.args), ev.line, new[0]))
        return out or None
    qs = trace(p, fn, P, label, force=True, inline_all=True, prune=loops.prune)[0]
    kinds = set()
    for q in qs:
        last = None
        for l in q.labels:
            h = l[4] if l[0] == "B" else l[5] if l[0] == "W" else l[3] if l[0] == "U" else None
            if h is not None:
                ctx.count("count_accesses")
                if not h:
                    ctx.violation("unlocked in %s" % fn.qn, fn.where(l[3] if l[0] == "B" else l[4] if l[0] == "W" else l[2]), "the references of a context are touched without the mutex", q.trail[-8:], p.tu)
                mutexes |= set(h[:1])
        changes = [l for l in q.labels if l[0] == "W" and isR(l[1])]
        kinds |= {l[3] for l in changes}
    ctx.count("count_functions")
    n = len(fn.params)
    if name in ("assign_io_context", "return_io_context") and n == 2:
        sign = 1 if name == "assign_io_context" else -1
        for q in qs:
            if q.kind not in ("exit", "void"):
                continue
            changes = [(i, l) for i, l in enumerate(q.labels) if l[0] == "W" and isR(l[1])]
            hits = [i for i, l in enumerate(q.labels) if l[0] == "B" and matches(l)]
            ctx.count("count_changes")
            skipped = [l for l in q.labels if l[0] == "B" and mode(p, l)]
            if skipped and not hits and not changes and not any(l[0] == "LT" for l in q.labels):
                f = mode(p, skipped[0])
                if changes_later(p, P, f):
                    ctx.violation("uncounted mode in %s" % fn.qn, q.where, "references are not counted while '%s' holds, which can change while objects hold references" % p.decls[f]["n"], q.trail[-6:], p.tu)
                continue
            env = Env(p)
            if len(changes) != min(len(hits), 1):
                ctx.violation("miscounted in %s" % fn.qn, q.where, "the count of the context asked for is changed %d times" % len(changes) if hits else "the count of another context is changed", q.trail[-8:], p.tu)
            for i, l in changes:
                old = ("v", l[1])
                d = add(env.form(l[2]), env.form(old), -1)
                if l[3] in ("=",) and not any(isR(t) for t in subterms(l[2]) if isinstance(t, tuple)) or add(d, {("arg", 1): sign}, -1):
                    ctx.violation("other number in %s" % fn.qn, fn.where(l[4]), "the count of the context changes by another number than asked for", q.trail[-8:], p.tu)
    elif name == "assign_io_context":
        pick(ctx, p, P, fn, R, qs, isR)
    elif kinds:
        ctx.violation("changed in %s" % fn.qn, fn.where(), "a function that neither assigns nor returns a context changes its count", [], p.tu)


def matches(l):
    """the test compares the address of a context with the one asked for, and says equal"""
    k, v = l[1], l[2]
    while k[0] == "un" and k[1] == "!":
        k, v = k[2], not v
    if k[0] == "bin" and k[1] in ("==", "!=") or k[0] == "pure" and k[1] in ("operator==", "operator!="):
        a, b = (k[2], k[3]) if k[0] == "bin" else k[2][:2]
        if any(canon(x) in (("param", 0), ("arg", 0)) for x in (a, b)):
            return v == (k[1] in ("==", "operator=="))
    return False


def mode(p, l):
    """bool field of the pump that the branch found true"""
    k, v = core(l[1], l[2])
    k = canon(k)
    if isinstance(k, tuple) and len(k) == 3 and k[0] == "f" and k[1] == ("this",) and p.ty(p.decls[k[2]]["ty"])["s"] in ("bool", "_Bool"):
        return k[2]
    return None


def changes_later(p, P, f):
    """is the flag changed by a function that does not make sure that the service has not started"""
    for m in p.classes[P].get("ms", []):
        fn = p.fns.get(m)
        if fn is None or p.decls[m].get("ctor"):
            continue
        if not touches(fn, {p.decls[f]["n"]}):
            continue

        if not any(x and x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") and (lambda y: y and y["k"] == "mem" and y["d"] == f)(fn.st[fn.strip(x["c"][0])]) for x in fn.st):
            continue
        bad = []

        def label(ex, st, ev):
            if ev.kind == "branch":
                return ("B", ev.cond, ev.taken, ev.line)
            if ev.kind == "write" and ev.loc == ("f", ("this",), f):
                facts = [core(l[1], l[2]) for l in st.rule if l[0] == "B"]
                if not any(not v and (has(k, lambda t: t[0] in ("call", "pure") and str(t[1]).endswith("is_service_started")) or has(k, lambda t: t[0] == "f" and p.decls[t[2]]["n"] == "started")) for k, v in facts):
                    bad.append(ev.line)
                return ("W",)

        def prune(ex, st, ev):
            return any(l[0] == "W" for l in st.rule) or ev.kind == "branch" and sum(1 for l in st.rule if l[0] == "B" and l[3] == ev.line) >= 2
        trace(p, fn, P, label, force=True, fields=(p.decls[f]["n"],), bodies=lambda g: g.name == "is_service_started", prune=prune)
        if bad:
            return True
    return False


def pick(ctx, p, P, fn, R, qs, isR):
    """the context chosen has the fewest references, and its count grows by one"""
    for q in qs:
        # split into iterations
        cuts = [i for i, l in enumerate(q.labels) if l[0] == "LT"]
        for a, b in zip(cuts, cuts[1:] + [len(q.labels)]):
            if not q.labels[a][3]:
                continue
            x = ("deref", q.labels[a][1])
            mine = q.labels[a + 1:b]
            elem = lambda t: has(t, lambda s: s == x) if isinstance(t, tuple) else False
            taken = [l for l in mine if l[0] == "W" and not isR(l[1]) and l[2] and isinstance(l[2], tuple) and elem(l[2]) and not isR(l[2])]
            if not any(l[0] == "B" and elem(l[1]) for l in mine):
                continue
            env = Env(p)
            others = []
            first = False
            for l in mine:
                if l[0] != "B":
                    continue
                env.assume(l[1], l[2])
                if null(p, l) and not any(isR(t) for t in subterms(l[1]) if isinstance(t, tuple)):
                    first = True  # nothing chosen so far
                for t in subterms(l[1]):
                    if isinstance(t, tuple) and t and (isR(t) and t[0] == "f" and not elem(t) or t[0] == "h"):
                        others.append(t)
            rf = env.form(("v", ("f", x, R)))
            if rf not in env.cs:
                env.cs.append(rf)
            for o in others:
                env.cs.append(env.form(o))
            ctx.count("choices")
            goes_on = b < len(q.labels) and q.labels[b][0] == "LT"
            if q.labels[a][1][0] != "h":
                # first element: must be chosen
                if not taken:
                    ctx.violation("first not chosen in %s" % fn.qn, q.where, "the first context can be passed over although nothing is chosen yet", q.trail[-8:], p.tu)
                    continue
            elif taken:
                if not first and not any(env.ge0(add(env.form(o), rf, -1)) or env.eq0(env.form(o)) for o in others) and not env.eq0(rf):
                    ctx.violation("busier chosen in %s" % fn.qn, q.where, "a context with more references than the one chosen so far can be chosen", q.trail[-8:], p.tu)
            else:
                if not any(env.ge0(add(rf, env.form(o), -1)) for o in others):
                    ctx.violation("idler passed over in %s" % fn.qn, q.where, "a context with fewer references than the one chosen so far can be passed over", q.trail[-8:], p.tu)
            sentinel = any(env.form(o) and not isR(o) for o in others)
            if taken and goes_on and sentinel and not env.ge0(add(rf, const(-1))) and q.labels[a][1][0] == "h" and any(l[0] == "B" for l in mine):
                ctx.violation("unused context not kept in %s" % fn.qn, q.where, "the search goes on after a context without references was chosen, and can leave it for another", q.trail[-8:], p.tu)
        if q.kind == "exit":
            env = Env(p)
            ch = [l for l in q.labels if l[0] == "W" and isR(l[1])]
            ctx.count("picks")
            flag = next((l for l in q.labels if l[0] == "B" and canon(core(l[1], l[2])[0]) in (("arg", 0), ("param", 0))), None)
            if not any(l[0] == "LT" for l in q.labels):
                m = next((mode(p, l) for l in q.labels if l[0] == "B" and mode(p, l)), None)
                if m is not None and not ch and changes_later(p, P, m):
                    ctx.violation("uncounted mode in %s" % fn.qn, q.where, "references are not counted while '%s' holds, which can change while objects hold references" % p.decls[m]["n"], q.trail[-6:], p.tu)
                continue
            want = 1 if flag is None or core(flag[1], flag[2])[1] else 0
            ch = [l for l in ch if value(add(env.form(l[2]), env.form(("v", l[1])), -1)) != 0]
            if len(ch) != want or any(value(add(env.form(l[2]), env.form(("v", l[1])), -1)) != 1 for l in ch):
                ctx.violation("miscounted in %s" % fn.qn, q.where, "choosing a context changes its count by another number than one", q.trail[-8:], p.tu)
            for l in ch:
                o = canon(l[1])[1]
                if canon(o) not in [canon(t) for t in subterms(q.val) if isinstance(t, tuple)]:
                    ctx.violation("other counted in %s" % fn.qn, q.where, "the count of another context than the one handed out is changed", q.trail[-8:], p.tu)


def run(ctx):
    ctx.each(LIB, unit)
    ctx.need("counting_classes", 20)
    ctx.need("count_paths", 100)
    ctx.need("bound_classes", 60)
    ctx.need("destructions", 60)
    ctx.need("closings", 20)
    ctx.need("resets", 10)
    ctx.need("conversions", 20)
    ctx.need("count_accesses", 30)
    ctx.need("choices", 20)
