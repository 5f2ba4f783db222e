RULE = """Every public queue operation other than the documented unlocked ones (trailing underscore) touches the content and the byte count only
while the queue's own lock is held, and the lock is free again when it returns. On every path of every operation the byte count changes by exactly
the size of what enters or leaves: per added item its size, per removed item its size, measured when it still (or already) holds that item; bulk
moves by the sizes of exactly the moved items; clear to zero; swap to the measured size of the new content. Unlocked operations are called from
outside only with the queue's lock held, and a caller that passes the byte size of the items it hands over has summed exactly those items."""
EXPLANATION = """A ghost model (content operations, measured sizes, iterator accumulation) is run over every path of every operation of every
instantiated queue class, and over the callers that bypass the lock or supply sizes."""
ASSUMPTIONS = ["the container behaves as documented (splice moves, swap exchanges, pop removes the front)", "message objects report the same size until they are changed",
               "on_msg returns a positive value whenever it changed the container (documented)"]
import locks, qmodel
from lib import *
from witness_units import LIB, DEMO

LOGS = ("error_out", "info_out", "warning_out", "fatal_out", "debug_out")


def lockable(p, c):
    """the queue's lock base really locks"""
    for b in p.bases(c):
        if p.classes[b]["n"] in ("lockable", "dummy_lockable"):
            return b
    return None


def unit(ctx, p):
    done = set()
    for c in qmodel.queues(p):
        total = qmodel.total_field(p, c)
        ctx.count("queue_classes")
        for fn in qmodel.members(p, c):
            d = p.decls[fn.id]
            if fn.name == "<dtor>" or d.get("acc"):
                continue
            ctx.analysed(fn)
            r, ex = qmodel.explore(p, c, fn, total)
            free = fn.name.endswith("_")
            for q in r.out:
                g = q.labels[0]
                ctx.count("paths")

                def bad(rule, msg):
                    ctx.violation("%s in %s" % (rule, fn.qn), q.where, msg, q.trail[-12:], p.tu)
                if d.get("ctor"):
                    if not (g.tw and g.tw[-1][0] == "set" and g.tw[-1][1] == T0) and any(w for w in g.tw) or not g.tw and fn.params == []:
                        bad("initial count", "a new queue's byte count is not zero")
                    continue
                if not free:
                    if any(o[0] == "unlocked" for o in g.ops):
                        bad("unlocked", "the queue's content or byte count is accessed without its lock")
                    if q.kind == "exit" and g.ls[0]:
                        bad("lock leak", "the queue's lock is still held when the operation returns")
                m = qmodel.judge(p, q, ex)
                if m == "undecided":
                    ctx.count("undecided")
                elif m:
                    bad("byte count", m)
                else:
                    ctx.count("accounted")
            for b in r.bad:
                ctx.violation("relock in %s" % fn.qn, b[1].where(b[2]), "the queue's lock is taken while it is held", b[3][-12:], p.tu)
    for c in p.cls_by_qn(NS + "lockable"):
        locks_really(ctx, p, c)
    outside(ctx, p)


def locks_really(ctx, p, c):
    for name, want in (("lock", "lock"), ("unlock", "unlock")):
        fn = own_method(p, c, name)
        for q in trace(p, fn, c, lambda ex, st, ev: (ev.name,) if ev.kind == "call" and ev.qn and "mutex" in ev.qn and ev.obj and ev.obj[0] == "f" else None, force=True, inline_all=True)[0]:
            ctx.count("lock_primitives")
            if [l[0] for l in q.labels] != [want]:
                ctx.violation("%s of %s" % (name, fn.qn), q.where, "the queue's lock does not %s its mutex exactly once" % want, q.trail, p.tu)


def covers(p, held, obj):
    return any(h == obj or (h and h[0] == "f" and h[1] == obj) for h in held)


def is_queue(p, cid):
    return cid is not None and any(p.classes[b]["qn"] == NS + "queue" for b in p.bases(cid))


def outside(ctx, p):
    """calls of unlocked operations and of size-taking operations from other classes"""
    un, sized = {}, {}
    for fn in p.fns.values():
        if is_queue(p, fn.cls):
            continue
        for _, x in fn.calls():
            if x.get("d") is None:
                continue
            d = p.decls[x["d"]]
            if not is_queue(p, d.get("cls")):
                continue
            if d["n"].endswith("_") and lockable(p, d["cls"]) and p.classes[lockable(p, d["cls"])]["n"] == "lockable":
                un.setdefault(fn.id, set()).add(x["d"])
            if d["n"].startswith("move_items_in") and len(x.get("c", [])) > 1:
                sized.setdefault(fn.id, set()).add(x["d"])
    for f, ds in un.items():
        fn = p.fns[f]
        ctx.analysed(fn)

        def label(ex, st, ev):
            r = st.rule
            ls = r[0][1] if r and r[0][0] == "LS" else locks.LockState.empty()
            ns, evs = locks.step(p, ex, st, ev, ls)
            if ns != ls:
                st.rule = (("LS", ns),) + tuple(x for x in r if x[0] != "LS")
            if ev.kind == "call" and ev.d in ds and not any(is_queue(p, q.cls) for q in ev.frame.chain()):
                return ("use", covers(p, ns[0], ev.obj), ev.name, ev.line)
            return None
        for q in trace(p, fn, fn.cls, label, calls=lambda p, d: d["n"] in ("lock", "unlock") or d["id"] in ds, opaque=lambda p, d: d["id"] in ds, force=True)[0]:
            for l in q.all("use"):
                ctx.count("unlocked_uses")
                if not l[1]:
                    ctx.violation("unlocked use in %s" % fn.qn, fn.where(l[3]), "%s is called without the queue's lock" % l[2], q.trail[-12:], p.tu)
            if q.kind == "exit" and q.labels and q.labels[0][0] == "LS" and q.labels[0][1][0]:
                ctx.violation("lock leak in %s" % fn.qn, q.where, "the queue's lock is still held when the function returns", q.trail[-12:], p.tu)
    for f, ds in sized.items():
        fn = p.fns[f]
        ctx.analysed(fn)
        r = SumRule(p, ds)
        ex = Explorer(p, r, fn, fn.cls)
        ex.run()
        for kind, line, trail in set((a, b, tuple(t[-12:])) for a, b, t in r.found):
            ctx.count("sized_moves")
            if kind == "undecided":
                ctx.count("undecided")
            elif kind:
                ctx.violation("handed-over size in %s" % fn.qn, fn.where(line), kind, trail, p.tu)


class SumRule(TraceRule):
    """state: (accumulations (X, S, pos), fills (X, B, pos), measures (res, loc, value), on_msg results, get_size results)"""

    def __init__(self, p, ds):
        TraceRule.__init__(self, None, calls=lambda p, d: d["id"] in ds, opaque=lambda p, d: d["id"] in ds or d["n"] in LOGS + ("get_size_in_byte", "size", "send_msg", "check_and_create_promise", "handled_msg", "dispatch_msg"), max_states=60000)
        self.p, self.ds, self.found = p, ds, []

    def start(self, ex):
        return ((), (), (), (), ())

    def begins(self, t):
        t = qmodel.strip(t)
        return t and t[0] == "pure" and t[1] in ("begin", "cbegin")

    def elem(self, ex, st, loc):
        for t in subterms(loc):
            if t and t[0] == "deref" and len(t) == 2:
                v = t[1]
                if v and v[0] == "call" and str(v[1]).endswith("operator++") and v[3]:
                    return v[3], True
                for k, w in st.store.items():
                    if k and k[0] == "var" and w == v:
                        return k, False
        return None

    def event(self, ex, st, ev):
        p = self.p
        acc, fil, meas, hook, alls = st.rule
        if ev.kind == "call" and ev.d is not None:
            if ev.name == "size" and ev.obj is not None and ev.res is not None:
                m = (ev.res, ev.obj, ex.load(st, ev.obj))
                if m not in meas:
                    meas = tuple(x for x in meas if x[0] != ev.res) + (m,)
            elif ev.name == "get_size_in_byte" and ev.args and ev.res is not None:
                alls += ((ev.res, ev.args[0], len(hook)),)
            elif ev.name == "on_msg" and ev.args:
                hook += (("on_msg", ev.args[0], ev.res),)
            elif ev.name in ("emplace_back", "push_back") and ev.obj and ev.obj[0] == "var":
                arg = ev.args and any(self.elem(ex, st, a) for a in ev.args)
                fil = self.fill(ex, st, ev.obj, ev.args[0] if arg else None, fil)
            elif ev.name == "swap" and ev.obj and ev.args and "swap" not in [f.name for f in ev.frame.chain()]:
                for a, b in ((ev.obj, ev.args[0]), (ev.args[0], ev.obj)):
                    e = self.elem(ex, st, b)
                    c = [t for t in subterms(a) if t and t[0] == "call" and str(t[1]).split("::")[-1] in ("emplace_back", "back")]
                    c += [t for t in subterms(a) if t and t[0] == "pure" and t[1] == "back"]
                    if e and c:
                        B = next((f[1] for f in fil if f[0] is None), None)
                        if B is not None:
                            fil = tuple(f for f in fil if f[0] is not None)
                            o = next((f for f in fil if f[0] == e[0] and f[1] == B), (e[0], B, 0))
                            fil = tuple(f for f in fil if f is not o) + ((e[0], B, 1 if o[2] == 0 else 9),)
                        break
            elif ev.name == "operator++" and ev.obj is not None and ev.obj[0] == "var":
                X = ev.obj
                acc = tuple(a if a[0] != X else (X, a[1], {1: 0, 0: -1}.get(a[2], 9)) for a in acc)
                fil = tuple(f if f[0] != X else (X, f[1], {1: 0, 0: 9}.get(f[2], 9)) for f in fil)
            elif ev.d in self.ds:
                self.judge(ex, st, ev, acc, fil, hook, alls)
        elif ev.kind == "write" and ev.loc and ev.loc[0] == "var" and ev.op != "decl":
            S = ev.loc
            old = ex.load(st, S)
            hit = False
            for m in meas:
                e = self.elem(ex, st, m[1])
                if e is None or not has(ev.val, lambda t: t == m[0]):
                    continue
                hit = True
                X, post = e
                good = (ev.val == m[0] and old == T0) or ev.val in (("bin", "+", old, m[0]), ("bin", "+", m[0], old))
                if has(m[2], lambda t: t[0] == "out"):
                    good = False
                o = next((a for a in acc if a[0] == X), None)
                if o is None:
                    o = (X, S, 0 if (self.begins(ex.load(st, X)) and old == T0) else 9)
                else:
                    acc = tuple(a for a in acc if a is not o)
                acc += ((X, S, 1 if good and o[2] == 0 and o[1] == S and not post else 9),)
                break
            if not hit:
                acc = tuple(a if a[1] != S else (a[0], S, 9) for a in acc)
        return (acc, fil, meas, hook, alls)

    def fill(self, ex, st, B, arg, fil):
        if arg is None:
            return tuple(f for f in fil if f[0] is not None) + ((None, B, 0),)
        e = self.elem(ex, st, arg)
        o = next((f for f in fil if f[0] == e[0] and f[1] == B), (e[0], B, 0))
        return tuple(f for f in fil if f is not o) + ((e[0], B, 1 if o[2] == 0 else 9),)

    def judge(self, ex, st, ev, acc, fil, hook, alls):
        n, B = ev.args[1], ev.args[0]
        k = 0
        while n and n[0] in ("var", "tmp") and k < 5:
            w = ex.load(st, n)
            if w == n or w == ("v", n):
                break
            n, k = w, k + 1
        tr = ex.trail(st)
        ok = lambda m: self.found.append((m, ev.line, tr))
        consumed = [h for h in hook if truth(ex, st.facts, ("bin", ">", h[2], T0)) is not False]
        if n == T0 and (not acc):
            return ok("")
        a = next((q for q in alls if q[0] == n), None)
        if a is not None:
            if any(h for h in hook[a[2]:] if h in consumed):
                return ok("the byte size handed over was measured before the application consumed messages")
            return ok("")
        s = [q for q in acc if q[1] is not None and ex.load(st, q[1]) == n]
        if s:
            X = s[0][0]
            f = [q for q in fil if q[0] == X and q[1] == B]
            if any(q[2] == 0 for q in s) and (not f or f[0][2] == 0):
                return ok("")
            return ok("the byte size handed over is not the sum of exactly the messages moved")
        if n == T0:
            return ok("")
        if n[0] in ("arg", "param", "v") and has(n, lambda t: t[0] in ("arg", "param")):
            return ok("undecided")
        return ok("undecided")


def run(ctx):
    ctx.each(LIB + DEMO, unit)
    ctx.need("queue_classes", 20)
    ctx.need("accounted", 400)
    ctx.need("sized_moves", 20)
    ctx.need("lock_primitives", 2)
