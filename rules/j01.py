RULE = """Every lock taken by a function (mutex, queue lock or start gate) is released at each of its exits; a lock taken without a scoped guard is not held while a function
the application may override runs, which could throw. The relation 'taken while another is held', over all synchronous call paths (virtual calls resolved in every concrete
class, tasks dispatched into a strand counted as calls, functors of the iteration helpers followed to what is passed), has no cycle, so no two locks are taken in opposite
orders and none is taken again by its holder. A condition variable is waited for only with the lock it releases. No application notification and no registered callback is
reachable while a lock is held, except from the iteration helpers, which run the caller's functor under the lock of what they iterate over."""
EXPLANATION = """A lock automaton over every path of every function that takes a lock, joined with the synchronous call graph of all concrete classes of the unit."""
ASSUMPTIONS = ["two objects of one class are taken for the same object when the call graph cannot tell them apart", "asio runs a dispatched task at once when it may",
               "an application callback may call any public function of the object it is told about"]
import locks
from a01 import resolve
from b01 import deferrals
from b03 import deep
from lib import *
from witness_units import LIB, DEMO

NOTIFY = "on_"


def lockable_cls(p, c):
    """a class that is itself a lock (has lock and unlock)"""
    for b in p.bases(c):
        ns = {p.decls[m]["n"] for m in p.classes[b].get("ms", [])}
        if "lock" in ns and "unlock" in ns:
            return True
    return False


def known(p, t):
    return t in p.fns or bool(p.decls[t].get("virt"))


class Graph:
    def __init__(self, p):
        self.p = p
        isbase = {b for c in p.classes for b in c.get("b", [])}
        self.leaves = [c["id"] for c in p.classes if c.get("proj") and c["id"] not in isbase]
        self.sub = {}
        for c in self.leaves:
            for b in p.bases(c):
                self.sub.setdefault(b, []).append(c)
        self._ex = {}
        self._edges = {}
        self._inv = {}
        self._reach = {}
        self.defer = {}
        self._locky = {}

    # ---- which functions take locks
    def locky(self, fn):
        r = self._locky.get(fn.id)
        if r is None:
            self._locky[fn.id] = False
            r = False
            for _, x in fn.calls():
                if x["k"] == "ctor":
                    q = self.p.classes[x["cls"]]["qn"] if x.get("cls") is not None else ""
                    if locks.is_guard_cls(q) or q == NS + "scope_atomic_lock":
                        r = True
                        break
                    continue
                d = x.get("d")
                if d is None:
                    continue
                D = self.p.decls[d]
                n = D["n"]
                if n in ("lock", "unlock", "lock_shared", "unlock_shared") and (D.get("cls") is not None or "mutex" in D["qn"]):
                    r = True
                    break
                if d in self.p.fns and D.get("cls") is None and n not in ("main",) and self.on_param(self.p.fns[d]):
                    r = True
                    break
            if fn.cls is not None and fn.name in ("lock", "unlock", "lock_shared", "unlock_shared", "try_lock", "<ctor>", "<dtor>") and lockable_cls(self.p, fn.cls):
                r = False
            if fn.cls is not None and self.p.classes[fn.cls]["qn"] == NS + "scope_atomic_lock":
                r = False
            self._locky[fn.id] = r
        return r

    def on_param(self, fn):
        """a free function that locks a mutex it is given: judged in its callers"""
        return any("mutex" in self.p.ty(self.p.decls[q]["ty"])["s"] for q in fn.params if isinstance(q, int)) and any(x["k"] == "ctor" and x.get("cls") is not None and locks.is_guard_cls(self.p.classes[x["cls"]]["qn"]) for _, x in fn.calls())

    def key(self, loc, dyn):
        p = self.p
        while loc and loc[0] in ("deref", "addr"):
            loc = loc[1]
        if not loc:
            return None
        if loc == ("this",):
            return (dyn, "self")
        if loc[0] == "gate":
            return self.key(loc[1], dyn)
        if loc[0] == "f":
            o = p.decls[loc[2]].get("cls")
            base = loc[1]
            while base and base[0] in ("deref", "addr"):
                base = base[1]
            c = dyn if base == ("this",) else None
            if base and base[0] == "f":
                t = p.ty(p.decls[base[2]]["ty"]).get("cls")
                c = t
            if o is not None and lockable_cls(p, o):
                return (c, "self")
            t = p.ty(p.decls[loc[2]]["ty"]).get("cls")
            if t is not None and p.classes[t].get("proj") and lockable_cls(p, t):
                return (self.leaf(t), "self")
            return (c if c is not None else o, loc[2])
        return None

    def leaf(self, t):
        return t

    def name(self, k):
        c = self.p.classes[k[0]]["qn"].split("::")[-1] if k[0] is not None else "?"
        return "%s of %s" % ("the lock" if k[1] == "self" else self.p.decls[k[1]]["n"], c)

    # ---- one function
    def explore(self, fn, dyn):
        k = (fn.id, dyn)
        if k in self._ex:
            return self._ex[k]
        p = self.p
        G = self

        rec = set()

        def label(ex, st, ev):
            r = st.rule
            out = []
            ls, ever = (r[0][1], r[0][2]) if r else (locks.LockState.empty(), frozenset())
            ns, evs = locks.step(p, ex, st, ev, ls)
            guarded = {g[1] for g in ns[1]}
            for e in evs:
                if e[0] == "acq":
                    prior = tuple(G.key(h, dyn) for h in ls[0])
                    out.append(("ACQ", G.key(e[1], dyn), prior, ev.line, ev.frame.fn.id))
                elif e[0] == "wait":
                    g = next((g for g in ns[1] if e[1] is not None and has(e[1], lambda t: t == g[0])), None)
                    out.append(("WAIT", tuple(h for h in ns[0] if g is None or h != g[1]), g is not None, ev.line))
                else:
                    out.append(("REL", G.key(e[1], dyn)))
            ever = ever | {e[1] for e in out if e[0] == "ACQ"}
            st.rule = (("LS", ns, ever),)
            held = tuple(h for h in ns[0] if G.key(h, dyn) is not None)
            if ev.kind == "call" and ev.d is not None and held and not ev.inlined and not (ev.x is not None and ev.x["k"] == "ctor" and p.classes[ev.x["cls"]]["qn"].startswith("boost")):
                hk = tuple(sorted({G.key(h, dyn) for h in held}, key=str))
                man = tuple(sorted({G.key(h, dyn) for h in held if h not in guarded and not G.gate(h)}, key=str))
                D = p.decls[ev.d]
                if ev.name == "operator()" and ev.obj is not None:
                    v = deep(ex, st, ev.obj)
                    ts = frozenset(t for t in targets(p, v) if known(p, t))
                    if ts:
                        for t in sorted(ts):
                            out.append(("CALL", hk, t, "this", frozenset(), ev.line, man, None))
                    elif ev.obj[0] in ("param", "arg") or has(ev.obj, lambda t: t[0] in ("param", "arg")):
                        out.append(("INV", hk, ev.line))
                    elif "function" in D["qn"] and "::callbacks::" not in ev.frame.fn.qn:
                        out.append(("CB", hk, ev.line, show(p, ev.obj)))
                else:
                    kind = "this" if ev.obj in (("this",), ("deref", ("this",))) else ("none" if ev.obj is None else "other")
                    t = None
                    if kind == "other" and ev.obj[0] == "f":
                        t = p.ty(p.decls[ev.obj[2]]["ty"]).get("cls")
                    ar = frozenset(x for a in ev.args for x in targets(p, deep(ex, st, a)) if known(p, x))
                    out.append(("CALL", hk, ev.d, kind, ar, ev.line, man, t))
            rec.update(out)
            return None

        def op(p, d):
            if d.get("cls") is not None:
                q = p.classes[d["cls"]]["qn"]
                return not (q == NS + "scope_atomic_lock" or d["n"] in ("lock", "unlock", "lock_shared", "unlock_shared", "try_lock"))
            return not (d["id"] in p.fns and self.on_param(p.fns[d["id"]]))
        paths, ex = trace(p, fn, dyn, label, force=True, opaque=op, calls=lambda p, d: d["n"] in ("test_and_set", "clear", "lock", "unlock", "lock_shared", "unlock_shared"), relevant=("_locked",),
                          bodies=lambda f: f.cls is None and self.on_param(f), cap=120)
        exits = [(q.kind, q.where, q.trail[-12:], q.labels[0][1] if q.labels else locks.LockState.empty(), q.labels[0][2] if q.labels else frozenset()) for q in paths]
        self._ex[k] = (exits, sorted(rec, key=str))
        return self._ex[k]

    def gate(self, h):
        return bool(h) and (h[0] == "gate" or h[0] == "f" and "atomic_flag" in self.p.ty(self.p.decls[h[2]]["ty"])["s"])

    # ---- the call graph
    def dyns(self, d, kind, dyn, static=None):
        """classes the object of a call to member function d can have"""
        p = self.p
        c = p.decls[d].get("cls")
        if c is None:
            return [None]
        if kind == "this":
            if dyn is not None and c in p.bases(dyn):
                return [dyn]
            return self.sub.get(c, [c])
        if static is not None and c in p.bases(static):
            return self.sub.get(static, [static])
        return self.sub.get(c, [c])

    def nodes(self, d, kind, dyn, virt, static=None):
        p = self.p
        out = []
        for y in self.dyns(d, kind, dyn, static):
            f = d
            if virt and y is not None:
                q = p.final(y, d)
                if q is not None:
                    f = q
            if f in p.fns:
                out.append((f, y))
        return out

    def edges(self, node):
        if node in self._edges:
            return self._edges[node]
        p = self.p
        fn, dyn = p.fns[node[0]], node[1]
        out, cbs = [], []
        for sid, x in fn.calls():
            d = x.get("d")
            if d is None:
                continue
            D = p.decls[d]
            kind, static = "none", None
            if "obj" in x and x["obj"] is not None and x["obj"] >= 0:
                o = fn.st[fn.strip(x["obj"])]
                kind = "this" if o["k"] == "this" else "other"
                if o["k"] == "mem":
                    static = p.ty(p.decls[o["d"]]["ty"]).get("cls")
            virt = x["k"] == "call" and bool(x.get("vd")) and bool(D.get("virt"))
            if virt and D["n"].startswith(NOTIFY):
                cbs.append(("notification %s" % D["n"], x.get("l", fn.l)))
            if D["n"] == "operator()" and "function" in D["qn"] and kind == "other" and o["k"] == "mem" and "::callbacks::" not in fn.qn:
                cbs.append(("callback %s" % self.slot(fn, o), x.get("l", fn.l)))
            if x["k"] == "ctor":
                if d in p.fns:
                    out.append(((d, None), x.get("l", fn.l)))
                continue
            ns = self.nodes(d, kind, dyn, virt, static)
            out += [(n, x.get("l", fn.l)) for n in ns]
            if any(self.invokes(n) for n in ns):
                for t in self.fargs(fn, x):
                    out += [(m, x.get("l", fn.l)) for m in self.target_nodes(t, dyn)]
        for t in self.defer.get((fn.id, dyn), ()):
            out += [(m, fn.l) for m in self.target_nodes(t, dyn)]
        self._edges[node] = (out, cbs)
        return self._edges[node]

    def slot(self, fn, o):
        n = self.p.decls[o["d"]]["n"]
        if n in ("first", "second") and o.get("c"):
            b = fn.st[fn.strip(o["c"][0])]
            if b["k"] == "mem":
                return self.p.decls[b["d"]]["n"]
        return n

    def target_nodes(self, t, dyn):
        D = self.p.decls[t]
        kind = "this" if dyn is not None and D.get("cls") in self.p.bases(dyn) else "other"
        return self.nodes(t, kind, dyn, bool(D.get("virt")))

    def fargs(self, fn, x):
        """functions whose address is part of the arguments of a call"""
        out, todo, seen = set(), list(x.get("c", [])), set()
        alls = False
        while todo:
            s = todo.pop()
            if s < 0 or s in seen:
                continue
            seen.add(s)
            y = fn.st[s]
            if not y:
                continue
            if y["k"] == "ref":
                if self.p.decls[y["d"]]["k"] == "fn":
                    out.add(y["d"])
                elif self.p.decls[y["d"]]["k"] == "var":
                    alls = True
            elif y["k"] == "lambda":
                out.add(y["d"])
            todo += y.get("c", [])
            if "obj" in y and y["obj"] is not None:
                todo.append(y["obj"])
        if not out and alls:
            out = {d for _, d in fn.fnrefs()} | {y["d"] for y in fn.st if y and y["k"] == "lambda"}
        return {d for d in out if d in self.p.fns or self.p.decls[d].get("virt")}

    def invokes(self, node):
        """locks under which this function runs a functor it was given"""
        if node in self._inv:
            return self._inv[node]
        self._inv[node] = ()
        fn = self.p.fns[node[0]]
        r = ()
        if self.locky(fn):
            for l in self.explore(fn, node[1])[1]:
                if l[0] == "INV":
                    r = tuple(set(r) | set(l[1]))
        self._inv[node] = r
        return r

    def acquires(self, node):
        """{lock: line} this function takes itself, waiting for it"""
        fn = self.p.fns[node[0]]
        out = {}
        if self.locky(fn):
            exits, labels = self.explore(fn, node[1])
            for l in labels:
                if l[0] == "ACQ" and l[1] is not None:
                    out.setdefault(l[1], l[3])
            for k in list(out):
                if k[1] != "self" and "atomic_flag" in self.p.ty(self.p.decls[k[1]]["ty"])["s"]:
                    if any(q[0] == "exit" and k not in q[4] for q in exits):
                        del out[k]  # gives up instead of waiting
        return out

    def reach(self, node):
        """everything run synchronously from node -> {node: (predecessor, line)}"""
        if node in self._reach:
            return self._reach[node]
        seen, todo = {node: None}, [node]
        while todo:
            n = todo.pop(0)
            for m, line in self.edges(n)[0]:
                if m not in seen:
                    seen[m] = (n, line)
                    todo.append(m)
        self._reach[node] = seen
        return seen

    def chain(self, seen, n):
        out = []
        while n is not None:
            f = self.p.fns[n[0]]
            out.append("%s (%s)" % (f.qn, f.where()))
            n = seen[n][0] if seen[n] else None
        return list(reversed(out))


def unit(ctx, p):
    G = Graph(p)
    for c in p.leaf_classes(NS + "tracked_executor"):
        for ts, strand, site, op, entry in deferrals(p, c, ctx):
            if op == "dispatch":
                G.defer.setdefault((entry, c), set()).update(t for t in ts if known(p, t))
                ctx.count("dispatched")
    order = {}
    todo = []
    for c in G.leaves:
        for b in p.bases(c):
            if p.classes[b].get("proj"):
                for f in p.fns.values():
                    if f.cls == b and G.locky(f):
                        todo.append((f, c))
    todo += [(f, None) for f in p.fns.values() if f.cls is None and G.locky(f) and not G.on_param(f)]
    for fn, dyn in todo:
        ctx.analysed(fn)
        ctx.count("locking_functions")
        inv = G.invokes((fn.id, dyn))
        exits, labels = G.explore(fn, dyn)
        for kind, where, trail, ls, ever in exits:
            if kind != "exit":
                continue
            ctx.count("exits")
            left = [G.key(h, dyn) for h in ls[0]]
            left = [k for k in left if k is not None and not any(g[2] and G.key(g[1], dyn) == k and g[0] and g[0][0] in ("param", "arg") for g in ls[1])]
            if left:
                ctx.violation("unreleased %s in %s" % (G.name(left[0]).split(" of ")[0], fn.qn), where, "%s is still held when the function returns" % G.name(left[0]), trail, p.tu)
        for l in labels:
            if l[0] == "ACQ" and l[1] is not None:
                for h in l[2]:
                    if h is not None:
                        note(order, h, l[1], (fn.qn, fn.where(l[3]), [fn.where(l[3])]))
                        ctx.count("nested")
                        if h == l[1]:
                            ctx.violation("%s taken twice in %s" % (G.name(h).split(" of ")[0], fn.qn), fn.where(l[3]), "%s is taken while the same function holds it already" % G.name(h), (), p.tu)
            elif l[0] == "WAIT":
                ctx.count("waits")
                rest = [G.key(h, dyn) for h in l[1]]
                if rest or not l[2]:
                    ctx.violation("waiting with %s in %s" % (G.name(rest[0]) if rest and rest[0] else "a lock", fn.qn), fn.where(l[3]), "a condition variable is waited for while another lock stays held", (), p.tu)
            elif l[0] == "CB":
                callback(ctx, G, fn, dyn, l[1], inv, "callback %s" % l[3], fn.where(l[2]), [])
            elif l[0] == "CALL":
                held(ctx, G, fn, dyn, l, inv, order)
    cycles(ctx, G, order)


def note(order, a, b, why):
    order.setdefault(a, {}).setdefault(b, why)


def callback(ctx, G, fn, dyn, hk, inv, what, where, chain):
    rest = [k for k in hk if k not in inv]
    if rest:
        ctx.violation("%s under %s" % (what, G.name(rest[0]).split(" of ")[0]), where, "%s runs while %s holds %s" % (what, fn.qn, G.name(rest[0])), chain, G.p.tu)


def held(ctx, G, fn, dyn, l, inv, order):
    p = G.p
    _, hk, d, kind, ar, line, man, static = l
    D = p.decls[d]
    ctx.count("calls_under_lock")
    virt = bool(D.get("virt"))
    if man and virt and not D["qn"].startswith("boost"):
        ctx.violation("unguarded %s in %s" % (G.name(man[0]).split(" of ")[0], fn.qn), fn.where(line), "%s is held without a scoped guard while %s runs, which the application can override: it stays locked when that throws" % (G.name(man[0]), D["n"]), (), p.tu)
    if virt and D["n"].startswith(NOTIFY):
        callback(ctx, G, fn, dyn, hk, inv, "notification %s" % D["n"], fn.where(line), [])
    start = G.nodes(d, kind, dyn, virt, static)
    extra = []
    for n in start:
        for a in ar:
            if G.invokes(n) or True and p.fns[n[0]].cls is not None and False:
                extra += G.target_nodes(a, dyn)
    if d not in p.fns and not virt and ar:
        # a library algorithm or wrapper runs the functor it is given
        if not is_initiation(p, D) and D["n"] not in ("bind", "ref", "cref", "function", "mem_fn", "make_shared", "swap", "operator=", "operator,", "emplace_back", "if_then", "if_then_else_return", "unlambda"):
            for a in ar:
                extra += G.target_nodes(a, dyn)
    for n in start + extra:
        seen = G.reach(n)
        for m in seen:
            for k2, ln in G.acquires(m).items():
                for h in hk:
                    ctx.count("nested")
                    if h == k2:
                        again(ctx, G, h, n, fn, fn.where(line), [])
                    note(order, h, k2, (fn.qn, fn.where(line), G.chain(seen, m)))
            for what, ln in G.edges(m)[1]:
                callback(ctx, G, fn, dyn, hk, inv, what, fn.where(line), G.chain(seen, m))
    # functors run under the callee's own lock, from a function that holds none


def again(ctx, G, lock, start, fn, where, prefix):
    """every distinct way (told apart by the step into an overridable function, or the last step) in which the holder takes its lock again"""
    p = G.p
    cut = set()
    for _ in range(6):
        seen, todo, goal = {start: None}, [start], None
        while todo and goal is None:
            n = todo.pop(0)
            if lock in G.acquires(n):
                goal = n
                break
            for m, line in G.edges(n)[0]:
                if m not in seen and (p.fns[n[0]].qn, p.fns[m[0]].name) not in cut:
                    seen[m] = (n, line)
                    todo.append(m)
        if goal is None:
            return
        ch, n = [], goal
        while n is not None:
            ch.append(n)
            n = seen[n][0] if seen[n] else None
        ch.reverse()
        step = next(((a, b) for a, b in zip(ch, ch[1:]) if p.fns[b[0]].name.startswith(NOTIFY)), (ch[-2], ch[-1]) if len(ch) > 1 else None)
        how = "%s -> %s" % (p.fns[step[0][0]].qn.replace(NS, ""), p.fns[step[1][0]].name) if step else "its callee"
        ctx.violation("%s taken again via %s" % (G.name(lock).split(" of ")[0], how), where, "%s is taken while the same thread may hold it already (%s)" % (G.name(lock), how), prefix + G.chain(seen, goal), p.tu)
        if step is None:
            return
        cut.add((p.fns[step[0][0]].qn, p.fns[step[1][0]].name))


def functor_calls(ctx, G, order):
    """functors the iteration helpers run under their lock: from every call site that passes a known function"""
    p = G.p
    for c in G.leaves + [None]:
        for f in p.fns.values():
            if c is None and f.cls is not None or c is not None and (f.cls is None or f.cls not in p.bases(c)):
                continue
            for sid, x in f.calls():
                d = x.get("d")
                if d is None or x["k"] != "call" or d not in p.fns:
                    continue
                kind = "none"
                static = None
                if "obj" in x and x["obj"] is not None and x["obj"] >= 0:
                    o = f.st[f.strip(x["obj"])]
                    kind = "this" if o["k"] == "this" else "other"
                    if o["k"] == "mem":
                        static = p.ty(p.decls[o["d"]]["ty"]).get("cls")
                for n in G.nodes(d, kind, c, bool(x.get("vd")), static):
                    hk = G.invokes(n)
                    if not hk:
                        continue
                    for t in G.fargs(f, x):
                        for s in G.target_nodes(t, c):
                            ctx.count("functors_under_lock")
                            seen = G.reach(s)
                            for m in seen:
                                for k2, ln in G.acquires(m).items():
                                    for h in hk:
                                        if h == k2:
                                            again(ctx, G, h, s, f, f.where(x.get("l")), [f.qn, p.fns[n[0]].qn])
                                        note(order, h, k2, (p.fns[n[0]].qn, f.where(x.get("l")), [f.qn] + G.chain(seen, m)))


def cycles(ctx, G, order):
    functor_calls(ctx, G, order)
    ctx.count("ordered_pairs", sum(len(v) for v in order.values()))
    for a in order:
        for b in order[a]:
            # is a reachable from b
            seen, todo = {b: None}, [b]
            while todo:
                n = todo.pop(0)
                for m in order.get(n, ()):
                    if m not in seen:
                        seen[m] = n
                        todo.append(m)
            if a == b or a in seen:
                w = order[a][b]
                if a == b or G.name(a).split(" of ")[0] == G.name(b).split(" of ")[0]:
                    continue
                else:
                    n, other = a, None
                    while seen[n] is not None and seen[n] != b:
                        n = seen[n]
                    w2 = order[b][n]
                    x, y = sorted((G.name(a).split(" of ")[0], G.name(b).split(" of ")[0]))
                    ctx.violation("order of %s and %s" % (x, y), w[1], "%s is taken under %s, and elsewhere (%s) the other way round" % (G.name(b), G.name(a), w2[1]), list(w[2]) + ["---"] + list(w2[2]), G.p.tu)


def run(ctx):
    ctx.each(LIB + DEMO, unit)
    ctx.need("locking_functions", 300)
    ctx.need("exits", 1000)
    ctx.need("calls_under_lock", 300)
    ctx.need("functors_under_lock", 50)
    ctx.need("dispatched", 50)
    ctx.need("ordered_pairs", 50)
