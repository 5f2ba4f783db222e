"""Ghost model of a message queue: which content operations a path performed and how its byte count was changed."""
import locks
from lib import *

ADD = ("emplace_back", "emplace_front", "push_back", "push_front")
REM = ("pop_front", "pop_back")
READ = ("size", "empty", "begin", "end", "front", "back", "cbegin", "cend", "rbegin", "rend", "max_size", "get_allocator", "get_stored_allocator")


def queues(p):
    return [c for c in p.cls_by_qn(NS + "queue") if any(m in p.fns for m in p.classes[c].get("ms", []))]


def members(p, c):
    """every function of the queue class with a body, member template instances included"""
    k = (p.tu, c)
    if k not in _mem:
        _mem[k] = [f for f in p.fns.values() if f.cls == c]
    return _mem[k]


_mem = {}


def total_field(p, c):
    return getter_field(p, c, "size_in_byte")


def strip(t):
    while t and t[0] in ("conv", "obj") and len(t) >= 3:
        if t[0] == "conv":
            t = t[2]
        elif isinstance(t[2], tuple) and len(t[2]) == 1 and isinstance(t[2][0], tuple):
            t = t[2][0]
        else:
            break
    return t


def is_begin(t):
    t = strip(t)
    return t[0] == "pure" and t[1] in ("begin", "cbegin") and has(t, lambda q: q == ("this",))


class Ghost:
    """immutable: ops, writes of the total, measured sizes, iterator accumulations, lock state"""
    __slots__ = ("ops", "tw", "meas", "acc", "ls")

    def __init__(self, ops=(), tw=(), meas=(), acc=(), ls=((), ())):
        self.ops, self.tw, self.meas, self.acc, self.ls = ops, tw, meas, acc, ls

    def key(self):
        return (self.ops, self.tw, self.meas, self.acc, self.ls)


class QRule(TraceRule):
    def __init__(self, p, cls, total):
        TraceRule.__init__(self, None, inline_all=True, opaque=lambda p, d: d["n"] in ("get_size_in_byte", "error_out", "info_out", "warning_out", "fatal_out", "debug_out") or (d["n"] in ("size", "empty") and d["id"] in p.fns and d.get("cls") != cls), max_states=60000)
        self.p, self.cls, self.total = p, cls, total
        self.bad = []

    def start(self, ex):
        return Ghost().key()

    def event(self, ex, st, ev):
        p = self.p
        g = Ghost(*st.rule)
        this = ("this",)
        ns, evs = locks.step(p, ex, st, ev, g.ls)
        if evs:
            for e in evs:
                if e[0] == "acq" and e[1] in g.ls[0]:
                    self.bad.append(("relock", ev.frame.fn, ev.line, ex.trail(st)))
        g.ls = ns
        if ev.kind == "call" and ev.d is not None:
            d = p.decls[ev.d]
            own = d.get("cls") == self.cls
            if ev.obj == this and not own and d.get("cls") is not None and not self.lockish(d):
                self.content(ex, st, ev, g, d)
            elif ev.name == "splice" and len(ev.args) >= 2 and ev.args[1] == this:
                self.touch(ex, st, ev, g)
                g.ops += (("outall" if len(ev.args) == 2 else "outrange", ev.obj, ev.args[0], tuple(strip(self.value(ex, st, a)) for a in ev.args[2:])),)
            elif ev.name == "size" and ev.obj is not None and ev.res is not None:
                if (ev.res, ev.obj) not in [m[:2] for m in g.meas]:
                    g.meas += ((ev.res, ev.obj, ex.load(st, ev.obj), len(g.ops)),)
            elif ev.name == "get_size_in_byte" and ev.args and ev.res is not None:
                g.meas += ((ev.res, ("all", ev.args[0]), None, len(g.ops)),)
            elif ev.name == "swap" and ev.args and ev.obj is not None and "swap" not in [f.name for f in ev.frame.chain()]:
                self.swap(ex, st, ev, g)
            elif ev.name == "operator++" and ev.obj is not None and ev.obj[0] == "var":
                self.inc(ex, st, ev, g)
        elif ev.kind == "write" and ev.loc is not None:
            if ev.loc == ("f", this, self.total):
                self.touch(ex, st, ev, g)
                self.twrite(ex, st, ev, g)
            elif ev.loc[0] == "var":
                self.lwrite(ex, st, ev, g)
        elif ev.kind == "exit":
            q = Path()
            q.labels, q.val, q.facts, q.store, q.line, q.kind = [g], ev.val, dict(st.facts), {}, ev.line, ev.kind
            q.trail, q.where = ex.trail(st), ev.frame.fn.where(ev.line)
            self.out.append(q)
        return g.key()

    def lockish(self, d):
        return self.p.classes[d["cls"]]["n"] in ("lockable", "dummy_lockable") or d["n"] in ("lock", "unlock", "is_lockable")

    def value(self, ex, st, a):
        n = 0
        while a and a[0] in ("var", "tmp") and n < 6:
            v = ex.load(st, a)
            if v == a or v == ("v", a):
                break
            a = v
            n += 1
        return a

    def touch(self, ex, st, ev, g):
        """content or total is examined or changed: remember whether the lock was held"""
        if not any(h == ("this",) for h in g.ls[0]):
            if not g.ops or g.ops[0][0] != "unlocked":
                g.ops = (("unlocked", ev.line),) + g.ops

    def content(self, ex, st, ev, g, d):
        self.touch(ex, st, ev, g)
        n = ev.name
        if n in READ:
            return
        if n in ADD:
            v = self.value(ex, st, ev.args[0]) if ev.args else None
            if v is not None and v[0] in ("arg", "param", "deref"):
                v = ex.load(st, v)
            g.ops += (("add", n, v, ev.res),)
        elif n in REM:
            g.ops += (("rem", n),)
        elif n == "clear":
            g.ops += (("clear",),)
        elif n == "swap":
            g.ops += (("swap", ev.args[0]),)
        elif n == "splice" and len(ev.args) == 2:
            g.ops += (("in", strip(self.value(ex, st, ev.args[0])), ev.args[1]),)
        elif not d.get("const"):
            g.ops += (("other", n),)

    def swap(self, ex, st, ev, g):
        a, b = ev.obj, ev.args[0]
        last = [o for o in g.ops if o[0] == "add"]
        if last and last[-1][2] is None:
            for x, y in ((a, b), (b, a)):
                if has(x, lambda t: t[0] == "call" and t[1].split("::")[-1] in ADD) or self.at_end(x, last[-1][1]):
                    g.ops = tuple(o if o is not last[-1] else ("add", o[1], ex.load(st, y), o[3]) for o in g.ops)
                    return
        for x, y in ((a, b), (b, a)):
            if has(x, lambda t: t[0] == "pure" and t[1] in ("front", "back") and has(t, lambda q: q == ("this",))):
                g.ops += (("xchg", y, "front" if has(x, lambda t: t[0] == "pure" and t[1] == "front") else "back"),)

    def at_end(self, x, op):
        w = "front" if "front" in op else "back"
        return has(x, lambda t: t[0] == "pure" and t[1] == w and has(t, lambda q: q == ("this",)))

    # ---- iterator accumulation: acc entries (X, S, pos)
    def inc(self, ex, st, ev, g):
        X = ev.obj
        e = next((a for a in g.acc if a[0] == X), None)
        if e is None:
            cur = ex.load(st, X)
            if not is_begin(cur):
                return
            g.acc += ((X, None, -1),)
            return
        pos = {1: 0, 0: -1}.get(e[2], 9)
        g.acc = tuple(a if a is not e else (X, e[1], pos) for a in g.acc)

    def lwrite(self, ex, st, ev, g):
        S = ev.loc
        if ev.op == "decl":
            return
        old = ex.load(st, S)
        for m in g.meas:
            el = self.element(ex, st, m[1])
            if el is None or not has(ev.val, lambda t: t == m[0]):
                continue
            X, post = el
            good = ev.val == m[0] and old == T0 or ev.val in (("bin", "+", old, m[0]), ("bin", "+", m[0], old))
            e = next((a for a in g.acc if a[0] == X), None)
            if e is None:
                if not is_begin(ex.load(st, X)):
                    continue
                g.acc += ((X, S, 1 if good and old == T0 and not post else 9),)
                return
            if (e[1] is not None and e[1] != S) or (e[1] is None and old != T0) or not good:
                pos = 9
            elif post:
                pos = 0 if e[2] == -1 else 9
            else:
                pos = 1 if e[2] == 0 else 9
            g.acc = tuple(a if a is not e else (X, S, pos) for a in g.acc)
            return
        g.acc = tuple(a if a[1] != S else (a[0], S, 9) for a in g.acc)

    def element(self, ex, st, loc):
        """(iterator variable, was it advanced after reading) when loc is an element reached through an iterator"""
        for t in subterms(loc):
            if t and t[0] == "deref" and len(t) == 2:
                v = t[1]
                if v and v[0] == "call" and str(v[1]).endswith("operator++") and v[3]:
                    return v[3], True
                for k, w in st.store.items():
                    if k and k[0] == "var" and w == v:
                        return k, False
        return None

    def twrite(self, ex, st, ev, g):
        old = ex.load(st, ev.loc)
        v = ev.val
        kind, amt = "set", v
        if v[0] == "bin" and v[1] in ("+", "-") and v[2] == old:
            kind, amt = v[1], v[3]
        elif v[0] == "bin" and v[1] == "+" and v[3] == old:
            kind, amt = "+", v[2]
        elif v == old:
            kind, amt = "+", T0
        # what does the amount measure
        ms = tuple((m[1], m[2], m[3]) for m in g.meas if m[0] == amt)
        sums = tuple((strip(self.value(ex, st, a[0])), a[2]) for a in g.acc if a[1] is not None and amt == ex.load(st, a[1]))
        g.tw += ((kind, amt, len(g.ops), ms, sums),)


def explore(p, cls, fn, total):
    r = QRule(p, cls, total)
    ex = Explorer(p, r, fn, cls)
    ex.run()
    return r, ex


MUT = ("add", "rem", "clear", "swap", "in", "outall", "outrange")


def judge(p, q, ex):
    """None (consistent), or a message; 'undecided' when the shape is outside the model"""
    g = q.labels[0]
    ops = [o for o in g.ops if o[0] not in ("unlocked",)]
    muts = [(i, o) for i, o in enumerate(g.ops) if o[0] in MUT]
    if any(o[0] == "other" for o in ops) or len(muts) > 1:
        return "undecided"
    if len(g.tw) > 1:
        return "undecided"
    tw = g.tw[0] if g.tw else None
    if not muts:
        if tw and not (tw[0] in ("+", "-") and tw[1] == T0):
            return "the byte count changes although the content does not"
        return None
    i, o = muts[0]
    k = o[0]
    if k in ("outrange",) and len(o[3]) == 2 and is_begin(o[3][0]) and is_begin(o[3][1]):
        if tw is None or (tw[0] in "+-" and tw[1] == T0):
            return None
    if tw is None:
        return "the content changes (%s) but the byte count does not" % (o[1] if k in ("add", "rem") else k)
    kind, amt, at, ms, sums = tw
    if k == "clear":
        return None if kind == "set" and amt == T0 else "clearing does not set the byte count to zero"
    if k == "swap":
        if kind == "set" and any(m[0] == ("all", o[1]) and m[2] <= i for m in ms):
            return None
        return "swapping does not set the byte count to the size of the new content, measured before the swap"
    if k == "add":
        if kind == "+" and at > i and any(m[1] == o[2] for m in ms):
            return None
        return "adding an item does not add that item's size (measured before the item is moved, added after the item was stored)"
    if k == "rem":
        x = [j for j, w in enumerate(g.ops) if w[0] == "xchg" and j < i]
        if kind == "-":
            for loc, v, t in ms:
                if x and loc == g.ops[x[0]][1] and t > x[0]:
                    return None
                if has(loc, lambda t2: t2[0] == "pure" and t2[1] in ("front", "back")) and t <= (x[0] if x else i):
                    return None
        return "removing an item does not subtract that item's size"
    if k == "in":
        if kind == "+":
            if amt[0] in ("v", "arg", "param") and has(amt, lambda t: t[0] in ("arg", "param")):
                if truth(ex, q.facts, ("bin", "==", T0, amt)) is False:
                    return None
                return "the caller's size is used although it may be the default (not measured)"
            if any(m[0] == ("all", o[2]) and m[2] <= i for m in ms):
                return None
        return "taking over items does not add their total size, measured before they are moved"
    if k == "outall":
        if kind == "set" and amt == T0:
            return None
        if kind == "-" and any(pos == 0 for X, pos in sums):
            return None
        if kind in ("-", "+") and amt == T0 and any(f[0] == "eq" and v and {strip(f[1])[1], strip(f[2])[1]} == {"begin", "end"} and is_begin(f[1]) + is_begin(f[2]) == 1 for f, v in q.facts.items() if f[0] == "eq" and len(f) == 3 and len(strip(f[1])) > 1 and len(strip(f[2])) > 1):
            return None
        return "moving everything out does not bring the byte count to zero"
    if k == "outrange":
        e = o[3][1] if len(o[3]) == 2 else None
        if kind == "-" and len(o[3]) == 2 and is_begin(o[3][0]) and any(pos == 0 and X == e for X, pos in sums):
            return None
        return "moving a part out does not subtract exactly the sizes of the moved items"
    return "undecided"
