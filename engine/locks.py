"""Recognises acquisition and release of every lock idiom the code base (or a refactoring of it) can use.

lock_event -> list of ("acq", L) / ("rel", L) / ("wait", L) where L is the location of the mutex or atomic flag.
`binds` maps guard objects (locations) to the mutex they manage; it is part of the rule state.
"""
from lib import *

GUARDS = ("lock_guard", "unique_lock", "scoped_lock", "shared_lock", "strict_lock", "shared_lock_guard", "upgrade_lock")


def is_guard_cls(qn):
    n = qn.split("::")[-1]
    return n in GUARDS and ("boost" in qn or qn.startswith("std"))


def is_mutex_ty(s):
    return "mutex" in s


class LockState:
    """immutable lock state carried inside a rule state: (held tuple, guards tuple)"""
    @staticmethod
    def empty():
        return ((), ())


def step(p, ex, st, ev, ls):
    """-> (new lock state, [events])"""
    held, guards = ls
    out = []

    def acq(l):
        nonlocal held
        out.append(("acq", l))
        held = held + (l,)

    def rel(l):
        nonlocal held
        out.append(("rel", l))
        h = list(held)
        if l in h:
            h.reverse()
            h.remove(l)
            h.reverse()
        held = tuple(h)
    if ev.kind == "call" and ev.d is not None:
        qn = ev.qn
        cq = qn.rsplit("::", 2)
        iscls = len(cq) >= 2
        if ev.x is not None and ev.x["k"] == "ctor":
            cls = p.classes[ev.x["cls"]]["qn"]
            if is_guard_cls(cls) and ev.args:
                m = ev.args[0]
                if m and m[0] == "deref" and m[1] and m[1][0] == "addr":
                    m = m[1][1]
                t = ev.args[1:]
                deferred = any(has(a, lambda q: q[0] in ("g", "obj", "var", "conv", "tmp") and "defer" in show(p, q)) for a in t)
                guards = tuple(g for g in guards if g[0] != ev.obj) + ((ev.obj, m, not deferred),)
                if not deferred:
                    acq(m)
                return (held, guards), out
        n = ev.name
        g = next((g for g in guards if g[0] == ev.obj), None)
        if g is not None:
            if n in ("lock", "try_lock") and not g[2]:
                guards = tuple(q for q in guards if q[0] != g[0]) + ((g[0], g[1], True),)
                acq(g[1])
            elif n in ("unlock", "release") and g[2]:
                guards = tuple(q for q in guards if q[0] != g[0]) + ((g[0], g[1], False),)
                rel(g[1])
            return (held, guards), out
        if n in ("lock", "lock_shared", "unlock", "unlock_shared") and ("mutex" in qn) and ev.obj is not None and not ev.inlined:
            (acq if n.startswith("lock") else rel)(ev.obj)
            return (held, guards), out
        if n in ("wait", "wait_for", "timed_wait", "wait_until") and "condition" in qn:
            out.append(("wait", ev.args[0] if ev.args else None))
            return (held, guards), out
        if n == "clear" and "atomic_flag" in qn:
            rel(ev.obj)
        if n in ("store",) and "atomic" in qn:
            pass
    elif ev.kind == "dtor":
        g = next((g for g in guards if g[0] == ev.loc), None)
        if g is not None:
            guards = tuple(q for q in guards if q[0] != g[0])
            if g[2]:
                rel(g[1])
    elif ev.kind == "branch":
        a = gate_branch(p, ex, st, ev)
        if a is not None and a not in held:
            acq(a)
    return (held, guards), out


def gate_branch(p, ex, st, ev):
    """a branch showing that an atomic flag was acquired: !test_and_set() or a lock object's 'locked' flag true"""
    c, pol = ev.cond, ev.taken
    while c and c[0] in ("un", "bin"):
        if c[0] == "un" and c[1] == "!":
            c, pol = c[2], not pol
        elif c[0] == "bin" and c[1] in ("!=", "==") and c[3] == T0:
            if c[1] == "==":
                pol = not pol
            c = c[2]
        else:
            break
    if not c:
        return None
    if c[0] == "call" and str(c[1]).endswith("test_and_set"):
        return c[3] if not pol else None
    if c[0] == "h" and isinstance(c[3], tuple) and c[3][0] == "f":
        cls = p.decls[c[3][2]].get("cls")
        if cls is not None and p.classes[cls]["qn"] == NS + "scope_atomic_lock" and pol:
            base = c[3][1]
            for f in p.classes[cls].get("fs", []):
                if p.ty(p.decls[f]["ty"]).get("ref"):
                    r = st.refs.get(("f", base, f))
                    if r is not None:
                        return r
            return ("gate", base)
    return None
