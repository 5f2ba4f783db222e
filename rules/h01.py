RULE = """Starting the pump when it is not started marks it started, makes every context ready, then starts every registered service, then adds the threads asked for, each exactly once and in this
order; a refused start changes nothing; starting a started pump does nothing; running does the same and then waits. Stopping a started pump stops every service, then waits for the threads of every
context, then lets every service clean up, and only then is the pump not started any more. A service registers itself when it is made and is unregistered when it is destroyed; removing takes it out of the
table before it is stopped, and stops it before it is freed; a service starts and stops once per start. Every thread asked for runs the pump's loop for the context picked for it; blocking runs exactly the
last one in the calling thread. In the loop every exception from a context reaches on_exception; the thread goes on if that says so and ends if it does not; it ends otherwise only when the context is out
of work or its end was asked for, never as the last one; the number of running threads is put back on every way out."""
EXPLANATION = """Event-order obligations over every path of the pump's public functions with exceptions followed from the context's run functions into the handlers; net effect of every path on the
thread counters; per-iteration obligations of the loops over contexts and threads; who-calls queries for registration."""
ASSUMPTIONS = ["io_context::run and run_one return when the context is out of work or stopped, and let the exceptions of handlers through", "services are started and stopped by one thread at a time, as documented"]
import loops
from b03 import deep
from f02 import core
from lib import *
from linear import *
from witness_units import LIB

RUNS = ("run", "run_one", "run_for", "run_until", "run_one_for", "run_one_until", "poll", "poll_one")
ONES = ("run_one", "run_for", "run_until", "run_one_for", "run_one_until", "poll", "poll_one")
QUIET = ("info_out", "error_out", "warning_out", "debug_out", "fatal_out", "all_out", "operator<<", "str", "data", "do_something_to_all", "do_something_to_one", "on_exception", "free")


def is_run(p, d):
    return d["n"] in RUNS and "io_context" in d["qn"]


def unit(ctx, p):
    P = p.cls_by_qn(NS + "service_pump")
    I = p.cls_by_qn(NS + "service_pump::i_service")
    if not P or not I:
        raise Broken("no service pump in " + p.tu)
    P, I = P[0], I[0]
    M = {}
    for m in p.classes[P].get("ms", []):
        if m in p.fns:
            M.setdefault(p.decls[m]["n"], []).append(p.fns[m])
    S = Pump(ctx, p, P, I, M)
    runs(S)
    orders(S)
    threads(S)
    removal(S)
    services(S)


class Pump:
    def __init__(self, ctx, p, P, I, M):
        self.ctx, self.p, self.P, self.I, self.M = ctx, p, P, I, M
        fs = {p.decls[f]["n"]: f for f in p.classes[P].get("fs", [])}
        g = self.pick("is_service_started", 0)
        self.started = next((x["d"] for x in g.st if x and x["k"] == "mem" and x["d"] in fs.values()), None)
        self.services = next((f for f in fs.values() if "i_service" in p.ty(p.decls[f]["ty"])["s"]), None)
        self.contexts = next((f for f in fs.values() if "context" in p.ty(p.decls[f]["ty"])["s"] and "list" in p.ty(p.decls[f]["ty"])["s"]), None)
        if None in (self.started, self.services, self.contexts):
            raise Broken("the pump's tables were not recognised")

    def pick(self, name, n, obj=None):
        c = [f for f in self.M.get(name, []) if len(f.params) == n]
        if obj is not None:
            c = [f for f in c if bool(self.p.ty(self.p.decls[f.params[0]]["ty"]).get("ptr") is not None) == obj]
        if len(c) != 1:
            raise Broken("%d functions %s/%d in the pump" % (len(c), name, n))
        return c[0]

    def bad(self, key, fn, where, text, q=None):
        self.ctx.violation("%s in %s" % (key, fn.qn), where, text, q.trail[-8:] if q else [], self.p.tu)


def this(f):
    return ("f", ("this",), f)


def fnname(p, t):
    """the member function a functor calls"""
    for s in subterms(t):
        if isinstance(s, tuple) and s and s[0] == "fnref":
            return p.decls[s[1]]["n"]
    return None


# ---------------------------------------------------------------- the thread's loop
def runs(S):
    ctx, p = S.ctx, S.p
    entries = {}
    for fs in S.M.values():
        for fn in fs:
            for d in refs(fn):
                if d in p.fns and p.fns[d].cls == S.P and reaches(p, p.fns[d]):
                    entries[d] = p.fns[d]
    if not entries:
        raise Broken("no thread function in the pump")
    for fn in entries.values():
        ctx.analysed(fn)
        loop(S, fn)


def refs(fn):
    return {d for _, d in fn.fnrefs()}


_r = {}


def reaches(p, fn, n=0):
    k = (p.tu, fn.id)
    if k not in _r:
        _r[k] = False
        _r[k] = any(x.get("d") is not None and is_run(p, p.decls[x["d"]]) for _, x in fn.calls()) or n < 3 and any(
            x.get("d") in p.fns and p.fns[x["d"]].cls == fn.cls and reaches(p, p.fns[x["d"]], n + 1) for _, x in fn.calls())
    return _r[k]


def counter_ev(p, ev):
    """(field, change, value afterwards) of a counter of the pump"""
    if ev.kind == "call" and ev.name in ("operator++", "operator--") or ev.kind == "call" and ev.name in ("fetch_add", "fetch_sub", "operator+=", "operator-="):
        o = ev.obj if ev.obj is not None else (ev.args[0] if ev.args else None)
        if o is not None and o[0] == "f" and o[1] == ("this",):
            if ev.name in ("operator++", "operator--"):
                return o[2], (1 if ev.name == "operator++" else -1), ev.res, bool([a for a in ev.args if a == ("c", 0)])
            a = ev.args[-1]
            return o[2], (a[1] if a[0] == "c" else None) and (a[1] if ev.name in ("fetch_add", "operator+=") else -a[1]), ev.res, True
    return None


def loop(S, fn):
    ctx, p = S.ctx, S.p
    has_hook = "on_exception" in S.M

    def label(ex, st, ev):
        n = len(st.rule)
        if ev.kind == "call" and ev.d is not None and is_run(p, p.decls[ev.d]):
            return ("R", ev.name, ev.res, n)
        if ev.kind == "unwind":
            return ("X", ev.line, n)
        if ev.kind == "call" and ev.name == "on_exception":
            return ("H", ev.res, n)
        c = counter_ev(p, ev)
        if c is not None:
            return ("N",) + c + (n,)
        if ev.kind == "branch":
            return ("B", ev.cond, ev.taken, n)
        if ev.kind == "write" and ev.loc and ev.loc[0] == "var":
            return ("LW", ev.loc, ev.val, n)

    def prune(ex, st, ev):
        if ev.kind == "branch" and sum(1 for l in st.rule if l[0] == "B") > 22:
            return True
        return ev.kind == "call" and ev.d is not None and is_run(p, p.decls[ev.d]) and sum(1 for l in st.rule if l[0] in ("R", "X")) >= 2
    qs, ex = trace(p, fn, S.P, label, force=True, inline_all=True, opaque=lambda p, d: d["n"] in QUIET or is_run(p, d) or d["n"].startswith("operator") and d["n"] != "operator()", prune=prune, throws=is_run)
    if not any(l[0] == "R" for q in qs for l in q.labels):
        raise Broken("the thread function does not run its context")
    caught = False
    for q in qs:
        L = settle(q.labels)
        if L is None:
            continue
        if q.kind == "throw":
            if has_hook:
                S.bad("escaping exception", fn, q.where, "an exception of a handler ends the thread function without reaching on_exception", q)
            continue
        ctx.count("run_paths")
        ev = [(i, l) for i, l in enumerate(L) if l[0] in ("R", "X", "H")]
        for j, (i, l) in enumerate(ev):
            nxt = ev[j + 1][1][0] if j + 1 < len(ev) else "end"
            if l[0] == "X":
                caught = True
                ctx.count("exceptions_followed")
                if nxt != "H":
                    S.bad("swallowed exception", fn, q.where, "an exception is caught, and the application's hook is not asked", q)
            elif l[0] == "H":
                v = decision(L[i + 1:], l[1])
                if v is None:
                    S.bad("ignored decision", fn, q.where, "what on_exception answers does not decide whether the thread goes on", q)
                elif v and nxt == "end" and not ended(S, L[i + 1:]):
                    S.bad("ended against the hook", fn, q.where, "the thread ends although on_exception said that it goes on", q)
                elif not v and nxt in ("R", "X"):
                    S.bad("kept against the hook", fn, q.where, "the thread goes on although on_exception said that it ends", q)
                if j == 0 or ev[j - 1][1][0] != "X":
                    S.bad("hook without exception", fn, q.where, "on_exception is called when nothing was thrown", q)
            elif l[0] == "R":
                if nxt == "H":
                    S.bad("hook without exception", fn, q.where, "on_exception is called when nothing was thrown", q)
                if nxt == "end" and l[1] in ONES and not ended(S, L[i + 1:]):
                    env = Env(p)
                    t = env.form(l[2])
                    env.cs.append(t)
                    for b in L[i + 1:]:
                        if b[0] == "B":
                            env.assume(b[1], b[2])
                    if not env.eq0(t):
                        S.bad("ended early", fn, q.where, "the thread can end although its context still had work", q)
                if nxt == "R" and l[1] == "run":
                    S.bad("spinning", fn, q.where, "the thread runs a context again that is out of work", q)
        if not ev and not ended(S, L):
            S.bad("not run", fn, q.where, "the thread ends without running its context", q)
        nets = {}
        for l in L:
            if l[0] == "N":
                nets[l[1]] = nets.get(l[1], 0) + (l[2] or 0)
        for f, n in nets.items():
            requests = n and is_request(S, f)
            if not requests and n != 0:
                S.bad("thread count", fn, q.where, "on a way out of the thread function the number of running threads is changed by %d" % n, q)
            ctx.count("counter_paths")
        counts(S, fn, q, L)
        if any(l[0] == "N" and not is_request(S, l[1]) for q2 in qs for l in q2.labels) and not any(l[0] == "N" and not is_request(S, l[1]) for l in L):
            S.bad("uncounted thread", fn, q.where, "a thread runs without being counted", q)
    if has_hook and not caught:
        S.bad("no handler", fn, fn.where(), "no exception of a handler reaches on_exception")


_q = {}


def is_request(S, f):
    """a counter that another function raises on request of the application: threads to be ended"""
    k = (S.p.tu, f)
    if k not in _q:
        n = S.p.decls[f]["n"]
        _q[k] = any(touches(fn, {n}) and any(x.get("d") is not None and S.p.decls[x["d"]]["n"] in ("operator+=", "operator++", "fetch_add") for _, x in fn.calls()) for fs in S.M.values() for fn in fs if not reaches(S.p, fn) and fn.params)
    return _q[k]


def counts(S, fn, q, L):
    p = S.p
    """a request that was not there is put back before the context is run again"""
    owe = {}
    for i, l in enumerate(L):
        if l[0] == "N" and is_request(S, l[1]):
            if l[2] == -1:
                env, t = after(p, l, [b for b in upto(L[i + 1:])])
                back = next((b for b in L[i + 1:] if b[0] != "B"), None)
                if back is not None and back[0] == "N" and back[1] == l[1] and back[2] == 1 and not env.ge0(add(scale(t, -1), const(-1))):
                    S.bad("request ignored", fn, q.where, "a request to end a thread that is there is put back", q)
                if not env.ge0(t):
                    owe[l[1]] = owe.get(l[1], 0) + 1
            else:
                owe[l[1]] = owe.get(l[1], 0) - 1
        if l[0] in ("R", "X") and any(owe.values()):
            S.bad("request lost", fn, q.where, "a thread takes a request to end that another thread has taken already, or gives one up", q)
            return
        if l[0] == "N" and not is_request(S, l[1]) and l[2] == -1:
            # an end on request: never the last thread
            back = [b for b in L[i + 1:] if b[0] in ("R", "X") or b[0] == "N" and b[1] == l[1]]
            req = [b for b in L[:i] if b[0] == "N" and is_request(S, b[1])]
            last = max([j for j, b in enumerate(L[:i]) if b[0] in ("R", "X")] or [-1])
            if not back and any(j > last for j, b in enumerate(L[:i]) if b in req):
                env, t = after(p, l, upto(L[i + 1:]))
                if not env.ge0(add(t, const(-1))):
                    S.bad("last thread ended", fn, q.where, "the last thread can be ended on request", q)


def upto(L):
    """the tests that follow at once"""
    out = []
    for b in L:
        if b[0] != "B":
            break
        out.append(b)
    return out


def after(p, l, bs):
    """what the tests say about the value that the counting gave"""
    t = {("res", l[1]): 1}
    env = Env(p, atoms=lambda s: t if s == l[3] or s == ("f", ("this",), l[1]) else None)
    for b in bs:
        env.assume(b[1], b[2])
    return env, t


def ended(S, L):
    """the end of a thread was asked for, and the request is taken"""
    i = max([j for j, l in enumerate(L) if l[0] in ("R", "X")] or [-1])
    return sum(l[2] or 0 for l in L[i + 1:] if l[0] == "N" and is_request(S, l[1])) < 0


def settle(L):
    """tests of variables that the loop carries say what was last written to them; None: the path cannot happen"""
    now, out = {}, []
    for l in L:
        if l[0] == "LW":
            now[l[1]] = l[2]
            continue
        if l[0] == "B":
            k, v = core(l[1], l[2])
            h = next((s for s in subterms(k) if isinstance(s, tuple) and s and s[0] == "h" and s[3] in now), None) if k[0] in ("h", "v", "un") else None
            if h is not None:
                w = now[h[3]]
                if w[0] == "c":
                    if bool(w[1]) != v:
                        return None
                    continue
                l = ("B", w, v) + tuple(l[3:])
        out.append(l)
    return out


def decision(L, res):
    for l in L:
        if l[0] in ("R", "X"):
            return None
        if l[0] == "B":
            k, v = core(l[1], l[2])
            if k == res or has(k, lambda t: t == res):
                return v
    return None


# ---------------------------------------------------------------- order of starting and stopping
def orders(S):
    ctx, p = S.ctx, S.p

    def label(ex, st, ev):
        out = []
        x = loops.label(ex, st, ev)
        if x:
            out.append(x)
        if ev.kind == "branch":
            out.append(("B", ev.cond, ev.taken))
        if ev.kind == "write" and ev.loc == this(S.started):
            out.append(("S", ev.val))
        if ev.kind == "call" and ev.d is not None:
            if ev.name == "do_something_to_all" and ev.obj in (("this",), None):
                n = fnname(p, tuple(deep(ex, st, a) for a in ev.args)) or next((l[1] for l in reversed(st.rule) if l[0] == "FN"), None)
                out.append(("ALL", n, len(st.rule)))
            elif ev.name in ("mem_fn", "mem_fun", "bind"):
                n = fnname(p, tuple(ev.args))
                if n:
                    out.append(("FN", n, len(st.rule)))
            elif p.decls[ev.d].get("cls") == S.I and ev.name in ("start_service", "stop_service", "finalize"):
                if ev.obj is not None and has(ev.obj, lambda t: t[0] == "deref" and has(t, lambda s: s == this(S.services) or s[0] == "h")):
                    out.append(("ALL", ev.name, 0))
                else:
                    out.append(("ONE", ev.name, ev.obj, len(st.rule)))
            elif ev.name == "add_service_thread":
                out.append(("T", tuple(ev.args), len(st.rule)))
            elif ev.name in ("restart", "reset") and "io_context" in p.decls[ev.d]["qn"]:
                out.append(("C", "restart", ev.obj, len(st.rule)))
            elif ev.name == "join_all":
                out.append(("C", "join", ev.obj, len(st.rule)))
            elif ev.name == "stop" and "io_context" in p.decls[ev.d]["qn"]:
                out.append(("C", "stop", ev.obj, len(st.rule)))
        return out or None
    quiet = [n for n in QUIET if n != "do_something_to_all"] + ["do_something_to_all", "add_service_thread", "join_all", "restart", "start_thread"]

    def go(fn):
        ctx.analysed(fn)
        qs = [q for q in trace(p, fn, S.P, label, force=True, inline_all=True, opaque=lambda p, d: d["n"] in quiet or p.decls[d["id"]].get("cls") == S.I and d["n"] in ("start_service", "stop_service", "finalize"), prune=loops.prune)[0] if q.kind in ("exit", "void")]
        # a loop over the services written out counts as one visit of all of them, also when there are none
        body = {}
        for q in qs:
            at = None
            for l in q.labels:
                if l[0] == "LT":
                    at = l[4] if l[3] and has(l[2], lambda t: t == this(S.services)) else None
                elif l[0] == "ALL" and l[2] == 0 and at is not None:
                    body.setdefault(at, set()).add(l[1])
        for q in qs:
            out, done, at, did = [], set(), None, True
            for l in q.labels:
                if l[0] == "LT" and l[4] in body:
                    if at is not None and not did:
                        S.bad("service passed over", fn, q.where, "a service is passed over", q)
                    at, did = (l[4], False) if l[3] else (None, True)
                    if l[4] not in done:
                        done.add(l[4])
                        out += [("ALL", n, 0) for n in sorted(body[l[4]])]
                elif l[0] == "ALL" and l[2] == 0 and at is not None:
                    did = True
                    continue
                out.append(l)
            q.labels = out
        return qs

    def state(q):
        """what the first test of the started flag says"""
        for l in q.labels:
            if l[0] == "S":
                return None
            if l[0] == "B":
                k, v = core(l[1], l[2])
                if has(k, lambda t: t == this(S.started)):
                    return v
        return None

    def each(fn, q, what, text):
        """every iteration over the contexts does it; at least one loop over them is on the path"""
        L = q.labels
        cuts = [i for i, l in enumerate(L) if l[0] == "LT" and has(l[2], lambda t: t == this(S.contexts))]
        ok = False
        i = 0
        spans = []
        for a, c in enumerate(cuts):
            e = cuts[a + 1] if a + 1 < len(cuts) else len(L)
            spans.append((c, e, L[c][3], L[c][4]))
        lines = {}
        for c, e, taken, line in spans:
            did = any(l[0] == "C" and l[1] == what for l in L[c:e])
            lines.setdefault(line, []).append((taken, did, c, e))
        for line, its in lines.items():
            if any(t and d for t, d, _, _ in its):
                ok = True
                if not all(d for t, d, _, _ in its if t):
                    S.bad(text, fn, q.where, "a context is passed over", q)
                if its[-1][0]:
                    S.bad(text, fn, q.where, "the loop over the contexts can end before all were visited", q)
            elif not any(t for t, _, _, _ in its):
                ok = True  # no contexts: nothing to do
        return ok

    def first(q, kind, name=None):
        return next((i for i, l in enumerate(q.labels) if l[0] == kind and (name is None or l[1] == name)), None)

    def starting(fn, q, n, nth):
        """labels of a start: either refused without any effect or complete and in order"""
        eff = [l for l in q.labels if l[0] in ("S", "ALL", "T", "C", "ONE")]
        if not [l for l in eff if l[0] != "C"]:
            env = Env(p)
            size = [b for b in q.labels if b[0] == "B"]
            if not any(core(b[1], b[2])[0][0] == "bin" and has(b[1], lambda t: t == ("arg", nth)) for b in size):
                S.bad("not started", fn, q.where, "a pump that is not started is not started either, although the number of threads was not refused", q)
            return False
        ctx.count("starts")
        w, c, t, a = first(q, "S"), first(q, "C", "restart"), first(q, "ALL", "start_service"), first(q, "T")
        if sum(1 for l in q.labels if l[0] == "S") < 1 or q.labels[w][1] not in (("c", 1), ("c", True)):
            S.bad("not marked", fn, q.where, "the pump is started without being marked as started", q)
            return True
        if t is None or a is None or sum(1 for l in q.labels if l[0] == "T") != 1 or sum(1 for l in q.labels if l[0] == "ALL" and l[1] == "start_service") != 1:
            S.bad("incomplete start", fn, q.where, "starting does not start every service and add the threads exactly once", q)
            return True
        if not w < t < a:
            S.bad("start order", fn, q.where, "marking as started, starting the services and adding the threads are not in this order", q)
        if not each(fn, q, "restart", "context not made ready") or c is not None and c > t:
            S.bad("contexts not ready", fn, q.where, "the services are started before every context was made ready to run again", q)
        if not q.labels[a][1] or q.labels[a][1][0] != ("arg", nth):
            S.bad("threads", fn, q.where, "another number of threads than asked for is added", q)
        return True

    def waiting(fn, q, after):
        L = q.labels
        j, f, w = first(q, "C", "join"), first(q, "ALL", "finalize"), next((i for i, l in reversed(list(enumerate(L))) if l[0] == "S"), None)
        ctx.count("stops")
        if not each(fn, q, "join", "threads not waited for"):
            S.bad("threads not waited for", fn, q.where, "the threads of the contexts are not waited for", q)
        if f is None or j is not None and f < j:
            S.bad("cleaned up early", fn, q.where, "the services are not cleaned up, or while threads may still run", q)
        if w is None or L[w][1] not in (("c", 0), ("c", False)):
            S.bad("still marked", fn, q.where, "the pump stays marked as started", q)
        elif f is not None and w < f or j is not None and w < j:
            S.bad("marked early", fn, q.where, "the pump is marked as stopped before its threads ended and its services were cleaned up", q)
        if after is not None and (j is not None and j < after or f is not None and f < after):
            S.bad("wait order", fn, q.where, "the threads are waited for before everything was asked to end", q)

    def silent(fn, q, text):
        if [l for l in q.labels if l[0] in ("S", "ALL", "T", "C", "ONE")]:
            S.bad(text, fn, q.where, "a call that is to be without effect has one", q)

    fn = S.pick("start_service", 1, False)
    qs = go(fn)
    for q in qs:
        s = state(q)
        if s is None:
            S.bad("state ignored", fn, q.where, "whether the pump is started is not looked at", q)
        elif s:
            silent(fn, q, "started twice")
        else:
            starting(fn, q, 1, 0)
    if not any(l[0] == "T" for q in qs for l in q.labels):
        S.bad("never started", fn, fn.where(), "no path starts the pump")
    fn = S.pick("run_service", 1)
    for q in go(fn):
        s = state(q)
        if s:
            silent(fn, q, "started twice")
        else:
            t = first(q, "T")
            started = starting(fn, strip_wait(q, S), 1, 0)
            if started:
                a = q.labels[t][1]
                if len(a) < 2 or a[1] not in (("c", 1), ("c", True)):
                    S.bad("not blocking", fn, q.where, "running does not keep the calling thread", q)
                waiting(fn, q, t)
    fn = S.pick("start_service", 2)
    for q in go(fn):
        s = state(q)
        ones = [l for l in q.labels if l[0] == "ONE"]
        if s:
            if len(ones) != 1 or ones[0][1] != "start_service" or not has(ones[0][2], lambda t: t == ("arg", 0)):
                S.bad("service not started", fn, q.where, "a service added to a started pump is not started exactly once", q)
            if [l for l in q.labels if l[0] in ("ALL", "T", "S")]:
                S.bad("started twice", fn, q.where, "starting one service starts the pump again", q)
        else:
            starting(fn, q, 2, 1)
    fn = S.pick("stop_service", 1)
    for q in go(fn):
        ones = [l for l in q.labels if l[0] == "ONE"]
        if len(ones) != 1 or ones[0][1] != "stop_service" or not has(ones[0][2], lambda t: t == ("arg", 0)):
            S.bad("service not stopped", fn, q.where, "the service is not stopped exactly once", q)
    for name, wait in (("stop_service", True), ("end_service", False)):
        fn = S.pick(name, 0)
        for q in go(fn):
            s = state(q)
            if s is None:
                S.bad("state ignored", fn, q.where, "whether the pump is started is not looked at", q)
            elif not s:
                silent(fn, q, "stopped twice")
            else:
                e = first(q, "ALL", "stop_service")
                if e is None or sum(1 for l in q.labels if l[0] == "ALL" and l[1] == "stop_service") != 1:
                    S.bad("services not stopped", fn, q.where, "the services are not asked to stop exactly once", q)
                if wait:
                    waiting(fn, q, e)
                elif [l for l in q.labels if l[0] == "S"]:
                    S.bad("marked early", fn, q.where, "the pump is marked as stopped while its threads still run", q)
    fn = S.pick("stop", 0)
    for q in go(fn):
        if not each(fn, q, "stop", "context not stopped"):
            S.bad("context not stopped", fn, q.where, "not every context is stopped", q)


class Cut:
    pass


def strip_wait(q, S):
    """the part of a path before the waiting begins"""
    r = Cut()
    r.trail, r.where, r.kind = q.trail, q.where, q.kind
    ts = [i for i, l in enumerate(q.labels) if l[0] == "T"]
    r.labels = q.labels[:ts[-1] + 1] if ts else [l for l in q.labels if l[0] == "B"]
    return r


# ---------------------------------------------------------------- adding threads
def threads(S):
    ctx, p = S.ctx, S.p
    c = [f for f in S.M.get("add_service_thread", [])]
    if len(c) != 1:
        raise Broken("adding threads was not recognised")
    fn = c[0]
    ctx.analysed(fn)

    def label(ex, st, ev):
        n = len(st.rule)
        if ev.kind == "branch":
            return ("B", ev.cond, ev.taken, ev.line, n)
        if ev.kind == "call" and ev.d is not None:
            if ev.name == "assign_thread":
                return ("P", ev.res, n)
            if ev.name == "create_thread":
                return ("NEW", ev.obj, tuple(deep(ex, st, a) for a in ev.args), n)
            if ev.name == "bind":
                return ("BIND", tuple(deep(ex, st, a) for a in ev.args), n)
            if ev.d in p.fns and p.fns[ev.d].cls == S.P and reaches(p, p.fns[ev.d]):
                return ("HERE", tuple(ev.args), n)

    def prune(ex, st, ev):
        return ev.kind == "branch" and sum(1 for l in st.rule if l[0] == "B" and l[3] == ev.line and l[1] is not None) >= 6
    qs = trace(p, fn, S.P, label, force=True, inline_all=False, opaque=lambda p, d: True, calls=("assign_thread", "create_thread", "run", "bind"), prune=prune)[0]
    n = 0
    for q in qs:
        if q.kind not in ("exit", "void"):
            continue
        L = q.labels
        if not any(l[0] == "P" for l in L) and not any(l[0] == "B" and has(l[1], lambda t: t == ("arg", 0)) and has(l[1], lambda t: t == ("arg", 2)) and core(l[1], l[2])[1] for l in L):
            env = Env(p)
            for l in L:
                if l[0] == "B":
                    env.assume(l[1], l[2])
            if not env.ge0(scale(env.form(("arg", 0)), -1)):
                S.bad("fewer threads", fn, q.where, "fewer threads than asked for can be made", q)
        cuts = [i for i, l in enumerate(L) if l[0] == "P"] + [len(L)]
        for a, b in zip(cuts, cuts[1:]):
            seg = L[a:b]
            did = [l for l in seg if l[0] in ("NEW", "HERE")]
            ctx.count("threads_added")
            n += 1
            none = any(l[0] == "B" and null_fact(l, L[a][1]) for l in seg)
            if none:
                continue
            if len(did) != 1:
                S.bad("thread not added", fn, q.where, "for a thread asked for %d are made" % len(did), q)
                continue
            d = did[0]
            facts = [core(l[1], l[2]) for l in seg[:seg.index(d)] if l[0] == "B"]
            block = next((v for k, v in facts if k in (("arg", 1), ("v", ("arg", 1)), ("v", ("param", 1)))), None)
            last = next((v if k[1] == "==" else not v for k, v in facts if k[0] == "bin" and k[1] in ("==", "!=", "-") and has(k, lambda t: t in (("arg", 0), ("param", 0)))), None)
            if d[0] == "HERE":
                if not (block and last):
                    S.bad("blocking", fn, q.where, "the calling thread is kept although that was not asked for, or before the last thread was made", q)
                if d[1] and not has(d[1][0], lambda t: t == L[a][1]):
                    S.bad("other context", fn, q.where, "the thread runs another context than the one picked", q)
            else:
                if block is not False and last is not False:
                    S.bad("not blocking", fn, q.where, "the calling thread is not kept although that was asked for", q)
                binds = [l for l in seg if l[0] == "BIND"]
                t = (d[2],) + tuple(x[1] for x in binds)
                ids = [s[1] for s in subterms(t) if isinstance(s, tuple) and s and s[0] == "fnref"]
                if not any(i in p.fns and reaches(p, p.fns[i]) for i in ids) and not any(isinstance(s, tuple) and s and s[0] == "lambda" for s in subterms(t)):
                    S.bad("thread function", fn, q.where, "the new thread does not run the pump's loop", q)
                elif not has(t, lambda s: s == L[a][1]) or not has(d[1], lambda s: s == L[a][1]):
                    S.bad("other context", fn, q.where, "the new thread is made for another context than the one picked", q)
    if not n:
        S.bad("no threads", fn, fn.where(), "no thread is ever added")


def null_fact(l, t):
    k, v = l[1], l[2]
    while k[0] == "un" and k[1] == "!":
        k, v = k[2], not v
    if k[0] == "bin" and k[1] in ("==", "!="):
        a, b = k[2], k[3]
        if a == ("c", 0):
            a, b = b, a
        return b == ("c", 0) and has(a, lambda s: s == t) and v == (k[1] == "==")
    return has(k, lambda s: s == t) and not v and k[0] != "bin"


# ---------------------------------------------------------------- registration
def removal(S):
    ctx, p = S.ctx, S.p

    def label(ex, st, ev):
        n = len(st.rule)
        if ev.kind == "branch":
            return ("B", ev.cond, ev.taken)
        if ev.kind == "call" and ev.d is not None:
            if ev.obj == this(S.services) or any(a == this(S.services) for a in ev.args):
                if ev.name in ("remove", "erase", "splice", "swap", "remove_if", "clear", "pop_front"):
                    return ("OUT", ev.name, n)
                if ev.name in ("emplace_back", "push_back", "emplace_front", "push_front", "insert"):
                    return ("IN", tuple(deep(ex, st, a) for a in ev.args), n)
            if p.decls[ev.d].get("cls") == S.I and ev.name == "stop_service":
                return ("STOP", n)
            if ev.name == "free":
                return ("FREE", n)
            if ev.name == "do_something_to_all":
                return ("EACH", next((l[1] for l in reversed(st.rule) if l[0] == "FN"), None), n)
            if ev.name in ("bind", "mem_fn"):
                m = fnname(p, tuple(ev.args))
                return ("FN", m, n) if m else None
    opq = lambda p, d: d["n"] in QUIET or d.get("cls") == S.I
    for name in ("remove", "clear", "add"):
        for fn in S.M.get(name, []):
            ctx.analysed(fn)
            done = False
            for q in trace(p, fn, S.P, label, force=True, inline_all=True, opaque=opq)[0]:
                if q.kind not in ("exit", "void"):
                    continue
                ctx.count("table_paths")
                L = [l for l in q.labels if l[0] in ("OUT", "IN", "STOP", "FREE", "EACH")]
                ks = [l[0] for l in L]
                if name == "add":
                    if ks.count("IN") != 1:
                        S.bad("not registered", fn, q.where, "a service is not entered exactly once", q)
                    done = True
                elif ks and name == "remove":
                    done = True
                    if ks != ["OUT", "STOP", "FREE"]:
                        S.bad("removal", fn, q.where, "a removed service is not taken out of the table, stopped and then freed, each once and in this order", q)
                elif name == "clear":
                    if "OUT" not in ks or "EACH" in ks and ks.index("OUT") > ks.index("EACH"):
                        S.bad("removal", fn, q.where, "the services are not taken out of the table before they are stopped", q)
                    e = [l for l in L if l[0] == "EACH"]
                    if e and not frees(S, e[0][1]) or not e and not ("STOP" in ks or True):
                        S.bad("not stopped", fn, q.where, "the removed services are not stopped and freed", q)
                    done = done or bool(e) or "STOP" in ks
            if not done:
                S.bad("no effect", fn, fn.where(), "the function never changes the table of services")
    for fn in S.M.get("stop_and_free", []):
        for q in trace(p, fn, S.P, label, force=True, inline_all=True, opaque=opq)[0]:
            ks = [l[0] for l in q.labels if l[0] in ("STOP", "FREE")]
            if q.kind in ("exit", "void") and ks != ["STOP", "FREE"]:
                S.bad("removal", fn, q.where, "a service is not stopped and then freed, each once", q)


def frees(S, name):
    return name is not None and any(any(S.p.decls[x["d"]]["n"] == "free" for _, x in fn.calls() if x.get("d") is not None) for fn in S.M.get(name, []))


def services(S):
    """a service starts and stops once per start, and is registered as long as it exists"""
    ctx, p = S.ctx, S.p
    fs = {p.decls[f]["n"]: f for f in p.classes[S.I].get("fs", [])}
    fns = [p.fns[m] for m in p.classes[S.I].get("ms", []) if m in p.fns]
    flag = next((f for f in fs.values() if p.ty(p.decls[f]["ty"])["s"] in ("bool", "_Bool")), None)
    if flag is None:
        raise Broken("the started flag of a service was not found")

    def label(ex, st, ev):
        n = len(st.rule)
        if ev.kind == "branch":
            return ("B", ev.cond, ev.taken)
        if ev.kind == "write" and ev.loc == this(flag):
            return ("W", ev.val)
        if ev.kind == "call" and ev.d is not None and ev.name in ("init", "uninit", "add", "remove"):
            return (ev.name, ev.res, n, tuple(ev.args))
    for fn in fns:
        if fn.name not in ("start_service", "stop_service", "<dtor>") and not p.decls[fn.id].get("ctor") and not fn.name.startswith("~"):
            continue
        cc = p.decls[fn.id].get("ctor")
        if cc and (len(fn.params) != 1 or "service_pump" not in p.ty(p.decls[fn.params[0]]["ty"])["s"] or "i_service" in p.ty(p.decls[fn.params[0]]["ty"])["s"]):
            continue
        ctx.analysed(fn)
        for q in trace(p, fn, S.I, label, force=True, opaque=lambda p, d: True, calls=("init", "uninit", "add", "remove"))[0]:
            if q.kind not in ("exit", "void"):
                continue
            ctx.count("service_paths")
            L = q.labels
            names = [l[0] for l in L]
            on = None
            for l in L:
                if l[0] == "B":
                    k, v = core(l[1], l[2])
                    if has(k, lambda t: t == this(flag)):
                        on = v
                        break
            w = [l[1] for l in L if l[0] == "W"]
            if cc:
                if names.count("add") != 1 or not any(has(a, lambda t: t == ("this",)) for l in L if l[0] == "add" for a in l[3]):
                    S.bad("not registered", fn, q.where, "a new service is not registered with its pump", q)
            elif fn.name == "start_service":
                if on is None or on and ("init" in names or w) or not on and (names.count("init") != 1 or not w or w[-1] != next(l[1] for l in L if l[0] == "init") and not has(w[-1], lambda t: t[0] == "call" and str(t[1]).endswith("init"))):
                    if not (not on and on is not None and names.count("init") == 1 and agree(L, w)):
                        S.bad("service start", fn, q.where, "a service that is not started is not initialised exactly once, or its state does not follow", q)
            elif fn.name == "stop_service":
                if on is None or on and (names.count("uninit") != 1 or not w or w[-1] != ("c", 0)) or not on and ("uninit" in names or w and w[-1] != ("c", 0)):
                    S.bad("service stop", fn, q.where, "a started service is not stopped exactly once, or its state does not follow", q)
            else:
                if names.count("remove") != 1:
                    S.bad("not unregistered", fn, q.where, "a service is destroyed and stays in the table of its pump", q)


def agree(L, w):
    """a constant written after a test of init's answer"""
    r = next(l[1] for l in L if l[0] == "init")
    for l in L:
        if l[0] == "B":
            k, v = core(l[1], l[2])
            if has(k, lambda t: t == r):
                return (w[-1] == ("c", 1)) == v if w else not v
    return False


def run(ctx):
    ctx.each(LIB, unit)
    ctx.need("run_paths", 13)
    ctx.need("starts", 13)
    ctx.need("stops", 13)
    ctx.need("threads_added", 13)
