RULE = """Wherever a link's state becomes 'graceful shutdown', the same path, or the task it queues, arms the monitoring timer or closes the link. The monitor gives up only when
the state shows that the graceful shutdown is over; otherwise it either goes on with a smaller remaining count, or tells the application's hook that time is over, and period
times count is the same configured duration wherever the monitor is armed. The default hook shuts the link down, and the monitor is stopped early only by code that then shuts
the link down itself. A forced shutdown closes the link on every path unless a forced shutdown is under way already; a connection that is not established yet is closed with
its transport. A negotiation that finishes after a graceful shutdown began does not bring the link back."""
EXPLANATION = """Set of link states possible at each point of every path (from the comparisons and assignments on it), for every function of every concrete TCP socket class that arms or
stops the monitor, changes the state, or shuts the link down."""
ASSUMPTIONS = ["timers fire", "the application's own on_async_shutdown_error shuts the link down as documented", "websocket and TLS closing handshakes may never complete"]
from a01 import resolve
from b03 import deep
from f01 import callers
from f02 import core, strip, final, ARM, LOGS
from lib import *
from witness_units import LIB

HOOK = "on_async_shutdown_error"
STATES = ("CONNECTED", "FORCE_SHUTTING_DOWN", "GRACEFUL_SHUTTING_DOWN", "BROKEN", "HANDSHAKING")


class Link:
    def __init__(self, p, c):
        self.p, self.c = p, c
        self.b = base_class(p, c, NS + "tcp::socket_base")
        self.f = getter_field(p, self.b, "is_broken")
        self.st = ("f", ("this",), self.f)
        self.val = enums(p)
        if any(s not in self.val for s in STATES):
            raise Broken("link states not found")
        self.all = frozenset(self.val.values())
        self.FORCE, self.GRACE, self.BROKEN, self.CONN, self.HAND = (self.val[n] for n in ("FORCE_SHUTTING_DOWN", "GRACEFUL_SHUTTING_DOWN", "BROKEN", "CONNECTED", "HANDSHAKING"))
        self.fns = class_functions(p, c)
        self.lam = []
        for fn in list(self.fns):
            self.lam += lambdas(p, fn)
        self._ex = {}

    def virt(self, name, need=True):
        p = self.p
        for b in p.bases(self.c):
            if p.classes[b]["qn"].startswith(NS + "ext::callbacks"):
                continue
            for m in p.classes[b].get("ms", []):
                if p.decls[m]["n"] == name and m in p.fns:
                    return p.fns[m]
        if need:
            raise Broken("no body for %s" % name)


def lambdas(p, fn):
    out = []
    for x in fn.st:
        if x and x["k"] == "lambda" and x["d"] in p.fns:
            out.append(p.fns[x["d"]])
            out += lambdas(p, p.fns[x["d"]])
    return out


def enums(p):
    out = {}
    for d in (p.decls.values() if isinstance(p.decls, dict) else p.decls):
        if d and d["k"] == "enumc" and d["qn"].startswith(NS + "tcp::socket_base::") and d.get("cv") is not None:
            out[d["n"]] = d["cv"]
    return out


def state_test(L, cond, taken):
    """-> (value, equal?) when a branch compares the link state with a constant"""
    c, v = core(cond, taken)
    if c[0] == "bin" and c[1] in ("==", "!="):
        a, b = c[2], c[3]
        for x, y in ((a, b), (b, a)):
            if x[0] == "c" and y[0] in ("v", "rd", "f", "conv") and strip(y) == L.st:
                return x[1], v if c[1] == "==" else not v
    if c[0] in ("v", "rd", "f") and strip(c) == L.st:      # compared with zero
        return 0, not v
    return None


def explore(L, fn, key=None):
    k = (fn.id,)
    if k in L._ex:
        return L._ex[k]
    p, c = L.p, L.c

    def label(ex, st, ev):
        out = []
        n = len(st.rule)
        if ev.kind == "branch":
            t = state_test(L, ev.cond, ev.taken)
            if t is not None:
                out.append(("IS", t[0], t[1], n))
            elif fn.id in ticks(L):
                out.append(("BR", ev.cond, ev.taken, n))
        elif ev.kind == "write" and ev.loc == L.st:
            out.append(("SET", ev.val[1] if ev.val[0] == "c" else None, ev.line, n))
        elif ev.kind == "call" and ev.d is not None:
            nm = ev.name
            if ev.inlined:
                return None
            if nm == HOOK:
                out.append(("HOOK", ev.line, n))
            elif nm in ARM + ("change_timer_call_back",):
                a = [deep(ex, st, x) for x in ev.args]
                ts = set()
                for x, y in zip(ev.args, a):
                    ts |= set(targets(p, y)) | set(targets(p, resolve(ex, st, ev, x)))
                cb = next((y for y in reversed(a) if targets(p, y)), None)
                out.append(("ARM", a[0], a[1] if len(a) > 2 and not targets(p, a[1]) else None, tuple(sorted(ts)), cb, ev.line, n))
            elif nm in ("stop_timer",):
                out.append(("STOP", ev.args[0] if ev.args else None, ev.line, n))
            elif nm == "close" and p.decls[ev.d]["qn"].startswith(NS):
                out.append(("CLOSE", deep(ex, st, ev.args[0]) if ev.args else T0, n))
            elif nm == "start" and p.decls[ev.d]["qn"].startswith(NS):
                out.append(("START", n))
            elif is_initiation(p, p.decls[ev.d]):
                ts = set()
                for x in ev.args:
                    ts |= set(targets(p, deep(ex, st, x))) | set(targets(p, resolve(ex, st, ev, x)))
                if not nm.startswith("async_"):
                    out.append(("DEFER", tuple(sorted(ts)), n))
        return out or None

    def op(p, d):
        return d["n"] in LOGS or d["n"] in ARM or d["n"] in ("stop_timer", "change_timer_call_back", "dump_left_data", "on_connect", "on_handshake", "recv_msg", "send_msg", "start_heartbeat", "endpoint_to_string") \
            or d["n"] in ("start", "close") or d["n"] == HOOK and d["id"] != fn.id \
            or d["n"] == "do_start" and d.get("cls") is not None and p.classes[d["cls"]]["qn"] == NS + "socket"
    L._ex[k] = trace(p, fn, c, label, force=True, opaque=op, relevant=None if fn.id in ticks(L) else (p.decls[L.f]["n"],), fields=(p.decls[L.f]["n"],), calls=ARM + ("stop_timer", "change_timer_call_back", "close", HOOK, "post", "defer", "dispatch"), cap=300)
    return L._ex[k]


def possible(L, q, upto=None, start=None):
    s = L.all if start is None else start
    for l in q.labels[:upto]:
        if l[0] == "IS":
            s = s & {l[1]} if l[2] else s - {l[1]}
        elif l[0] == "SET":
            s = frozenset([l[1]]) if l[1] is not None else L.all
    return s


def ticks(L):
    """functions a timer runs that tell the application a graceful shutdown took too long"""
    if not hasattr(L, "_t"):
        p = L.p
        named = {x for f in L.fns for _, x in f.fnrefs()}
        L._t = {fn.id for fn in L.fns if "callbacks" not in fn.qn and (any(x.get("d") is not None and p.decls[x["d"]]["n"] == HOOK for _, x in fn.calls())
                or fn.id in named and any(x and x["k"] == "mem" and x["d"] == L.f for x in fn.st) and p.ty(p.decls[fn.id]["ty"])["s"] in ("bool", "_Bool") and len(fn.params) == 1)}
    return L._t


def monitor(L, l):
    return l[0] == "ARM" and any(final(L.p, L.c, t) in ticks(L) for t in l[3])


def arms_or_closes(L, d, depth=0):
    p = L.p
    d = final(p, L.c, d)
    fn = p.fns.get(d)
    if fn is None or depth > 4:
        return False
    ps = [q for q in explore(L, fn)[0] if q.kind in ("exit", "void")]
    return bool(ps) and all(settled(L, q, 0, depth) for q in ps)


def settled(L, q, i, depth=0):
    for l in q.labels[i:]:
        if l[0] == "CLOSE" or monitor(L, l):
            return True
        if l[0] == "DEFER" and any(arms_or_closes(L, t, depth + 1) for t in l[1]):
            return True
    return False


def forced(L, d, bad, depth=0):
    """running d closes the link, unless a forced shutdown is under way"""
    p = L.p
    fn = p.fns.get(final(p, L.c, d))
    if fn is None:
        return False
    ok = True
    for q in explore(L, fn)[0]:
        if q.kind not in ("exit", "void"):
            continue
        ci = next((i for i, l in enumerate(q.labels) if l[0] == "CLOSE"), None)
        if ci is None:
            if not possible(L, q) <= {L.FORCE}:
                ok = False
                if bad:
                    bad("forced shutdown refused", fn, q, "a forced shutdown does not close the link although none is under way (%s)" % names(L, possible(L, q)))
        else:
            s = possible(L, q, ci)
            if bad and s <= {L.BROKEN} and q.labels[ci][1] == T0:
                bad("transport left open", fn, q, "shutting down a link that is not established yet leaves the transport open, so its pending connect goes on")
            elif bad and not s <= {L.FORCE, L.BROKEN}:
                bad("state not forced", fn, q, "the link is closed while its state still is %s" % names(L, s))
    return ok


def names(L, s):
    inv = {v: k for k, v in L.val.items()}
    return ", ".join(sorted(inv.get(x, str(x)).lower() for x in s))


def nearest(L, name, pred=None):
    p = L.p
    for b in p.bases(L.c):
        if not p.classes[b].get("proj"):
            continue
        fs = [p.fns[m] for m in p.classes[b].get("ms", []) if p.decls[m]["n"] == name and m in p.fns and (pred is None or pred(p.fns[m]))]
        if fs:
            return fs
    return []


def link_owner(fn):
    """a shutdown of one link, not of a whole container of them"""
    return not any("shared_ptr" in fn.p.ty(q["ty"])["s"] for q in fn.p.decls[fn.id].get("ps", []))


def unit(ctx, p):
    leaves = p.leaf_classes(NS + "tcp::socket_base")
    if not leaves:
        return
    cs = callers(p)
    for c in leaves:
        L = Link(p, c)
        ctx.count("link_classes")
        seen = set()

        def bad(k, fn, q, why, line=None):
            ctx.violation("%s in %s" % (k, fn.qn), fn.where(line) if line else q.where, why, q.trail[-12:], p.tu)
        T = ticks(L)
        if not T:
            raise Broken("no monitor in %s" % p.classes[c]["qn"])
        total = {}
        for fn in L.fns + L.lam:
            if fn.id in seen or not relevant(L, fn):
                continue
            seen.add(fn.id)
            ctx.analysed(fn)
            for q in explore(L, fn)[0]:
                if q.kind not in ("exit", "void"):
                    continue
                for i, l in enumerate(q.labels):
                    if l[0] == "SET" and l[1] == L.GRACE:
                        ctx.count("graceful_starts")
                        if not settled(L, q, i):
                            bad("unwatched", fn, q, "a graceful shutdown begins but neither the monitor is armed nor the link closed: it lasts as long as the peer likes", l[2])
                    elif monitor(L, l) and fn.id not in T:
                        ctx.count("monitors")
                        n = count(l[4])
                        if l[2] is not None and l[2][0] == "c" and n is not None:
                            total.setdefault(l[2][1] * n, (fn, q, l[5], l[2][1], n))
                        if stays(l[4]) is False:
                            bad("monitor stops", fn, q, "the monitor's timer stops although the monitor wants another period", l[5])
                    elif l[0] == "STOP" and monitor_id(L) is not None and (l[1] == ("c", monitor_id(L))):
                        if helper(L, fn, cs):
                            continue
                        ctx.count("monitor_stops")
                        if not any(x[0] in ("CLOSE", "START") or x[0] == "DEFER" and any(forced(L, t, None) for t in x[1]) for x in q.labels[i:]):
                            bad("monitor dropped", fn, q, "the monitor of a graceful shutdown is stopped without shutting the link down: nobody notices if the peer never finishes", l[2])
        if len(total) > 1 or any(v <= 0 for v in total):
            for v, (fn, q, line, a, n) in list(sorted(total.items()))[1:]:
                bad("duration", fn, q, "the monitor is armed for %d periods of %d ms, but for %s ms elsewhere" % (n, a, sorted(total)[0]), line)
        for t in sorted(T):
            tick(ctx, L, p.fns[t], bad)
        if not any(l[0] == "HOOK" for t in T for q in explore(L, p.fns[t])[0] for l in q.labels):
            ctx.violation("time over unnoticed in %s" % p.fns[sorted(T)[0]].qn, p.fns[sorted(T)[0]].where(), "no path of the monitor tells the application that a graceful shutdown took too long", (), p.tu)
        hook(ctx, L, bad)
        graceful(ctx, L, bad)
        force(ctx, L, bad)
        undo(ctx, L, bad)


def relevant(L, fn):
    p = L.p
    if touches(fn, (p.decls[L.f]["n"],)):
        return True
    for _, x in fn.calls():
        d = x.get("d")
        if d is not None and (p.decls[d]["n"] in ARM + ("stop_timer",) or d in p.fns and p.decls[d]["n"] in ("start_graceful_shutdown_monitoring", "stop_graceful_shutdown_monitoring", "shutdown_ssl", "shutdown_websocket", "graceful_shutdown", "force_shutdown")
                                  or d in p.fns and p.fns[d].cls is not None and any(y.get("d") is not None and p.decls[y["d"]]["n"] in ARM + ("stop_timer",) for _, y in p.fns[d].calls())):
            return True
    return False


def helper(L, fn, cs):
    """inlined into every caller, so judged there"""
    d = L.p.decls[fn.id]
    if d.get("virt") or "operator()" == d["n"]:
        return False
    named = {x for f in L.fns for _, x in f.fnrefs()}
    return fn.id not in named and (bool(cs.get(fn.id)) or d.get("acc") not in (None, "public", 0))


def monitor_id(L):
    if not hasattr(L, "_mid"):
        L._mid = None
        for fn in L.fns + L.lam:
            if relevant(L, fn):
                for q in explore(L, fn)[0]:
                    for l in q.labels:
                        if monitor(L, l) and l[1] and l[1][0] == "c":
                            L._mid = l[1][1]
    return L._mid


def binding(cb):
    for t in subterms(cb) if cb else ():
        if t and t[0] == "pure" and t[1] == "bind" and any(isinstance(x, tuple) and x and x[0] == "fnref" for x in t[2]):
            return t
    return None


def count(cb):
    b = binding(cb)
    if b is not None and len(b[2]) > 2 and b[2][2][0] == "c":
        return b[2][2][1]
    return None


def stays(cb):
    for t in subterms(cb) if cb else ():
        if t and t[0] == "pure" and t[1] == "if_then_else_return":
            return t[2][1] != T0 and t[2][2] == T0
        if t and t[0] == "pure" and t[1] == "operator,":
            return False
    return None


def tick(ctx, L, fn, bad):
    p = L.p
    ctx.analysed(fn)
    for q in explore(L, fn)[0]:
        if q.kind not in ("exit", "void"):
            continue
        ctx.count("tick_paths")
        ex = explore(L, fn)[1]
        h = next((i for i, l in enumerate(q.labels) if l[0] == "HOOK"), None)
        s = possible(L, q, h)
        if h is not None:
            if not s <= {L.GRACE}:
                bad("wrong link reported", fn, q, "a link whose state may be %s is reported as stuck in a graceful shutdown" % names(L, s - {L.GRACE}), q.labels[h][1])
            continue
        if L.GRACE not in s:
            continue
        if q.val == T0 or q.kind == "void":
            bad("monitor gives up", fn, q, "the monitor ends without telling the application although the graceful shutdown may still be going on")
            continue
        re = [l for l in q.labels if l[0] == "ARM" and fn.id in l[3]]
        b = binding(re[-1][4]) if re else None
        a = strip(b[2][2]) if b is not None and len(b[2]) > 2 else None
        if a is None or not (a[0] == "bin" and a[1] == "-" and strip(a[2]) == ("arg", 0) and a[3][0] == "c" and a[3][1] >= 1):
            bad("no progress", fn, q, "the monitor goes on without a smaller remaining count, so the graceful shutdown may never end")
        elif not positive(ex, q, a):
            bad("count below zero", fn, q, "the monitor goes on with a count that may already be used up")
        elif stays(re[-1][4]) is False:
            bad("monitor stops", fn, q, "the monitor's timer stops although the monitor wants another period", re[-1][5])


def positive(ex, q, a):
    for t in (("bin", ">", a, T0), ("bin", "<", T0, a), ("bin", "!=", a, T0)):
        if truth(ex, q.facts, t) is True:
            return True
    return any(l[0] == "BR" and (core(l[1], l[2])[0] == a and core(l[1], l[2])[1]) for l in q.labels) or truth(ex, q.facts, ("bin", ">", a[2], a[3])) is True


def hook(ctx, L, bad):
    fn = L.virt(HOOK)
    ctx.analysed(fn)
    for q in explore(L, fn)[0]:
        if q.kind not in ("exit", "void"):
            continue
        ctx.count("time_over")
        if not any(l[0] in ("CLOSE",) or l[0] == "DEFER" and any(forced(L, t, None) for t in l[1]) or l[0] == "START" for l in q.labels):
            bad("kept open", fn, q, "when a graceful shutdown took too long, the link is not shut down")


def force(ctx, L, bad):
    p = L.p
    for fn in nearest(L, "force_shutdown", link_owner):
        ctx.analysed(fn)
        for q in explore(L, fn)[0]:
            if q.kind not in ("exit", "void"):
                continue
            ctx.count("forced_shutdowns")
            if any(l[0] in ("START", "CLOSE") for l in q.labels):
                continue
            ds = [(i, l) for i, l in enumerate(q.labels) if l[0] == "DEFER"]
            if not ds:
                if not possible(L, q) <= {L.FORCE}:
                    bad("forced shutdown dropped", fn, q, "a forced shutdown does nothing")
                continue
            for i, l in ds:
                if any(x[0] == "SET" and x[1] == L.GRACE for x in q.labels[:i]):
                    g = next(j for j, x in enumerate(q.labels) if x[0] == "SET" and x[1] == L.GRACE)
                    if not possible(L, q, g) <= {L.CONN}:
                        bad("forced into graceful", fn, q, "a forced shutdown of a link that may be %s only starts a graceful one" % names(L, possible(L, q, g) - {L.CONN}))
                elif not any(final(p, L.c, t) in p.fns for t in l[1]):
                    bad("forced shutdown dropped", fn, q, "a forced shutdown queues nothing that closes the link")
                else:
                    for t in l[1]:
                        forced(L, t, bad)


def graceful(ctx, L, bad):
    """a graceful shutdown begins, or the link is closed, unless a shutdown is under way"""
    p = L.p
    for fn in nearest(L, "graceful_shutdown", link_owner):
        ctx.analysed(fn)
        for q in explore(L, fn)[0]:
            if q.kind not in ("exit", "void"):
                continue
            ctx.count("graceful_requests")
            if any(l[0] in ("START", "CLOSE") for l in q.labels) or settled(L, q, 0):
                continue
            ts = [final(p, L.c, t) for l in q.labels if l[0] == "DEFER" for t in l[1]]
            if not any(t in p.fns for t in ts) and not possible(L, q) <= {L.FORCE, L.GRACE}:
                bad("graceful shutdown dropped", fn, q, "a graceful shutdown does nothing")
            for t in ts:
                for r in explore(L, p.fns[t])[0] if t in p.fns else ():
                    if r.kind in ("exit", "void") and not settled(L, r, 0) and not possible(L, r) <= {L.FORCE, L.GRACE}:
                        bad("graceful shutdown dropped", p.fns[t], r, "a graceful shutdown does nothing to a link that may be %s" % names(L, possible(L, r) - {L.FORCE, L.GRACE}))


def undo(ctx, L, bad):
    """a negotiation that ends after a graceful shutdown began"""
    p = L.p
    hand = any(l[0] == "SET" and l[1] == L.HAND for fn in L.fns + L.lam if touches(fn, (p.decls[L.f]["n"],)) for q in explore(L, fn)[0] for l in q.labels)
    if not hand:
        return
    todo = list(nearest(L, "graceful_shutdown", link_owner)) + list(nearest(L, "force_shutdown", link_owner))
    done, can = set(), False
    while todo:
        fn = todo.pop()
        if fn.id in done:
            continue
        done.add(fn.id)
        for q in explore(L, fn)[0]:
            for i, l in enumerate(q.labels):
                if l[0] == "SET" and l[1] == L.GRACE and L.HAND in possible(L, q, i):
                    can = True
                if l[0] == "DEFER":
                    todo += [p.fns[t] for t in l[1] if t in p.fns and t not in done]
    ctx.count("negotiating_classes")
    if not can:
        return
    named = {final(p, L.c, x) for f in L.fns for _, x in f.fnrefs()} | {f.id for f in L.lam}
    for d in sorted(named):
        fn = p.fns.get(d)
        if fn is None or not any("error_code" in p.ty(x["ty"])["s"] for x in p.decls[d].get("ps", [])):
            continue
        for q in explore(L, fn)[0]:
            for i, l in enumerate(q.labels):
                if l[0] == "SET" and l[1] == L.CONN:
                    ctx.count("negotiation_ends")
                    if L.GRACE in possible(L, q, i):
                        bad("shutdown undone", fn, q, "a link whose graceful shutdown began during the negotiation becomes connected again and stays", None)


def run(ctx):
    ctx.each(LIB, unit)
    ctx.need("link_classes", 30)
    ctx.need("graceful_starts", 30)
    ctx.need("monitors", 30)
    ctx.need("tick_paths", 80)
    ctx.need("time_over", 30)
    ctx.need("forced_shutdowns", 60)
    ctx.need("negotiation_ends", 2)
    ctx.need("graceful_requests", 60)
