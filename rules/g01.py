RULE = """Starting a timer without a callback does nothing and says so; otherwise it marks the timer running and sets the expiry before it waits, and
the wait's handler carries a fresh sequence number. The handler calls the callback at most once, only while the timer is marked running and the wait
was not cancelled; it waits again exactly when the callback asked for it and the timer is still marked running, otherwise it marks the timer stopped
exactly when nobody restarted it meanwhile. Stopping marks a running timer stopped before cancelling its wait and leaves other timers alone; the
bulk stop spares only the excepted id; destroying the owner stops every timer. No divisor in these functions can be zero."""
EXPLANATION = """Path enumeration over the timer component (both executor flavours, every configuration), including the handler identified as the
function bound at the wait; status re-reads after application code are independent values."""
ASSUMPTIONS = ["asio invokes a cancelled wait's handler with an error", "operations on one timer are not issued concurrently with each other (documented restriction)"]
from lib import *
from witness_units import LIB, DEMO

STARTED = 1


def timer_classes(p):
    return [c for c in p.cls_by_qn(NS + "timer")]


def is_cb(ev, p):
    return ev.kind == "call" and ev.name == "operator()" and ev.qn and "function" in ev.qn


def tf(p, loc, name):
    """field `name` of timer_info"""
    if not loc or loc[0] != "f":
        return False
    d = p.decls[loc[2]]
    return d["n"] == name and d.get("cls") is not None and p.classes[d["cls"]]["n"] == "timer_info"


def mk(p):
    def label(ex, st, ev):
        if ev.kind == "ret" and ev.name == "start_timer" and ev.val == T0:
            return ("startfail",)
        if is_cb(ev, p):
            return ("cb", tuple(ev.args))
        if ev.kind == "write" and tf(p, ev.loc, "status"):
            return ("status", ev.val[1] if ev.val[0] == "c" else "?")
        if ev.kind == "write" and tf(p, ev.loc, "seq"):
            return ("seq",)
        if ev.kind == "write" and ev.op in ("%=", "/=", "=", "decl") and ev.val and has(ev.val, lambda t: t[0] == "bin" and t[1] in ("%", "/")):
            for t in subterms(ev.val):
                if t and t[0] == "bin" and t[1] in ("%", "/") and not nonzero(ex, st, t[3]):
                    return ("div0", show(p, t[3]))
        if ev.kind == "branch":
            atom, pol = ex.norm(ev.cond)
            v = ex.lookup(st, atom)
            if is_status_atom(p, atom):
                s = status_of(p, atom, v)
                return ("is", s, ev.line, repr(atom)[:0])
            if has(atom, lambda t: t[0] == "f" and p.decls[t[2]]["n"] == "seq"):
                return ("seqcmp", v if atom[0] == "eq" else None)
            if has(atom, lambda t: t[0] == "call" and "function" in str(t[1]) and "operator()" in str(t[1])):
                return ("cbret", v if atom[0] == "b" else (not v))
            if has(atom, lambda t: t[0] in ("param", "arg")) and not has(atom, lambda t: t[0] == "f"):
                return ("ec", v if atom[0] == "b" else (not v))
            if has(atom, lambda t: t[0] == "f" and p.decls[t[2]]["n"] == "call_back"):
                return ("hascb", v if atom[0] == "b" else (not v))
        if ev.kind == "call" and ev.d is not None:
            if ev.name == "async_wait":
                return ("wait", handler_info(p, ex, st, ev))
            if ev.name in ("expires_after", "expires_from_now", "expires_at"):
                return ("expiry",)
            if ev.name == "cancel" and "timer" in ev.qn:
                return ("cancel",)
        return None
    return label


def nonzero(ex, st, t):
    if t[0] == "c":
        return t[1] != 0
    lo, hi = ex.bounds(st, t)
    if lo is not None and lo > 0:
        return True
    for k, v in st.facts.items():
        if k == ("eq", T0, t) and not v or k == ("b", t) and v:
            return True
    return False


def is_status_atom(p, a):
    return a[0] == "eq" and a[1][0] == "c" and has(a[2], lambda t: t[0] == "f" and p.decls[t[2]]["n"] == "status")


def status_of(p, a, v):
    return ("=" if v else "!") + str(a[1][1])


def handler_info(p, ex, st, ev):
    from a01 import handler_of, resolve
    h = resolve(ex, st, ev, handler_of(ev.args))
    seq = has(h, lambda t: (t[0] == "bin" and t[1] == "+") and has(t, lambda q: q[0] == "f" and p.decls[q[2]]["n"] == "seq")) or has(h, lambda t: t[0] == "f" and p.decls[t[2]]["n"] == "seq") or has(h, lambda t: t[0] == "trunc")
    return (tuple(sorted(set(t for t in targets(p, h) if t in p.fns))), seq, has(h, lambda t: t[0] == "param" or (t[0] == "pure" and t[1] == "ref")))


def unit(ctx, p):
    label = mk(p)
    for c in timer_classes(p):
        ctx.count("timer_classes")
        opts = dict(calls=("async_wait", "cancel"), fields=("status", "seq", "call_back"), force=True, opaque=lambda p, d: d["n"] in ("error_out", "warning_out", "info_out"))
        ms = [p.fns[m] for m in p.classes[c]["ms"] if m in p.fns]
        for m in ms:
            ctx.analysed(m)
        handlers = set()
        # ---- start: every function that itself starts the wait
        starters = [f for f in ms if any(x.get("d") is not None and p.decls[x["d"]]["n"] == "async_wait" for _, x in f.calls())]
        pub = [f for f in ms if f.name == "start_timer"]
        if not pub:
            raise Broken("no start_timer")
        for f in {q.id: q for q in starters + pub}.values():
            for q in trace(p, f, c, label, **opts)[0]:
                ctx.count("start_paths")
                L = q.labels
                w = q.all("wait")

                def bad(rule, msg):
                    ctx.violation("%s in %s" % (rule, f.qn), q.where, msg, q.trail[-20:], p.tu)
                for x in L:
                    if x[0] == "div0":
                        bad("division", "division by %s, which can be zero" % x[1])
                if not w:
                    if q.val != T0:
                        bad("false start", "starting a timer reports success without waiting")
                    if any(l == ("status", STARTED) for l in L):
                        bad("false start", "a timer is marked running without a wait")
                    continue
                if len(w) != 1:
                    bad("double wait", "one start waits more than once")
                wi = q.index("wait")
                if q.val == T0:
                    bad("start result", "a started timer is reported as not started")
                if ("status", STARTED) not in L[:wi] or any(l[0] == "status" and l[1] != STARTED for l in L):
                    bad("start status", "the timer is not marked running before the wait begins")
                if ("expiry",) not in L[:wi]:
                    bad("start expiry", "the wait begins without a new expiry time")
                if q.index("seq") < 0 or not w[0][1][1]:
                    bad("start sequence", "the wait's handler does not carry a fresh sequence number")
                if ("hascb", True) not in L[:wi]:
                    bad("start without callback", "a timer without a callback can be started")
                handlers.update(w[0][1][0])
        hs = [p.fns[h] for h in handlers]
        if not hs:
            raise Broken("no timer handler found in %s" % p.classes[c]["full"][:80])
        for f in hs:
            ctx.analysed(f)
            seen_restart = seen_plain = 0
            for q in trace(p, f, c, label, **opts)[0]:
                ctx.count("handler_paths")
                L = q.labels

                def bad(rule, msg):
                    ctx.violation("%s in %s" % (rule, f.qn), q.where, msg, q.trail[-20:], p.tu)
                for x in L:
                    if x[0] == "div0":
                        bad("division", "division by %s, which can be zero" % x[1])
                cbs = [i for i, l in enumerate(L) if l[0] == "cb"]
                w = [i for i, l in enumerate(L) if l[0] == "wait"]
                if len(cbs) > 1:
                    bad("callback twice", "one expiration can call the callback more than once")
                if cbs:
                    pre = L[:cbs[0]]
                    if not any(l[0] == "is" and l[1] == "=1" for l in pre):
                        bad("stopped callback", "the callback can run although the timer is not marked running")
                    if ("ec", False) not in pre:
                        bad("cancelled callback", "the callback can run for a cancelled wait")
                if w:
                    seen_restart += 1
                    if len(w) > 1:
                        bad("double restart", "one expiration can wait again more than once")
                    if not cbs or ("cbret", True) not in L[cbs[0]:w[0]]:
                        bad("unwanted restart", "the timer waits again although the callback did not ask for it")
                    elif not any(l[0] == "is" and l[1] == "=1" for l in L[cbs[0]:w[0]]):
                        bad("restart after stop", "the timer waits again although the callback stopped it")
                else:
                    sc = [l[1] for l in L if l[0] == "seqcmp"]
                    wr = [l for l in L if l[0] == "status"]
                    if cbs and ("cbret", True) in L[cbs[0]:] and not any(l[0] == "is" and l[1] == "!1" for l in L[cbs[0]:]) and not any(l == ("hascb", False) for l in L):
                        bad("lost restart", "the callback asked to continue but the timer does not wait again")
                    if wr and not any(v is True for v in sc):
                        bad("restart undone", "the timer is marked stopped without checking whether it was restarted")
                    if any(v is True for v in sc) and not any(l[1] != STARTED for l in wr):
                        bad("still running", "an expiration that does not continue leaves the timer marked running")
                    if not sc:
                        if not any(l == ("hascb", False) for l in L):
                            bad("still running", "an expiration that does not continue leaves the timer marked running")
                    seen_plain += 1
            if not seen_restart or not seen_plain:
                ctx.violation("one-sided handler " + f.qn, f.where(), "the expiration handler %s" % ("never waits again" if not seen_restart else "always waits again"), (), p.tu)
        # ---- stop
        stops = [f for f in ms if f.name == "stop_timer" and f.params and "timer_info" in p.ty(p.decls[f.params[0]]["ty"])["s"]]
        if not stops:
            stops = [f for f in ms if any(x.get("d") is not None and p.decls[x["d"]]["n"] == "cancel" for _, x in f.calls())]
        if not stops:
            raise Broken("no stop function")
        for f in stops:
            for q in trace(p, f, c, label, **opts)[0]:
                ctx.count("stop_paths")
                L = q.labels

                def bad(rule, msg):
                    ctx.violation("%s in %s" % (rule, f.qn), q.where, msg, q.trail[-20:], p.tu)
                running = any(l[0] == "is" and l[1] == "=1" for l in L)
                notrun = any(l[0] == "is" and l[1] == "!1" for l in L)
                ci = q.index("cancel")
                si = next((i for i, l in enumerate(L) if l[0] == "status" and l[1] != STARTED), -1)
                if not notrun:
                    if si < 0:
                        bad("stop mark", "stopping a running timer does not mark it stopped")
                    if ci < 0:
                        bad("stop wait", "stopping a running timer does not cancel its wait")
                    elif si > ci:
                        bad("stop order", "the wait is cancelled before the timer is marked stopped")
                if any(l == ("status", STARTED) for l in L):
                    bad("stop mark", "stopping marks a timer running")
        bulk(ctx, p, c, ms)
        queries(ctx, p, c, ms, label, opts)


def bulk(ctx, p, c, ms):
    def label(ex, st, ev):
        if ev.kind == "branch" and has(ev.cond, lambda t: t[0] == "f" and p.decls[t[2]]["n"] == "id"):
            a, pol = ex.norm(ev.cond)
            return ("ideq", ex.lookup(st, a) if a[0] == "eq" else None)
        if ev.kind == "call" and ev.d is not None:
            if ev.name == "stop_timer":
                return ("stop",)
            if ev.name == "do_something_to_all" or "for_each" in ev.name:
                t = None
                from a01 import resolve
                for a in ev.args:
                    t = resolve(ex, st, ev, a)
                stopref = any(p.decls[q]["n"] == "stop_timer" for q in targets(p, t))
                lamstop = any(p.decls[q].get("n") == "operator()" for q in targets(p, t))
                op = None
                for s in subterms(t):
                    if s and s[0] == "pure" and str(s[1]) in ("operator!=", "operator==") or (s and s[0] in ("obj", "conv") and False):
                        op = s[1]
                    if s and s[0] == "call" and str(s[1]).split("::")[-1] in ("operator!=", "operator=="):
                        op = str(s[1]).split("::")[-1]
                return ("all", stopref or lamstop, op)
        return None
    fs = [f for f in ms if f.name == "stop_all_timer"]
    if len(fs) < 2:
        raise Broken("bulk stop functions not found")
    for f in fs:
        ctx.analysed(f)
        for q in trace(p, f, c, label, calls=("stop_timer", "do_something_to_all"), force=True, opaque=("stop_timer", "do_something_to_all"))[0]:
            ctx.count("bulk_stop_paths")
            al = q.all("all")

            def bad(rule, msg):
                ctx.violation("%s in %s" % (rule, f.qn + ("(except)" if f.params else "")), q.where, msg, q.trail[-20:], p.tu)
            if al:
                if not al[0][1]:
                    bad("bulk stop", "the bulk stop does not stop timers")
                if f.params and al[0][2] == "operator==":
                    bad("bulk stop", "the bulk stop stops the excepted timer only")
                if not f.params and al[0][2]:
                    bad("bulk stop", "the bulk stop spares some timer")
            elif q.has("stop"):
                pass
    # owner destruction
    for m in p.classes[c]["ms"]:
        if p.decls[m].get("dtor") and m in p.fns:
            for q in trace(p, p.fns[m], c, lambda ex, st, ev: ("stopall", len(ev.args)) if ev.kind == "call" and ev.name == "stop_all_timer" else None, calls=("stop_all_timer",), force=True, opaque=("stop_all_timer",))[0]:
                ctx.count("dtor_paths")
                if not any(l == ("stopall", 0) for l in q.labels):
                    ctx.violation("owner destruction", q.where, "destroying the owner does not stop its timers", q.trail, p.tu)


def queries(ctx, p, c, ms, label, opts):
    for f in ms:
        if f.name == "is_timer":
            for q in trace(p, f, c, label, **opts)[0]:
                ctx.count("query_paths")
                v = q.val
                ok = v == T0 or any(l[0] == "is" for l in q.labels) or (v[0] == "bin" and v[1] == "==" and ("c", STARTED) in v)
                if not ok:
                    ctx.violation("running query", q.where, "the running query does not answer whether the timer is marked running", q.trail, p.tu)
        if f.name in ("set_timer", "create_or_update_timer", "start_timer", "stop_timer") and (f.d.get("acc") in (None, 0)):
            pass
        if f.name == "set_timer":
            seen = False
            for q in trace(p, f, c, label, **opts)[0]:
                ctx.count("set_paths")
                if q.has("wait"):
                    seen = True
                elif q.val != T0 and not q.has("hascb", False) and not q.has("startfail"):
                    ctx.violation("set without start", q.where, "setting a timer succeeds without starting it", q.trail[-15:], p.tu)
            if not seen:
                ctx.violation("set never starts", f.where(), "setting a timer never starts it", (), p.tu)
        if f.name == "create_or_update_timer" and len(f.params) >= 4:
            for q in trace(p, f, c, lambda ex, st, ev: (("iv",) if ev.kind == "write" and tf(p, ev.loc, "interval_ms") and has(ev.val, lambda t: t == ("arg", 1)) else (("cb",) if ev.kind in ("call", "write") and ev.kind == "call" and ev.name in ("swap", "operator=") and (fname(p, ev.obj) == "call_back" or any(fname(p, a) == "call_back" for a in ev.args)) else None)), **opts)[0]:
                if q.val == T0:
                    continue
                ctx.count("update_paths")
                if not q.has("iv") or not q.has("cb"):
                    ctx.violation("update incomplete in " + f.qn, q.where, "setting a timer does not store both its interval and its callback", q.trail[-15:], p.tu)


def run(ctx):
    ctx.each(LIB + DEMO, unit)
    ctx.need("timer_classes", 20)
    ctx.need("start_paths", 60)
    ctx.need("handler_paths", 100)
    ctx.need("stop_paths", 20)
    ctx.need("bulk_stop_paths", 20)
