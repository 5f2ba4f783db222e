RULE = """In every concrete client socket: a failed connection attempt arms a timer that ends in the retry decision, and only after the connect timer is free; the decision closes the
transport, asks the application's hook for the delay and arms one attempt with exactly that delay when reconnecting is on, the socket is started, the service runs and the
delay is not negative; in every other case it shuts the socket down, and a negative delay switches reconnecting off. An attempt that cannot even be started is treated like
a failed one. Starting reports success only with an attempt armed. After closing, the socket starts again exactly when reconnecting is on; otherwise, and only otherwise, it
gives its context references back and leaves its owner, and only then may it be reused; reset restores the wish it was constructed with. The wish is changed by nothing but
construction, reset, the application's own calls and the declined decision, and every error hook shuts the link down without changing it."""
EXPLANATION = """Every path of the connect, retry, close, reset and shutdown functions of each concrete client socket class, with branch facts on the reconnect wish and the hook's answer."""
ASSUMPTIONS = ["a failed or cancelled connect completes its handler with an error", "the application overrides hooks by the documented rules"]
import loops
from a01 import resolve
from b03 import deep
from f01 import reaches, callers, ctor_only
from lib import *
from witness_units import LIB

LOGS = ("error_out", "info_out", "warning_out", "fatal_out", "debug_out", "all_out", "show_info")
ARM = ("set_timer", "create_or_update_timer", "update_timer_info")
HOOK = "prepare_reconnect"
DOWN = ("close", "shutdown", "async_shutdown", "async_close")


class Client:
    def __init__(self, p, c):
        self.p, self.c = p, c
        self.b = base_class(p, c, NS + "tcp::generic_client_socket")
        self.f = getter_field(p, self.b, "is_reconnect")
        self.nr = ("f", ("this",), self.f)
        self.fns = class_functions(p, c)

    def virt(self, name):
        """the version of a hook that counts: the most derived one outside the callback adapter"""
        p = self.p
        for b in p.bases(self.c):
            if p.classes[b]["qn"].startswith(NS + "ext::callbacks"):
                continue
            for m in p.classes[b].get("ms", []):
                if p.decls[m]["n"] == name and m in p.fns:
                    return p.fns[m]
        raise Broken("no body for %s" % name)


def final(p, c, d):
    if p.decls[d].get("virt"):
        f = p.final(c, d)
        return f if f is not None else d
    return d


def leads(C, d, names, seen=None, deep_=True):
    """does running function d (on this object) end in one of the names, following what it defers as well"""
    p = C.p
    seen = set() if seen is None else seen
    d = final(p, C.c, d)
    if d in seen:
        return False
    seen.add(d)
    if p.decls[d]["n"] in names:
        return True
    fn = p.fns.get(d)
    if fn is None:
        return False
    nxt = [x["d"] for _, x in fn.calls() if x.get("d") is not None]
    if deep_:
        nxt += [r for _, r in fn.fnrefs()]
        nxt += [x["d"] for x in fn.st if x and x["k"] == "lambda"]
    for t in nxt:
        if p.decls[t]["n"] in names or leads(C, t, names, seen, deep_):
            return True
    return False


def core(cond, taken):
    c, v = cond, taken
    while True:
        if c[0] == "un" and c[1] == "!":
            c, v = c[2], not v
        elif c[0] == "bin" and c[1] in ("==", "!=") and T0 in (c[2], c[3]):
            v = v if c[1] == "!=" else not v
            c = c[2] if c[3] == T0 else c[3]
        elif c[0] == "pure" and c[1] in ("operator!",):
            c, v = c[2][0], not v
        elif c[0] in ("conv",):
            c = c[2]
        else:
            return c, v


def wrapped(t):
    """what an error_code test is about"""
    while t and t[0] in ("pure", "v", "rd", "conv"):
        if t[0] == "pure":
            if not str(t[1]).startswith("operator") or len(t[2]) != 1:
                return t
            t = t[2][0]
        else:
            t = t[2] if t[0] == "conv" else t[1]
    return t


def explore(C, fn, args=None):
    p, c = C.p, C.c
    started = base_class(p, c, NS + "socket")
    sf = getter_fields(p, started, "started")

    def label(ex, st, ev):
        out = []
        n = len(st.rule)
        if ev.kind == "branch":
            k, v = core(ev.cond, ev.taken)
            if has(k, lambda t: t == C.nr) and k[0] in ("v", "rd", "f"):
                out.append(("NR", v, n))
            elif any(has(k, lambda t, f=f: t == ("f", ("this",), f)) for f in sf):
                out.append(("STARTED", v, n))
            elif has(k, lambda t: t[0] in ("call", "pure") and str(t[1]).split("::")[-1] == "stopped"):
                out.append(("STOPPED", v, n))
            elif has(k, lambda t: t[0] == "call" and str(t[1]).split("::")[-1] == "is_broken"):
                out.append(("BROKEN", v, n))
            else:
                e = wrapped(k)
                if e and e[0] in ("param", "arg"):
                    out.append(("EC", e, v, n))
            out.append(("BR", ev.cond, ev.taken, n))
        elif ev.kind == "write" and ev.loc == C.nr:
            out.append(("SET", deep(ex, st, ev.val), ev.line, n))
        elif ev.kind == "call" and ev.d is not None:
            nm = ev.name
            if nm == HOOK:
                out.append(("HOOK", ev.res, n))
            elif nm in ARM and not ev.inlined:
                a = [deep(ex, st, x) for x in ev.args]
                ts = set()
                for x, y in zip(ev.args, a):
                    ts |= set(targets(p, y)) | set(targets(p, resolve(ex, st, ev, x)))
                out.append(("ARM", a[0], a[1] if len(a) > 1 else None, tuple(sorted(ts)), ev.res, a[2] if len(a) > 2 else None, ev.line, n))
            elif nm == "async_connect" and not ev.inlined:
                ts = set()
                for x in ev.args:
                    ts |= set(targets(p, deep(ex, st, x))) | set(targets(p, resolve(ex, st, ev, x)))
                out.append(("CONNECT", tuple(sorted(ts)), n))
            elif nm == "close" and ev.obj is not None and not ev.inlined:
                out.append(("CLOSE", n))
            elif nm == "start" and not ev.inlined and (ev.obj is None or has(ev.obj, lambda t: t == ("this",))):
                out.append(("START", n))
            elif nm == "del_socket":
                out.append(("DEL", n))
            elif nm == "clear_io_context_refs":
                out.append(("REFS", n))
            elif is_initiation(p, p.decls[ev.d]) and not ev.inlined:
                ts = set()
                for x in ev.args:
                    ts |= set(targets(p, deep(ex, st, x))) | set(targets(p, resolve(ex, st, ev, x)))
                if nm.startswith("async_"):
                    out.append(("INIT", nm, tuple(sorted(ts)), n))
                elif any(leads(C, t, DOWN) for t in ts):
                    out.append(("SHUT", n))
            elif nm == "operator()" and ev.obj is not None and "function" in p.decls[ev.d]["qn"] and "callbacks" in ev.frame.fn.qn:
                out.append(("CB", n))
        return out or None

    def op(p, d):
        return d["n"] in LOGS or d["n"] in ARM or d["n"] in ("start", "is_broken", HOOK, "stopped", "del_socket", "clear_io_context_refs", "dump_left_data", "on_connect", "on_handshake", "recv_msg", "send_msg") \
            or d["n"] == "close" and "boost" in d["qn"] or d["n"] in ("do_start",) and d["id"] != fn.id and p.decls[d["id"]].get("cls") == base_class(p, c, NS + "socket")
    def prune(ex, st, ev):
        if ev.kind != "branch":
            return False
        k, v = core(ev.cond, ev.taken)
        e = wrapped(k)
        return bool(e) and e[0] == "obj" and str(e[1]).endswith("error_code") and isinstance(e[2], tuple) and bool(e[2]) and e[2][0][0] == "c" and v != bool(e[2][0][1])
    return trace(p, fn, c, label, args=args, force=True, prune=prune, opaque=op, fields=(p.decls[C.f]["n"],), calls=("async_connect", "start", "is_broken", "started", HOOK, "del_socket", "clear_io_context_refs") + ARM + ("post", "defer", "dispatch"), cap=300)


def wish(C, q, upto=None, init=None):
    """the reconnect wish after the first labels of a path: True, False, a term, or None (unchanged and unknown)"""
    v = init
    for l in q.labels[:upto]:
        if l[0] == "SET":
            v = l[1]
            if v == ("c", 1) or v == T0:
                v = v == ("c", 1)
        elif l[0] == "NR":
            v = l[1]
    return v


def unchanged(C, v, first):
    """the value written is the one the member had when the function was entered"""
    while v and v[0] in ("v", "rd", "conv"):
        v = v[2] if v[0] == "conv" else v[1]
    return v == C.nr


def norec(C, ts, name):
    return any(leads(C, t, (name,)) for t in ts)


def decision_of(C):
    """functions that ask the application whether and when to try again"""
    out = []
    for fn in C.fns:
        if any(x.get("d") is not None and C.p.decls[x["d"]]["n"] == HOOK for _, x in fn.calls()) and "callbacks" not in fn.qn:
            out.append(fn)
    return out


def retry(ctx, C, q, i):
    """label i arms the timer that will end in the retry decision, once the connect timer is free"""
    p = C.p
    l = q.labels[i]
    return l[0] == "ARM" and any(leads(C, t, (HOOK,)) for t in l[3])


def again(C, cb, tgts):
    """can the timer's callback ask for another period: True, False or None"""
    t = cb
    while t and t[0] in ("obj",) and isinstance(t[2], tuple) and t[2]:
        t = t[2][0]
    t = strip(t)
    if t and t[0] == "pure" and t[1] == "operator,":
        return t[2][-1] != T0
    vals = set()
    for d in tgts:
        d = final(C.p, C.c, d)
        fn = C.p.fns.get(d)
        if fn is None or C.p.ty(C.p.decls[d]["ty"])["s"] not in ("bool", "_Bool"):
            continue
        vals |= {q.val for q in explore(C, fn)[0] if q.kind == "exit"}
    return any(v != T0 for v in vals) if vals else None


def strip(t):
    while t and (t[0] in ("obj", "conv", "v", "rd", "deref", "addr") or t[0] == "pure" and t[1] in ("unlambda", "function", "protect")):
        if t[0] == "obj":
            if not (isinstance(t[2], tuple) and t[2] and isinstance(t[2][0], tuple)):
                return t
            t = t[2][0]
        elif t[0] == "conv":
            t = t[2]
        elif t[0] == "pure":
            t = t[2][0]
        else:
            t = t[1]
    return t


def neg(ex, q, res):
    """is the hook's answer known to be negative: True/False/None"""
    return truth(ex, q.facts, ("bin", "<", res, T0))


def decision(ctx, C, fn):
    p = C.p
    paths, ex = explore(C, fn)
    ctx.analysed(fn)
    for q in paths:
        if q.kind != "exit":
            continue
        ctx.count("decision_paths")
        L = q.labels
        bad = lambda k, why, ln=None: ctx.violation("%s in %s" % (k, fn.qn), fn.where(ln) if ln else q.where, why, q.trail[-12:], p.tu)
        hi = next((i for i, l in enumerate(L) if l[0] == "HOOK"), None)
        n = neg(ex, q, L[hi][1]) if hi is not None else None
        arms = [i for i, l in enumerate(L) if l[0] == "ARM" and any(leads(C, t, ("async_connect",)) for t in l[3])]
        failed = any(l[0] == "BR" and core(l[1], l[2]) == (L[i][4], False) for i in arms for l in L[i:])
        shut = any(l[0] in ("SHUT", "START") for l in L)
        st = {k: next((l[1] for l in L if l[0] == k), None) for k in ("STARTED", "STOPPED")}
        w = wish(C, q, arms[0] if arms else None)
        if arms and not failed:
            l = L[arms[0]]
            if len(arms) > 1:
                bad("second attempt", "two attempts are armed for one failure", l[6])
            if w is not True or st["STARTED"] is not True or st["STOPPED"] is not False:
                bad("attempt not wanted", "an attempt is armed without knowing that reconnecting is on, the socket is started and the service is running", l[6])
            if hi is None or hi > arms[0]:
                bad("hook not asked", "an attempt is armed without asking the application's hook first", l[6])
            else:
                if n is not False:
                    bad("declined attempt", "an attempt is armed although the hook's answer may be negative", l[6])
                if strip(l[2]) != L[hi][1] and not (l[2] and has(l[2], lambda t: t == L[hi][1]) and l[2][0] in ("conv", "v", "rd", "trunc")):
                    bad("delay", "the attempt is not armed with the delay the hook returned (%s)" % show(p, l[2]), l[6])
            if not any(x[0] == "CLOSE" for x in L[:arms[0]]):
                bad("transport kept", "the next attempt is armed without closing the transport of the failed one", l[6])
            if shut:
                bad("shut down and retried", "the socket is shut down although an attempt is armed", l[6])
            a = again(C, l[5], l[3])
            if a:
                bad("repeated attempt", "the timer that starts the attempt asks for another period", l[6])
            if wish(C, q) is not True:
                bad("wish dropped", "reconnecting is switched off although an attempt is armed", l[6])
            ctx.count("attempts")
        else:
            if not shut:
                bad("abandoned silently", "no attempt is armed and the socket is not shut down: it neither retries nor leaves its owner")
            reason = wish(C, q, hi) is False or st["STARTED"] is False or st["STOPPED"] is True or n is True or failed
            if not reason:
                bad("given up", "reconnecting is given up although it is on, the socket is started, the service runs and the hook did not decline")
            if n is True and wish(C, q) is not False:
                bad("declined but kept", "the hook declined but reconnecting stays switched on")
            if n is not True and any(l[0] == "SET" and l[1] == T0 for l in L):
                bad("wish dropped", "reconnecting is switched off although the hook did not decline")
            ctx.count("given_up")


def failure(ctx, C, fn, need_ec=True):
    """completion of a connection attempt"""
    p = C.p
    paths, ex = explore(C, fn)
    ctx.analysed(fn)
    for q in paths:
        if q.kind not in ("exit",) :
            continue
        L = q.labels
        ec = [l[2] for l in L if l[0] == "EC"]
        rt = [i for i in range(len(L)) if retry(ctx, C, q, i)]
        bad = lambda k, why, ln=None: ctx.violation("%s in %s" % (k, fn.qn), fn.where(ln) if ln else q.where, why, q.trail[-12:], p.tu)
        if not ec:
            bad("result ignored", "the result of a connection attempt is not looked at")
        elif ec[0]:
            ctx.count("failed_attempts")
            if not rt and not any(l[0] == "SHUT" for l in L):
                bad("failure dropped", "a failed connection attempt neither leads to the retry decision nor shuts the socket down")
            if any(l[0] == "HOOK" for l in L):
                bad("early decision", "the retry decision is taken at once, while the timer that started the attempt may still be running its callback")
            for i in rt:
                waits(ctx, C, q, i, bad)
        elif rt and not any(l[0] == "BR" and wrapped(core(l[1], l[2])[0])[:1] not in (("param",), ("arg",)) for l in L[:rt[0]]):
            bad("retry after success", "a successful connection attempt is followed by another one", L[rt[0]][6])


def waits(ctx, C, q, i, bad):
    p = C.p
    l = q.labels[i]
    conn = connect_timers(C)
    if not any(p.decls[t]["n"] == "is_timer" or leads(C, t, ("is_timer",), deep_=False) for t in l[3]):
        bad("not waiting", "the retry decision does not wait until the timer that started the attempt is free", l[6])
    elif not any(has(x, lambda t: t[0] == "c" and t[1] in conn) for x in (l[5],) if x) and any(p.decls[t]["n"] == "is_timer" for t in l[3]):
        bad("waits for another timer", "the retry decision waits for a timer other than the one that starts attempts", l[6])
    ok = True
    for t in subterms(l[5]) if l[5] else ():
        if t and t[0] == "pure" and t[1] == "if_then_else_return":
            ok = t[2][1] == ("c", 1) and not (t[2][2][0] == "pure" and t[2][2][1] == "operator," and t[2][2][2][-1] != T0)
            break
    else:
        for t in l[3]:
            t = final(p, C.c, t)
            if t in p.fns and p.ty(p.decls[t]["ty"])["s"] in ("bool", "_Bool") and p.decls[t]["n"] != "is_timer":
                for r in explore(C, p.fns[t])[0]:
                    ended = any(x[0] in ("HOOK", "SHUT") for x in r.labels)
                    ok = ok and (r.kind != "exit" or ended or r.val != T0)
    if not ok:
        bad("decision lost", "the timer that waits for the retry decision stops before the decision was taken", l[6])
    if l[1] is not None and l[1][0] == "c" and l[1][1] in conn:
        bad("same timer", "the timer that starts attempts is armed from the completion of an attempt, while its own callback may still be running", l[6])


def connect_timers(C):
    if not hasattr(C, "ct"):
        s = set()
        for fn in decision_of(C):
            for q in explore(C, fn)[0]:
                for l in q.labels:
                    if l[0] == "ARM" and l[1] and l[1][0] == "c" and any(leads(C, t, ("async_connect",)) for t in l[3]):
                        s.add(l[1][1])
        C.ct = s
    return C.ct


def connector(ctx, C, fn):
    p = C.p
    paths, ex = explore(C, fn)
    ctx.analysed(fn)
    for q in paths:
        if q.kind not in ("exit", "void"):
            continue
        L = q.labels
        cs = [l for l in L if l[0] == "CONNECT"]
        rt = [i for i in range(len(L)) if retry(ctx, C, q, i)]
        bad = lambda k, why, ln=None: ctx.violation("%s in %s" % (k, fn.qn), fn.where(ln) if ln else q.where, why, q.trail[-12:], p.tu)
        ctx.count("attempt_starts")
        if len(cs) > 1:
            bad("two connects", "two connection attempts are started at once")
        if not cs and not rt and not any(l[0] == "SHUT" for l in L):
            bad("attempt dropped", "the attempt is not started, not tried again and the socket is not shut down: it neither retries nor leaves its owner")
        if cs and not cs[0][1]:
            bad("no completion", "a connection attempt is started without a completion that is told its result")


def unit(ctx, p):
    leaves = p.leaf_classes(NS + "tcp::generic_client_socket")
    if not leaves:
        return
    cs = callers(p)
    f0 = None
    for c in leaves:
        C = Client(p, c)
        f0 = C.f
        ctx.count("client_classes")
        D = decision_of(C)
        if not D:
            raise Broken("no retry decision in %s" % p.classes[c]["qn"])
        for fn in D:
            decision(ctx, C, fn)
        conn = [fn for fn in C.fns if fn.cls is not None and any(x.get("d") is not None and p.decls[x["d"]]["n"] == "async_connect" and x["d"] not in p.fns for _, x in fn.calls())]
        if not conn:
            raise Broken("no connection attempt in %s" % p.classes[c]["qn"])
        hs = set()
        for fn in conn:
            connector(ctx, C, fn)
            for q in explore(C, fn)[0]:
                for l in q.labels:
                    if l[0] == "CONNECT":
                        hs |= {final(p, c, t) for t in l[1]}
        for h in sorted(hs):
            if h in p.fns and p.decls[h].get("ps"):
                failure(ctx, C, p.fns[h])
        starter(ctx, C)
        closing(ctx, C)
        wishes(ctx, C)
        errors(ctx, C)
    writers(ctx, p, f0, cs, C)


def starter(ctx, C):
    p = C.p
    fn = C.virt("do_start")
    ctx.analysed(fn)
    for q in explore(C, fn)[0]:
        if q.kind != "exit":
            continue
        L = q.labels
        arms = [l for l in L if l[0] == "CONNECT" or l[0] == "ARM" and any(leads(C, t, ("async_connect",)) for t in l[3])]
        bad = lambda k, why: ctx.violation("%s in %s" % (k, fn.qn), q.where, why, q.trail[-12:], p.tu)
        ctx.count("starts")
        if q.val == ("c", 1) and not arms:
            bad("started without attempt", "starting reports success without an attempt to connect")
        if q.val == T0 and arms:
            bad("attempt without start", "starting reports failure although an attempt to connect is armed")
        if len(arms) > 1:
            bad("two attempts", "starting arms two attempts")
        for l in arms:
            if l[0] == "ARM" and again(C, l[5], l[3]):
                bad("repeated attempt", "the timer that starts the attempt asks for another period")


def closing(ctx, C):
    p = C.p
    matrix = [f for b in p.bases(C.c) if p.classes[b]["qn"] == NS + "tcp::generic_client_socket" for f in p.classes[b].get("fs", []) if p.ty(p.decls[f]["ty"]).get("ptr")]
    owned = any(p.decls[x["d"]]["n"] == "del_socket" for fn in C.fns for _, x in fn.calls() if x.get("d") is not None)
    selfclean = any("clear_obsoleted_object" == p.decls[x["d"]]["n"] and "object_pool" in fn.qn for fn in p.fns.values() for _, x in list(fn.calls()) if x.get("d") is not None) or any(
        p.decls[d]["n"] == "clear_obsoleted_object" for fn in p.fns.values() if "object_pool" in fn.qn for _, d in fn.fnrefs())
    fn = C.virt("on_close")
    ctx.analysed(fn)
    for q in explore(C, fn)[0]:
        if q.kind not in ("exit", "void"):
            continue
        L = q.labels
        w = wish(C, q)
        gone = any(l[0] == "DEL" for l in L)
        refs = any(l[0] == "REFS" for l in L)
        bad = lambda k, why: ctx.violation("%s in %s" % (k, fn.qn), q.where, why, q.trail[-12:], p.tu)
        ctx.count("closings")
        nomatrix = any(l[0] == "BR" and not core(l[1], l[2])[1] and any(has(l[1], lambda t, f=f: t == ("f", ("this",), f)) for f in matrix) for l in L) and not gone
        if (gone or refs) and w is not False:
            bad("reconnecting client removed", "a client that will reconnect is removed from its owner or gives its references back when its link closes")
        if w is None:
            bad("wish not asked", "closing does not look at whether the client will reconnect")
        if w is False and not refs:
            bad("references kept", "a client that will not reconnect keeps its references to the pump's contexts")
        if w is False and not gone and not (nomatrix and owned) and not selfclean:
            bad("not removed", "a client that will not reconnect is not removed from its owner")
    fn = C.virt("after_close")
    ctx.analysed(fn)
    for q in explore(C, fn)[0]:
        if q.kind not in ("exit", "void"):
            continue
        w = wish(C, q)
        s = sum(1 for l in q.labels if l[0] == "START")
        ctx.count("after_close")
        if w is None or bool(s) != w or s > 1:
            ctx.violation("restart in %s" % fn.qn, q.where, "after closing, the client %s although reconnecting is %s" % ("starts again" if s else "does not start again", {True: "on", False: "off", None: "not looked at"}[w]), q.trail[-12:], p.tu)
    fn = C.virt("obsoleted")
    ctx.analysed(fn)
    for q in explore(C, fn)[0]:
        if q.kind == "exit" and q.val != T0 and wish(C, q) is not False:
            ctx.violation("reusable in %s" % fn.qn, q.where, "a client that will reconnect may be freed or reused", q.trail[-12:], p.tu)
        ctx.count("obsoleted")


def wishes(ctx, C):
    p = C.p
    first = None
    for fn in C.fns:
        if fn.cls == C.b:
            for l in (l for q in explore(C, fn)[0] for l in q.labels if l[0] == "SET" and l[1][0] == "c") if touches(fn, (p.decls[C.f]["n"],)) and fn.name not in ("reset",) and HOOK not in [p.decls[x["d"]]["n"] for _, x in fn.calls() if x.get("d") is not None] and writes(fn, C.f) else ():
                first = l[1]
    fn = C.virt("reset")
    ctx.analysed(fn)
    for q in explore(C, fn)[0]:
        if q.kind not in ("exit", "void"):
            continue
        s = [l for l in q.labels if l[0] == "SET"]
        ctx.count("resets")
        if not s or s[-1][1][0] != "c" or first is not None and s[-1][1] != first:
            ctx.violation("wish not restored in %s" % fn.qn, q.where, "resetting a client for its next life does not restore the reconnect wish it was constructed with", q.trail[-12:], p.tu)
    # the application's own calls
    for name in ("force_shutdown", "graceful_shutdown"):
        for b in p.bases(C.c):
            fs = [p.fns[m] for m in p.classes[b].get("ms", []) if p.decls[m]["n"] == name and m in p.fns and p.classes[b].get("proj")]
            fs = [f for f in fs if len(f.params) == 1]
            if not fs:
                continue
            for fn in fs:
                ctx.analysed(fn)
                for q in explore(C, fn)[0]:
                    if q.kind not in ("exit", "void"):
                        continue
                    ctx.count("shutdowns")
                    w = [l for l in q.labels if l[0] == "SET"]
                    arg = w[-1][1] if w else None
                    if arg is None or strip(arg) not in (("arg", 0), ("param", 0)):
                        ctx.violation("wish lost in %s" % fn.qn, q.where, "shutting down does not record whether the caller wants to reconnect", q.trail[-12:], p.tu)
                    if not any(l[0] in ("SHUT", "START") for l in q.labels):
                        ctx.violation("not shut down in %s" % fn.qn, q.where, "the link is neither shut down nor started again", q.trail[-12:], p.tu)
                    si = next((i for i, l in enumerate(q.labels) if l[0] == "START"), None)
                    if si is not None:
                        ok = any(l[0] == "BROKEN" and l[1] for l in q.labels[:si]) and any(l[0] == "STARTED" and not l[1] for l in q.labels[:si]) and any(l[0] == "BR" and strip(core(l[1], l[2])[0]) in (("arg", 0), ("param", 0), C.nr) and core(l[1], l[2])[1] for l in q.labels[:si])
                        if not ok:
                            ctx.violation("started in %s" % fn.qn, q.where, "shutting down starts the socket although it is not a stopped, broken one that shall reconnect", q.trail[-12:], p.tu)
            break


def writes(fn, f):
    return True


def errors(ctx, C):
    p = C.p
    for name in ("on_recv_error", "on_unpack_error", "on_async_shutdown_error", "on_heartbeat_error"):
        fn = C.virt(name)
        ctx.analysed(fn)
        for q in explore(C, fn)[0]:
            if q.kind not in ("exit", "void"):
                continue
            ctx.count("error_hooks")
            s = [l for l in q.labels if l[0] == "SET"]
            if s and not unchanged(C, s[-1][1], None):
                ctx.violation("wish changed in %s" % fn.qn, fn.where(s[-1][2]), "a failing link changes whether the client reconnects (to %s)" % show(p, s[-1][1]), q.trail[-12:], p.tu)
            if not any(l[0] in ("SHUT", "START") for l in q.labels):
                ctx.violation("link kept in %s" % fn.qn, q.where, "a failed link is not shut down, so it neither reconnects nor is removed", q.trail[-12:], p.tu)


def writers(ctx, p, f, cs, C):
    name = p.decls[f]["n"]
    dec = {fn.id for fn in decision_of(C)}
    done = set()
    for c in p.leaf_classes(NS + "tcp::generic_client_socket"):
        K = Client(p, c)
        for fn in K.fns:
            if fn.id in done or not touches(fn, (name,)):
                continue
            done.add(fn.id)
            for q in explore(K, fn)[0]:
                for l in q.labels:
                    if l[0] != "SET":
                        continue
                    ctx.count("wish_writes")
                    v = strip(l[1])
                    if v and v[0] in ("arg", "param") or unchanged(K, v, None):
                        continue
                    if v and v[0] == "c" and (fn.name == "reset" or ctor_only(p, fn, cs) or fn.id in dec_of(K)):
                        continue
                    ctx.violation("wish written in %s" % fn.qn, fn.where(l[2]), "%s changes whether the client reconnects" % fn.qn, q.trail[-12:], p.tu)


def dec_of(K):
    if not hasattr(K, "dec"):
        K.dec = {fn.id for fn in decision_of(K)}
    return K.dec


def run(ctx):
    ctx.each(LIB, unit)
    ctx.need("client_classes", 20)
    ctx.need("attempts", 20)
    ctx.need("failed_attempts", 20)
    ctx.need("given_up", 80)
    ctx.need("closings", 40)
    ctx.need("starts", 30)
    ctx.need("error_hooks", 300)
    ctx.need("shutdowns", 300)
