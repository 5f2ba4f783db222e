RULE = """From the moment the transport is connected or accepted, every path of the chain of completion handlers that leads to a link ends in exactly one of: the next step of the
negotiation, the connected state, or a shutdown, removal or retry. The connected state is entered, the application told, and reading and sending begun only on paths where every
completion looked at its error code and found none, and after every handshake the socket's own stream type requires has completed, TLS before WebSocket. A failed step never leads
on. While a negotiation runs the state is not 'connected'. The state becomes 'connected' and the start hook of a base class is called nowhere else; a link counts as connected only
in that state, and closing leaves it. The server's removal of a socket shuts it down."""
EXPLANATION = """The handler chain of each concrete TCP, TLS, WebSocket and proxy socket class, followed from the completion of connect (clients) or from the start hook (servers) through every
asynchronous negotiation step, with the possible link states and the error facts of each path."""
ASSUMPTIONS = ["the TLS and WebSocket streams complete a handshake without error only when it succeeded", "ERR_get_error() is not 0 after an OpenSSL call failed", "a proxy's replies are judged by M01"]
from a01 import resolve
from b03 import deep
from f02 import core, strip, wrapped, final, leads, ARM, LOGS
from f03 import Link, possible, state_test, forced, names, nearest, lambdas
from lib import *
from witness_units import LIB

HOOK = "prepare_reconnect"


def required(L):
    """handshakes the stream type of this socket asks for, in order"""
    p = L.p
    b = base_class(p, L.c, NS + "socket")
    ty = " ".join(p.ty(p.decls[f]["ty"])["s"] for f in p.classes[b].get("fs", []) if "layer" in p.decls[f]["n"] or "stream" in p.ty(p.decls[f]["ty"])["s"])
    r = []
    if "ssl::stream" in ty or "ssl_stream" in ty:
        r.append("TLS")
    if "websocket::stream" in ty:
        r.append("WebSocket")
    return tuple(r)


def kind_of(p, d):
    D = p.decls[d]
    q = D["qn"]
    if D["n"] == "async_handshake" and "ssl" in q:
        return "TLS"
    if D["n"] in ("async_handshake", "async_accept") and "websocket" in q:
        return "WebSocket"
    return None


def explore(L, fn):
    k = ("l01", fn.id)
    if k in L._ex:
        return L._ex[k]
    p, c = L.p, L.c
    root = base_class(p, c, NS + "socket")

    def label(ex, st, ev):
        out = []
        n = len(st.rule)
        if ev.kind == "branch":
            t = state_test(L, ev.cond, ev.taken)
            if t is not None:
                out.append(("IS", t[0], t[1], n))
            else:
                co, v = core(ev.cond, ev.taken)
                e = wrapped(co)
                if e and e[0] in ("param", "arg") and has(co, lambda t: t[0] in ("param", "arg")) and "error_code" in arg_type(p, fn, e):
                    out.append(("EC", v, n))
        elif ev.kind == "write" and ev.loc == L.st:
            out.append(("SET", ev.val[1] if ev.val[0] == "c" else None, ev.line, n))
        elif ev.kind == "call" and ev.d is not None:
            nm = ev.name
            D = p.decls[ev.d]
            if nm == "on_connect" and not ev.inlined:
                out.append(("TOLD", ev.line, n))
            elif nm == "do_start" and D.get("cls") == root:
                out.append(("BEGIN", ev.line, n))
            elif ev.inlined:
                return None
            elif nm in ("recv_msg", "send_msg") and D["qn"].startswith(NS):
                out.append(("BEGIN", ev.line, n))
            elif nm in ARM:
                ts = set()
                for x in ev.args:
                    ts |= set(targets(p, deep(ex, st, x))) | set(targets(p, resolve(ex, st, ev, x)))
                if any(leads(L, t, (HOOK,)) for t in ts):
                    out.append(("RETRY", n))
            elif nm == "close" and D["qn"].startswith(NS):
                out.append(("CLOSE", n))
            elif nm == "start" and D["qn"].startswith(NS):
                out.append(("RETRY", n))
            elif nm == "del_socket":
                out.append(("DEL", n))
            elif is_initiation(p, D) or nm.startswith("async_") and "boost" in D["qn"]:
                ts = set()
                for x in ev.args:
                    ts |= set(targets(p, deep(ex, st, x))) | set(targets(p, resolve(ex, st, ev, x)))
                if nm.startswith("async_"):
                    out.append(("INIT", nm, tuple(sorted(ts)), kind_of(p, ev.d), ev.line, n))
                else:
                    out.append(("DEFER", tuple(sorted(ts)), n))
        return out or None

    def op(p, d):
        return d["n"] in LOGS or d["n"] in ARM or d["n"] in ("stop_timer", "change_timer_call_back", "dump_left_data", "on_connect", "on_handshake", "recv_msg", "send_msg", "start_heartbeat", "endpoint_to_string", "start", "close", "del_socket") \
            or d["n"] == "do_start" and d.get("cls") == root and d["id"] != fn.id

    def prune(ex, st, ev):
        if ev.kind != "branch":
            return False
        k, v = core(ev.cond, ev.taken)
        e = wrapped(k)
        if not (e and e[0] == "obj" and str(e[1]).endswith("error_code") and isinstance(e[2], tuple) and e[2]):
            return False
        if has(e[2][0], lambda t: t[0] in ("call", "pure") and "ERR_get_error" in str(t[1])):  # made from the error just reported
            return v is False
        return e[2][0][0] == "c" and v != bool(e[2][0][1])
    L._ex[k] = trace(p, fn, c, label, force=True, opaque=op, prune=prune, relevant=(p.decls[L.f]["n"],), fields=(p.decls[L.f]["n"],),
                     calls=lambda p, d: d["n"] in ARM + ("close", "on_connect", "do_start", "del_socket", "recv_msg", "send_msg") or d["n"].startswith("async_") or is_initiation(p, d), cap=300)
    return L._ex[k]


def arg_type(p, fn, e):
    ps = p.decls[fn.id].get("ps", [])
    return p.ty(ps[e[1]]["ty"])["s"] if isinstance(e[1], int) and e[1] < len(ps) else ""


def ends(L, q):
    """the outcomes of a path"""
    out = []
    for l in q.labels:
        if l[0] in ("CLOSE", "RETRY", "DEL"):
            out.append("over")
        elif l[0] == "DEFER" and any(forced(L, t, None) for t in l[1]):
            out.append("over")
        elif l[0] == "INIT":
            out.append("step")
        elif l[0] == "SET" and l[1] == L.CONN:
            out.append("connected")
    return out


def walk(ctx, L, fn, acc, kind, is_handler, need, bad, seen, start):
    """start: the states the link may be in when fn begins"""
    p = L.p
    if (fn.id, acc, start) in seen:
        return
    seen.add((fn.id, acc, start))
    ctx.analysed(fn)
    for q in explore(L, fn)[0]:
        if q.kind not in ("exit", "void"):
            continue
        if impossible(L, q, start):
            continue
        ctx.count("negotiation_paths")
        ec = next((l[1] for l in q.labels if l[0] == "EC"), None) if is_handler else False
        got = acc + ((kind,) if kind and ec is False else ())
        e = ends(L, q)
        ci = next((i for i, l in enumerate(q.labels) if l[0] == "SET" and l[1] == L.CONN), None)
        if "connected" in e:
            ctx.count("links_established")
            if ec is None:
                bad("result ignored", fn, q, "the link becomes connected without looking at whether the step before it succeeded")
            elif ec:
                bad("connected after failure", fn, q, "the link becomes connected although the step before it failed")
            elif tuple(k for k in got if k in need) != need:
                bad("connected too early", fn, q, "the link becomes connected without a completed %s handshake" % " and ".join(k for k in need if k not in got) if any(k not in got for k in need) else "the handshakes are done in the wrong order")
        elif "step" in e and ec is not False:
            bad("goes on after failure" if ec else "result ignored", fn, q, "the negotiation goes on %s" % ("although a step failed" if ec else "without looking at whether a step succeeded"))
        if not e:
            bad("half open", fn, q, "a step of the negotiation ends without a next step, the connected state, a shutdown or a retry: the link stays half open")
        elif "over" in e and ("connected" in e or "step" in e):
            bad("closed and used", fn, q, "the link is shut down and used further on the same path")
        elif e.count("step") + e.count("connected") > 1:
            bad("two steps", fn, q, "one step of the negotiation starts two further ones")
        for i, l in enumerate(q.labels):
            if l[0] == "TOLD" and (ci is None or i < ci):
                bad("told too early", fn, q, "the application is told of the link before it is in the connected state", l[1])
            if l[0] == "BEGIN" and (ci is None or i < ci):
                bad("begun too early", fn, q, "reading, sending or heartbeats begin before the link is in the connected state", l[1])
            if l[0] == "INIT":
                s = possible(L, q, i, start)
                if L.CONN in s:
                    bad("negotiating while connected", fn, q, "a negotiation step starts while the link may already count as connected", l[4])
                ts = [final(p, L.c, t) for t in l[2]]
                hs = [t for t in ts if t in p.fns and any("error_code" in p.ty(x["ty"])["s"] for x in p.decls[t].get("ps", []))]
                if not hs:
                    bad("no completion", fn, q, "a negotiation step is started without a completion that is told its result", l[4])
                for h in hs:
                    if l[1] == "async_connect":
                        continue
                    walk(ctx, L, p.fns[h], got, l[3], True, need, bad, seen, frozenset(s | {L.FORCE, L.GRACE, L.BROKEN}))
        if "connected" in e:
            if sum(1 for l in q.labels if l[0] == "TOLD") != 1:
                bad("not told", fn, q, "the application is not told exactly once that the link is connected")
            if not any(l[0] == "BEGIN" for l in q.labels):
                bad("not begun", fn, q, "the link is connected but neither reading nor sending begins")


def impossible(L, q, start):
    return any(not possible(L, q, i + 1, start) for i, l in enumerate(q.labels) if l[0] == "IS")


def unit(ctx, p):
    leaves = p.leaf_classes(NS + "tcp::socket_base")
    for c in leaves:
        L = Link(p, c)
        need = required(L)
        ctx.count("link_classes")
        if need:
            ctx.count("secured_classes")
        reported = set()

        def bad(k, fn, q, why, line=None):
            ctx.violation("%s in %s" % (k, fn.qn), fn.where(line) if line else q.where, why, q.trail[-12:], p.tu)
        client = c in p.leaf_classes(NS + "tcp::generic_client_socket")
        seen = set()
        if client:
            hs = set()
            for fn in L.fns:
                if any(x.get("d") is not None and p.decls[x["d"]]["n"] == "async_connect" and x["d"] not in p.fns for _, x in fn.calls()):
                    for q in explore(L, fn)[0]:
                        for l in q.labels:
                            if l[0] == "INIT" and l[1] == "async_connect":
                                hs |= {final(p, c, t) for t in l[2]}
            hs = [h for h in hs if h in p.fns and p.decls[h].get("ps")]
            if not hs:
                raise Broken("no completion of connect in %s" % p.classes[c]["qn"])
            for h in hs:
                walk(ctx, L, p.fns[h], (), None, True, need, bad, seen, L.all - {L.CONN})
        else:
            walk(ctx, L, L.virt("do_start"), (), None, False, need, bad, seen, L.all)
        chain = {k[0] for k in seen}
        entries(ctx, L, chain, bad, client)
        state(ctx, L, bad)
    removal(ctx, p)


def entries(ctx, L, chain, bad, client):
    """nothing outside the chain enters the connected state or calls the start hook of a base class"""
    p = L.p
    named = {final(p, L.c, x) for f in L.fns for _, x in f.fnrefs()}
    hooks = {fn.id for fn in L.fns if fn.name == "do_start"}
    root = base_class(p, L.c, NS + "socket")
    lam = {f.id for fn in L.fns for f in lambdas(p, fn)}
    for fn in L.fns + [p.fns[i] for i in lam]:
        if fn.id in chain or fn.id in hooks:
            continue
        calls = [(x, p.decls[x["d"]]) for _, x in fn.calls() if x.get("d") is not None]
        direct = any(x and x["k"] in ("asg", "bin") for x in fn.st) and any(l[0] == "SET" and l[1] == L.CONN for q in (explore(L, fn)[0] if touches(fn, (p.decls[L.f]["n"],)) else ()) for l in q.labels)
        if direct and fn.cls is not None and fn.id not in helpers(L, chain | hooks):
            ctx.violation("connected elsewhere in %s" % fn.qn, fn.where(), "the link becomes connected outside the chain of its negotiation", (), p.tu)
        for x, D in calls:
            if x["d"] in hooks and not (fn.cls == root):
                if fn.id not in helpers(L, chain | hooks):
                    ctx.violation("started elsewhere in %s" % fn.qn, fn.where(x.get("l")), "a start hook is called outside the chain of the negotiation", (), p.tu)
        ctx.count("other_functions")


def helpers(L, ids):
    """functions only called (synchronously) from the chain, hence inlined and judged there"""
    p = L.p
    if not hasattr(L, "_help"):
        inv = {}
        named = {x for f in L.fns for _, x in f.fnrefs()}
        for f in L.fns + L.lam:
            for _, x in f.calls():
                if x.get("d") is not None:
                    inv.setdefault(x["d"], set()).add(f.id)
                    d = final(p, L.c, x["d"])
                    inv.setdefault(d, set()).add(f.id)
        ok, ch = set(ids), True
        while ch:
            ch = False
            for f in L.fns:
                if f.id not in ok and f.id not in named and inv.get(f.id) and inv[f.id] <= ok:
                    ok.add(f.id)
                    ch = True
            # overridden versions of a handler in the chain
            for f in L.fns:
                if f.id not in ok and p.decls[f.id].get("virt") and final(p, L.c, f.id) in ok:
                    ok.add(f.id)
                    ch = True
        L._help = ok
    return L._help


def state(ctx, L, bad):
    p = L.p
    for name in ("is_ready", "is_connected"):
        fn = L.virt(name)
        ctx.analysed(fn)
        for q in explore(L, fn)[0]:
            if q.kind != "exit":
                continue
            ctx.count("state_queries")
            s = possible(L, q)
            t = state_test(L, q.val, True) if q.val[0] != "c" else None
            if t is not None:
                s = s & {t[0]} if t[1] else s - {t[0]}
            if q.val != T0 and not s <= {L.CONN}:
                bad("%s wrong" % name, fn, q, "a link that is %s counts as %s" % (names(L, s - {L.CONN}), "ready" if name == "is_ready" else "connected"))
    fn = L.virt("on_close")
    ctx.analysed(fn)
    for q in explore(L, fn)[0]:
        if q.kind in ("exit", "void"):
            ctx.count("closings")
            if not possible(L, q) <= {L.BROKEN}:
                bad("closed but not broken", fn, q, "after closing, the link's state may still be %s" % names(L, possible(L, q) - {L.BROKEN}))


def removal(ctx, p):
    for c in p.leaf_classes(NS + "tcp::generic_server"):
        for fn in class_functions(p, c):
            if fn.name != "del_socket" or not fn.params or "shared_ptr" not in p.ty(p.decls[fn.id]["ps"][0]["ty"])["s"]:
                continue
            ctx.analysed(fn)

            def label(ex, st, ev):
                if ev.kind == "call" and ev.name in ("force_shutdown", "graceful_shutdown"):
                    return ("SHUT",)
                if ev.kind == "branch":
                    k, v = core(ev.cond, ev.taken)
                    return ("BR", k, v, len(st.rule))
                if ev.kind == "call" and ev.name == "del_object":
                    return ("DEL",)
            for q in trace(p, fn, c, label, force=True, opaque=("force_shutdown", "graceful_shutdown", "del_object", "error_out"))[0]:
                if q.kind not in ("exit", "void"):
                    continue
                ctx.count("removals")
                null = any(l[0] == "BR" and not l[2] and not has(l[1], lambda t: t[0] == "call" and "del_object" in str(t[1])) for l in q.labels)
                if not any(l[0] == "SHUT" for l in q.labels) and not null:
                    ctx.violation("removed but open in %s" % fn.qn, q.where, "a socket is removed from its server without being shut down, so a failed handshake leaves the link open", q.trail[-10:], p.tu)


def run(ctx):
    ctx.each(LIB, unit)
    ctx.need("link_classes", 30)
    ctx.need("secured_classes", 6)
    ctx.need("links_established", 40)
    ctx.need("negotiation_paths", 150)
    ctx.need("state_queries", 60)
    ctx.need("removals", 10)
