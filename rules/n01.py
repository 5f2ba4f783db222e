RULE = """In every concrete socket: the check reports a dead link only on paths where something had been received before, the link is ready and nothing was received for at least
interval times absence; and it stays silent only where one of those fails. When the application's hook declines, the check answers false and sends nothing; in every other case it
answers true. A heartbeat is sent on exactly those ready paths where nothing was sent for an interval and no sending is under way (always, where so configured), and it hands over what
the packer built unless that is empty. The check's timer repeats with the given interval while the check answers true, with the given limits, and is armed once. Every path of a read
completion that hands bytes to the unpacker records the time of reception, every successful send completion the time of sending, and neither records the other's. Starting a link
records the time first. A default hook either refreshes the time and goes on, or shuts the link down."""
EXPLANATION = """Linear normal form of every time comparison on every path of the check, the completions, the start functions and the hooks of every concrete socket class."""
ASSUMPTIONS = ["time() does not go backwards", "timers fire", "interval times absence does not overflow int"]
from a01 import resolve
from b03 import deep
from f02 import core, strip, wrapped, final, ARM, LOGS
from f03 import Link, binding, stays, lambdas
from lib import *
from witness_units import LIB, UNITS

HOOK, SEND = "on_heartbeat_error", "send_heartbeat"
RECV, SENT = "last_recv_time", "last_send_time"
DOWN = ("close", "force_shutdown", "graceful_shutdown", "shutdown", "disconnect")


def lin(p, t):
    """integer polynomial of a term: monomial (sorted atoms) -> coefficient"""
    t = strip(t) if t[0] in ("v", "rd", "conv") else t
    if t[0] == "c" and isinstance(t[1], int):
        return {(): t[1]} if t[1] else {}
    if t[0] == "conv":
        return lin(p, t[2])
    if t[0] == "un" and t[1] == "-":
        return {m: -k for m, k in lin(p, t[2]).items()}
    if t[0] == "bin" and t[1] in ("+", "-"):
        a, b = lin(p, t[2]), lin(p, t[3])
        r = dict(a)
        for m, k in b.items():
            r[m] = r.get(m, 0) + (k if t[1] == "+" else -k)
        return {m: k for m, k in r.items() if k}
    if t[0] == "bin" and t[1] == "*":
        r = {}
        for m, k in lin(p, t[2]).items():
            for n, l in lin(p, t[3]).items():
                x = tuple(sorted(m + n, key=repr))
                r[x] = r.get(x, 0) + k * l
        return {m: k for m, k in r.items() if k}
    if t[0] == "call" and str(t[1]).split("::")[-1] == "time":
        return {("NOW",): 1}
    if t[0] == "f":
        n = p.decls[t[2]]["n"]
        return {(n if n in (RECV, SENT) else t,): 1}
    if t[0] == "arg":
        return {(t,): 1}
    return {(t,): 1}


def ge0(p, cond, taken):
    """the polynomial that is >= 0 when the branch goes this way"""
    c, v = cond, taken
    while c[0] == "un" and c[1] == "!":
        c, v = c[2], not v
    if c[0] == "conv":
        return ge0(p, c[2], v)
    if c[0] != "bin" or c[1] not in (">", ">=", "<", "<="):
        return None
    o, a, b = c[1], lin(p, c[2]), lin(p, c[3])
    if o in ("<", "<="):
        o, a, b = {"<": ">", "<=": ">="}[o], b, a
    if not v:
        o, a, b = {">": ">=", ">=": ">"}[o], b, a
    r = dict(a)
    for m, k in b.items():
        r[m] = r.get(m, 0) - k
    if o == ">":
        r[()] = r.get((), 0) - 1
    return {m: k for m, k in r.items() if k}


def poly(*ts):
    r = {}
    for k, *m in ts:
        x = tuple(sorted(m, key=repr))
        r[x] = r.get(x, 0) + k
    return {m: k for m, k in r.items() if k}


def negate(d):
    r = {m: -k for m, k in d.items()}
    r[()] = r.get((), 0) - 1
    return {m: k for m, k in r.items() if k}


A0, A1 = ("arg", 0), ("arg", 1)


def test(P, absent):
    """does the known inequality P >= 0 settle the condition absent >= 0"""
    return True if P == absent else False if P == negate(absent) else None


class Sock:
    def __init__(self, p, c):
        self.p, self.c = p, c
        self.root = base_class(p, c, NS + "socket")
        self.fns = [f for f in class_functions(p, c) if not f.qn.startswith(NS + "ext::callbacks")]
        self.sending = getter_field(p, self.root, "is_sending")

    def body(self, name):
        p = self.p
        for b in p.bases(self.c):
            if p.classes[b]["qn"].startswith(NS + "ext::callbacks"):
                continue
            for m in p.classes[b].get("ms", []):
                if p.decls[m]["n"] == name and m in p.fns:
                    return p.fns[m]
        return None


def callname(t):
    return str(t[1]).split("::")[-1] if t[0] in ("call", "pure") else None


def check_paths(S, fn):
    p = S.p

    def label(ex, st, ev):
        n = len(st.rule)
        if ev.kind == "branch":
            P = ge0(p, ev.cond, ev.taken)
            if P is not None and any(a in (RECV, SENT, "NOW") for m in P for a in m):
                return ("CMP", tuple(sorted(P.items(), key=repr)), n)
            c, v = core(ev.cond, ev.taken)
            if callname(c) == "is_ready":
                return ("READY", v, n)
            if callname(c) == HOOK:
                return ("GOON", v, n)
            if c[0] in ("v", "rd", "f") and strip(c)[0] == "f" and p.decls[strip(c)[2]]["n"] == RECV:
                return ("CMP", tuple(sorted((poly((1, RECV), (-1,)) if v else poly((-1, RECV))).items(), key=repr)), n)
            w = c
            if c[0] == "bin" and c[1] in ("==", "!=") and ("c", 1) in (c[2], c[3]):
                w, v = (c[3] if c[2] == ("c", 1) else c[2]), v if c[1] == "==" else not v
            if callname(w) == "load" and has(w, lambda t: t == ("f", ("this",), S.sending)):
                return ("SENDING", v, n)
        elif ev.kind == "call" and ev.d is not None and not ev.inlined:
            if ev.name == HOOK:
                return ("HOOK", ev.line, n)
            if ev.name == SEND:
                return ("SEND", ev.line, n)
    return trace(p, fn, S.c, label, force=True, opaque=(HOOK, SEND, "is_ready") + LOGS, cap=60)[0]


def settle(q, upto, cond):
    r = None
    for l in q.labels[:upto]:
        if l[0] == "CMP":
            t = test(dict(l[1]), cond)
            r = t if t is not None else r
    return r


def last(q, kind, upto=None):
    r = None
    for l in q.labels[:upto]:
        if l[0] == kind:
            r = l[1]
    return r


def check(ctx, S, fn, always):
    p = S.p
    ctx.analysed(fn)
    known, absent, quiet = poly((1, RECV), (-1,)), poly((1, "NOW"), (-1, RECV), (-1, A0, A1)), poly((1, "NOW"), (-1, SENT), (-1, A0))

    def bad(k, q, why, line=None):
        ctx.violation("%s in %s" % (k, fn.qn), fn.where(line) if line else q.where, why, q.trail[-12:], p.tu)
    for q in check_paths(S, fn):
        if q.kind not in ("exit", "void"):
            continue
        ctx.count("check_paths")
        hs = [i for i, l in enumerate(q.labels) if l[0] == "HOOK"]
        ss = [i for i, l in enumerate(q.labels) if l[0] == "SEND"]
        if len(hs) > 1:
            bad("reported twice", q, "a dead link is reported twice by one check")
        go = last(q, "GOON")
        if hs:
            i = hs[0]
            if settle(q, i, known) is not True:
                bad("wrongly reported", q, "a link that never received anything may be reported dead", q.labels[i][1])
            if last(q, "READY", i) is not True:
                bad("not ready reported", q, "a link that is not ready may be reported dead", q.labels[i][1])
            if settle(q, i, absent) is not True:
                bad("wrongly reported", q, "a link is reported dead although something may have been received within interval times absence", q.labels[i][1])
            if go is None and q.val[0] == "c":
                bad("verdict ignored", q, "the application's answer to the report is ignored")
        elif settle(q, None, known) is not False and last(q, "READY") is not False and settle(q, None, absent) is not False:
            bad("dead link kept", q, "the check can pass although the link is ready and nothing was received for interval times absence")
        if q.val == T0 and not (hs and go is False):
            bad("check stops", q, "the check answers false although no dead link was reported or the application wants to go on")
        elif q.kind == "exit" and hs and go is False and q.val != T0:
            bad("check goes on", q, "the check goes on although the application asked it to stop")
        if ss:
            i = ss[0]
            if hs and go is False:
                bad("heartbeat after the end", q, "a heartbeat is sent although the application ended the check", q.labels[i][1])
            if last(q, "READY", i) is not True:
                bad("heartbeat on no link", q, "a heartbeat is sent on a link that is not ready", q.labels[i][1])
            if not always and settle(q, i, quiet) is not True:
                bad("needless heartbeat", q, "a heartbeat is sent although something was sent within the interval", q.labels[i][1])
            if not always and last(q, "SENDING", i) is not False:
                bad("needless heartbeat", q, "a heartbeat is sent although messages are being sent", q.labels[i][1])
            if len(ss) > 1:
                bad("two heartbeats", q, "one check sends two heartbeats")
        elif last(q, "READY") is True and not (hs and go is False) and settle(q, None, known) is not False:
            if always or settle(q, None, quiet) is not False and last(q, "SENDING") is not True:
                bad("no heartbeat", q, "no heartbeat is sent although the link is ready and nothing was sent for the interval")


def starter(ctx, S, fn, checks):
    p = S.p
    ctx.analysed(fn)

    def label(ex, st, ev):
        if ev.kind == "branch":
            c, v = core(ev.cond, ev.taken)
            if callname(c) == "is_timer":
                return ("ON", c[4][0] if c[0] == "call" and len(c) > 4 and c[4] else None, v)
        if ev.kind == "call" and ev.d is not None and not ev.inlined and ev.name in ARM:
            a = [deep(ex, st, x) for x in ev.args]
            return ("ARM", a[0], a[1] if len(a) > 1 else None, next((y for y in reversed(a) if targets(p, y)), None), ev.line)
    n = 0
    for q in trace(p, fn, S.c, label, force=True, opaque=ARM + ("is_timer",) + LOGS)[0]:
        if q.kind not in ("exit", "void"):
            continue
        ctx.count("check_starts")
        arm = [l for l in q.labels if l[0] == "ARM" and l[3] is not None and any(t in checks for t in targets(p, l[3]))]
        if not arm:
            if not any(l[0] == "ON" and l[2] is True for l in q.labels):
                ctx.violation("check not started in %s" % fn.qn, q.where, "the regular check is not started although it does not run yet", q.trail[-10:], p.tu)
            continue
        l = arm[-1]
        per = lin(p, l[2]) if l[2] is not None else None
        if per is not None and per != poly((1000, A0)):
            ctx.violation("period in %s" % fn.qn, fn.where(l[4]), "the check's period is not the interval in milliseconds", q.trail[-10:], p.tu)
        b = binding(l[3])
        if b is not None and [lin(p, deep_strip(x)) for x in b[2][2:4]] != [poly((1, A0)), poly((1, A1))]:
            ctx.violation("limits in %s" % fn.qn, fn.where(l[4]), "the check runs with other limits than those given", q.trail[-10:], p.tu)
        if stays(l[3]) is False:
            ctx.violation("check ends early in %s" % fn.qn, fn.where(l[4]), "the check's timer does not repeat while the check answers true, or repeats after it answered false", q.trail[-10:], p.tu)
        n += 1
    return n


def deep_strip(t):
    return strip(t) if t[0] in ("v", "rd", "conv") else t


def times(S, fn):
    """paths of a function with the recordings of times"""
    p = S.p

    def label(ex, st, ev):
        n = len(st.rule)
        if ev.kind == "write" and isinstance(ev.loc, tuple) and ev.loc[0] == "f" and p.decls[ev.loc[2]]["n"] in (RECV, SENT) and ev.op != "init":
            return ("REC", p.decls[ev.loc[2]]["n"], lin(p, ev.val) == NOW, ev.line, n)
        if ev.kind == "branch":
            e = wrapped(core(ev.cond, ev.taken)[0])
            if e and e[0] in ("arg", "param") and isinstance(e[1], int) and "error_code" in ptype(p, fn, e[1]):
                return ("EC", core(ev.cond, ev.taken)[1], n)
        if ev.kind == "call" and ev.d is not None and not ev.inlined:
            if ev.name in ("parse_msg", "on_recv_error", "on_send_error", "on_unpack_error"):
                return ("DO", ev.name, n)
            if ev.name in DOWN:
                return ("DOWN", n)
            if is_initiation(p, p.decls[ev.d]) or ev.name in ("post_in_io_strand", "dispatch_in_io_strand", "post_strand", "dispatch_strand"):
                return ("LATER", n)
            if ev.name in ARM:
                a = [deep(ex, st, x) for x in ev.args]
                return ("ARM", tuple(sorted({t for x in a for t in targets(p, x)})), a[1] if len(a) > 1 else None, n)
            if ev.name == "start_heartbeat":
                return ("STARTHB", tuple(ev.args), n)
    return trace(p, fn, S.c, label, force=True, fields=(RECV, SENT), cap=80, relevant=(RECV, SENT),
                 calls=lambda p, d: d["n"] in ("parse_msg", "on_recv_error", "on_send_error", "start_heartbeat") + ARM,
                 opaque=lambda p, d: d["n"] in LOGS + ARM + DOWN + ("parse_msg", "on_recv_error", "on_send_error", "handle_msg", "handle_error", "do_send_msg", "do_recv_msg", "recv_msg", "send_msg", "on_msg_send", "on_all_msg_send", "start_heartbeat", "show_info", "endpoint_to_string")
                 and d["id"] != fn.id)[0]


def ptype(p, fn, i):
    ps = p.decls[fn.id].get("ps", [])
    return p.ty(ps[i]["ty"])["s"] if i < len(ps) else ""


NOW = {("NOW",): 1}


def completions(ctx, S, seen):
    p = S.p
    for fn in S.fns:
        ps = p.decls[fn.id].get("ps", [])
        if len(ps) != 2 or "error_code" not in p.ty(ps[0]["ty"])["s"] or fn.id in seen or p.decls[fn.id].get("virt"):
            continue
        called = {p.decls[x["d"]]["n"] for _, x in reach(S, fn)}
        reader, writer = "parse_msg" in called and "on_recv_error" in called, "on_send_error" in called
        if not (reader or writer):
            continue
        seen.add(fn.id)
        ctx.analysed(fn)
        for q in times(S, fn):
            if q.kind not in ("exit", "void"):
                continue
            rec = [l for l in q.labels if l[0] == "REC"]
            parsed = any(l[0] == "DO" and l[1] == "parse_msg" for l in q.labels)
            ok = any(l[0] == "EC" and not l[1] for l in q.labels) and not any(l[0] == "DO" and l[1] == "on_send_error" for l in q.labels)

            def bad(k, why, line=None):
                ctx.violation("%s in %s" % (k, fn.qn), fn.where(line) if line else q.where, why, q.trail[-12:], p.tu)
            for l in rec:
                if not l[2]:
                    bad("wrong time", "the time recorded is not the current time", l[3])
            names = {l[1] for l in rec}
            if reader:
                ctx.count("receptions")
                if parsed and RECV not in names:
                    bad("reception not recorded", "data is received but the time of reception is not refreshed: a live link is taken for dead")
                if not parsed and RECV in names:
                    bad("reception invented", "the time of reception is refreshed although nothing was received: a dead link is kept")
                if SENT in names and not writer:
                    bad("sending invented", "receiving refreshes the time of sending: heartbeats are left out")
            if writer:
                ctx.count("sendings")
                if ok and SENT not in names:
                    bad("sending not recorded", "data is sent but the time of sending is not refreshed")
                if not ok and SENT in names:
                    bad("sending invented", "the time of sending is refreshed although the sending failed")
                if RECV in names and not reader:
                    bad("reception invented", "sending refreshes the time of reception: a dead link is never noticed")


def reach(S, fn, seen=None):
    p = S.p
    seen = set() if seen is None else seen
    if fn.id in seen:
        return
    seen.add(fn.id)
    for i, x in fn.calls():
        if x.get("d") is None:
            continue
        yield i, x
        d = final(p, S.c, x["d"])
        g = p.fns.get(d) or p.fns.get(x["d"])
        if g is not None and not p.decls[d].get("virt") and g.cls is not None and g.name not in ("send_msg", "recv_msg", "do_send_msg", "do_recv_msg"):
            yield from reach(S, g, seen)


def hooks(ctx, S, seen):
    p = S.p
    fn = S.body(HOOK)
    if fn is None or fn.id in seen:
        return
    seen.add(fn.id)
    ctx.analysed(fn)
    for q in times(S, fn):
        if q.kind != "exit":
            continue
        ctx.count("hook_paths")
        rec = any(l[0] == "REC" and l[1] == RECV and l[2] for l in q.labels)
        down = any(l[0] in ("DOWN", "LATER") for l in q.labels)
        if q.val != T0 and not rec and not down:
            ctx.violation("reported without end in %s" % fn.qn, q.where, "the default hook goes on without refreshing the time, so every following check reports the link again", q.trail[-8:], p.tu)
        if q.val == T0 and not down:
            ctx.violation("dead link kept in %s" % fn.qn, q.where, "the default hook ends the checks without shutting the dead link down", q.trail[-8:], p.tu)


def starting(ctx, S, checks, interval, seen):
    p = S.p
    fn = next((p.fns[m] for m in p.classes[S.root].get("ms", []) if p.decls[m]["n"] == "do_start" and m in p.fns), None)
    if fn is None:
        raise Broken("no start hook")
    if fn.id in seen:
        return
    seen.add(fn.id)
    ctx.analysed(fn)
    for q in times(S, fn):
        if q.kind != "exit":
            continue
        ctx.count("starts")
        r = next((i for i, l in enumerate(q.labels) if l[0] == "REC" and l[1] == RECV and l[2]), None)
        a = next((i for i, l in enumerate(q.labels) if l[0] == "ARM" and any(t in checks for t in l[1]) or l[0] == "STARTHB"), None)
        if r is None:
            ctx.violation("start not recorded in %s" % fn.qn, q.where, "a link starts without recording the time, so the first check compares with an earlier life or never applies", q.trail[-8:], p.tu)
        elif a is not None and a < r:
            ctx.violation("checked too early in %s" % fn.qn, q.where, "the check is started before the time is recorded", q.trail[-8:], p.tu)
        if interval > 0:
            ctx.count("configured_starts")
            l = q.labels[a] if a is not None else None
            if l is None:
                ctx.violation("check not configured in %s" % fn.qn, q.where, "heartbeats are configured but starting a link does not start the check", q.trail[-8:], p.tu)
            elif l[0] == "STARTHB" and l[1][:1] != (("c", interval),):
                ctx.violation("interval in %s" % fn.qn, q.where, "the check is started with another interval than the configured one", q.trail[-8:], p.tu)


def heartbeat(ctx, S, seen):
    p = S.p
    fn = S.body(SEND)
    if fn is None or fn.id in seen:
        return
    seen.add(fn.id)
    ctx.analysed(fn)

    def label(ex, st, ev):
        if ev.kind == "call" and ev.d is not None:
            if ev.name == "pack_heartbeat":
                return ("PACK", ev.args[0] if ev.args else None)
            if not ev.inlined and "send" in ev.name and ev.args and p.decls[ev.d]["qn"].startswith(NS):
                return ("SEND", ev.args[0])
        if ev.kind == "branch":
            c, v = core(ev.cond, ev.taken)
            if callname(c) in ("empty", "size"):
                return ("EMPTY", v if callname(c) == "empty" else not v)
            if callname(c) == "pack_heartbeat":
                return ("EMPTY", not v)
    for q in trace(p, fn, S.c, label, force=True, opaque=lambda p, d: "send" in d["n"] and d["id"] != fn.id or d["n"] in LOGS)[0]:
        if q.kind not in ("exit", "void"):
            continue
        ctx.count("heartbeats")
        pk = [l for l in q.labels if l[0] == "PACK"]
        sd = [l for l in q.labels if l[0] == "SEND"]
        if len(pk) != 1:
            ctx.violation("not packed in %s" % fn.qn, q.where, "a heartbeat is not built by the packer exactly once", q.trail[-8:], p.tu)
        elif not sd and not any(l[0] == "EMPTY" and l[1] for l in q.labels):
            ctx.violation("not sent in %s" % fn.qn, q.where, "the heartbeat the packer built is not sent", q.trail[-8:], p.tu)
        elif sd and (len(sd) > 1 or under(sd[0][1]) != under(pk[0][1])):
            ctx.violation("other heartbeat in %s" % fn.qn, q.where, "what is sent is not exactly the heartbeat the packer built", q.trail[-8:], p.tu)


def under(t):
    while isinstance(t, tuple) and t and t[0] in ("v", "rd", "addr", "deref", "conv", "f") and t[0] != "var":
        t = t[2] if t[0] == "conv" else t[1]
    return t


def unit(ctx, p):
    fl = UNITS[p.tu][2] if p.tu in UNITS else []
    always = any(f.startswith("-DST_ASIO_ALWAYS_SEND_HEARTBEAT") for f in fl)
    interval = max([int(f.split("=")[1]) for f in fl if f.startswith("-DST_ASIO_HEARTBEAT_INTERVAL=")] or [0])
    seen = set()
    for c in p.leaf_classes(NS + "socket"):
        S = Sock(p, c)
        ctx.count("socket_classes")
        cand = [f for f in S.fns if f.name != HOOK and any(x.get("d") is not None and p.decls[x["d"]]["n"] == HOOK for _, x in reach(S, f))]
        named = {x for f in S.fns for _, x in f.fnrefs()}
        checks = {f.id for f in cand if f.name == "check_heartbeat" or f.id in named and len(f.params) >= 2 and p.ty(p.decls[f.id]["ty"])["s"].startswith("bool")}
        if not checks:
            raise Broken("no check of dead links in %s" % p.classes[c]["qn"])
        for i in sorted(checks):
            if (i, c) not in seen:
                seen.add((i, c))
                check(ctx, S, p.fns[i], always)
        n = 0
        for f in S.fns:
            if f.id not in checks and any(x in checks for _, x in f.fnrefs()) and any(x.get("d") is not None and p.decls[x["d"]]["n"] in ARM for _, x in f.calls()):
                n += starter(ctx, S, f, checks)
        if not n:
            raise Broken("nothing starts the check of %s" % p.classes[c]["qn"])
        completions(ctx, S, seen)
        hooks(ctx, S, seen)
        heartbeat(ctx, S, seen)
        starting(ctx, S, checks, interval, seen)


def run(ctx):
    ctx.each(LIB, unit)
    ctx.need("socket_classes", 40)
    ctx.need("check_paths", 300)
    ctx.need("check_starts", 80)
    ctx.need("receptions", 60)
    ctx.need("sendings", 60)
    ctx.need("hook_paths", 20)
    ctx.need("heartbeats", 20)
    ctx.need("starts", 20)
    ctx.need("configured_starts", 1)
