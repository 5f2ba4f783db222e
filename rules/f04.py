RULE = """Resetting a socket, on every path that returns: empties the send and receive buffers and every message being sent or dispatched, drops the flags of sending, reading, dispatching,
idleness, synchronous receiving and obsolescence, takes the link state and the connection flags back to what the constructor gives them, resets every field of the statistics, the
packer and the unpacker, and stops every timer. It refuses (throws) while the timer of a delayed close runs. A socket whose stream carries TLS replaces the stream, and so does such a
client whenever it closed, because it connects again without being reset; a reliable socket releases its protocol control block when it closes. An unpacker's reset restores every field
that its parsing functions change. A proxy client sets its protocol step and reply length before every first request."""
EXPLANATION = """Write sets of every path of the final reset() and on_close() of each concrete socket class against the fields of its bases, and of each concrete unpacker's reset() against the fields
its interface functions write."""
ASSUMPTIONS = ["settings made by the application's own setters are kept on purpose", "a plain WebSocket stream resets itself when it handshakes again"]
from f02 import core, ARM
from f03 import Link
from l01 import required
from lib import *
from witness_units import LIB

CLEARING = ("clear", "reset", "store", "swap", "operator=", "assign", "exchange", "fetch_and", "clear_buffer", "release", "resize")
REQ = ("obsoleted_", "dispatching", "recv_idle_began", "sending", "reading", "sr_status", "send_buffer", "recv_buffer", "packer_", "unpacker_", "need_reconnect",
       "is_bound", "is_connected", "sending_msgs", "sending_msg", "dispatching_msg", "stat", "status")
ROLES = {"is_dispatching": "dispatching", "is_recv_idle": "recv_idle_began", "is_sending": "sending", "is_reading": "reading", "is_broken": "status", "get_statistic": "stat",
         "is_reconnect": "need_reconnect", "connected": "is_connected"}


def locfields(loc):
    """fields under this, outermost first; None when the location is not below this"""
    out = []
    while isinstance(loc, tuple) and loc:
        if loc == ("this",):
            return tuple(reversed(out))
        if loc[0] == "f":
            out.append(loc[2])
            loc = loc[1]
        elif loc[0] in ("idx", "deref", "v", "rd", "addr"):
            loc = loc[1]
        elif loc[0] == "call" and len(loc) > 3 and loc[3]:
            loc = loc[3]
        else:
            return None
    return None


def under_this(term):
    for t in subterms(term):
        if isinstance(t, tuple) and len(t) == 3 and t[0] == "f" and t[1] == ("this",):
            return t[2]
    return None


def events(p, c, fn, names=()):
    def label(ex, st, ev):
        if ev.kind == "write":
            l = locfields(ev.loc)
            if l:
                return ("W", l, ev.val[1] if ev.val[0] == "c" else None)
        elif ev.kind == "branch":
            k, v = core(ev.cond, ev.taken)
            if k[0] == "call" and str(k[1]).split("::")[-1] == "is_timer":
                return ("TIMER", k[4][0] if len(k) > 4 and k[4] else None, v)
            if k[0] in ("call", "pure") and str(k[1]).split("::")[-1] == "empty" and v:
                for t in subterms(k):
                    l = locfields(t) if isinstance(t, tuple) and t and t[0] == "f" else None
                    if l:
                        return ("M", l, "empty", False)
        elif ev.kind == "call" and ev.d is not None:
            n = ev.name
            if n in ("stop_all_timer", "stop_timer", "reset_next_layer"):
                return ("DO", n)
            if ev.obj is not None and (n in CLEARING or n in names) and not p.decls[ev.d].get("const"):
                l = locfields(ev.obj)
                if l:
                    return ("M", l, n, bool(ev.inlined))
                f = under_this(ev.obj)
                if f is not None:
                    return ("M", (f,), n, bool(ev.inlined))
            for a in ev.args:
                l = locfields(a[1] if a and a[0] == "addr" else a) if n == "swap" else None
                if l:
                    return ("M", l, n, bool(ev.inlined))
                if any(p.decls[t]["n"] == "stop_timer" for t in targets(p, a)):
                    return ("DO", "stop_timer")
    return trace(p, fn, c, label, force=True, opaque=lambda p, d: d["n"] in ("reset_next_layer", "stop_all_timer", "is_timer", "stop_timer", "error_out", "info_out", "reset_io_context_refs"), cap=160, inline_all=True)[0]


def restored(q, want):
    """the path touches the field path `want`, a part of it or the whole it belongs to"""
    for l in q.labels:
        if l[0] in ("W", "M"):
            if l[0] == "M" and l[3] and len(l[1]) < len(want):  # what it does to the parts has events of its own
                continue
            n = min(len(l[1]), len(want))
            if l[1][:n] == want[:n] and (len(l[1]) <= len(want) or l[0] == "W"):
                return l
            if l[1][:n] == want[:n] and l[0] == "M" and len(want) == 1:
                return l
    return None


def body(p, c, name):
    for b in p.bases(c):
        if p.classes[b]["qn"].startswith(NS + "ext::callbacks"):
            continue
        for m in p.classes[b].get("ms", []):
            if p.decls[m]["n"] == name and m in p.fns and not p.fns[m].params:
                return p.fns[m]
    return None


def fields(p, c):
    root = base_class(p, c, NS + "socket")
    out = {}
    for b in p.bases(c):
        if p.classes[b].get("proj") and (root in p.bases(b) or b in p.bases(root)):
            for f in p.classes[b].get("fs", []):
                out.setdefault(p.decls[f]["n"], f)
    # the getters name the fields whatever they are called
    for b in p.bases(c):
        if not p.classes[b].get("proj"):
            continue
        for m in p.classes[b].get("ms", []):
            r = ROLES.get(p.decls[m]["n"])
            if r and m in p.fns and r not in out:
                fs = {x["d"] for x in p.fns[m].st if x and x["k"] == "mem" and p.decls[x["d"]]["k"] == "field"}
                if len(fs) == 1:
                    out[r] = fs.pop()
    return out


def initial(p, c):
    """constants the constructors give the fields"""
    root = base_class(p, c, NS + "socket")
    out = {}
    for b in p.bases(c):
        if not p.classes[b].get("proj") or not (root in p.bases(b) or b in p.bases(root)):
            continue
        for m in p.classes[b].get("ms", []):
            if m in p.fns and (p.decls[m].get("ctor") or p.decls[m]["n"] == "<ctor>"):
                def label(ex, st, ev):
                    if ev.kind == "write" and ev.val[0] == "c":
                        l = locfields(ev.loc)
                        if l and len(l) == 1:
                            return ("W", l[0], ev.val[1])
                for q in trace(p, p.fns[m], c, label, force=True, cap=60, inline_all=True)[0]:
                    last = {}
                    for l in q.labels:
                        last[l[1]] = l[2]
                    for f, v in last.items():
                        out.setdefault(f, set()).add(v)
    return out


def unit(ctx, p):
    done = set()
    init = {}
    for c in p.leaf_classes(NS + "socket"):
        root = base_class(p, c, NS + "socket")
        fn = body(p, c, "reset")
        if fn is None:
            raise Broken("no reset in %s" % p.classes[c]["qn"])
        ctx.count("socket_classes")
        ctx.analysed(fn)
        F = fields(p, c)
        ini = initial(p, c)
        tcp = any(p.classes[b]["qn"] == NS + "tcp::socket_base" for b in p.bases(c))
        tls = tcp and "TLS" in required(Link(p, c))
        closing = body(p, c, "on_close")
        allq = events(p, c, fn)
        qs = [q for q in allq if q.kind in ("exit", "void")]
        cq = [q for q in events(p, c, closing) if q.kind in ("exit", "void")]
        if not qs:
            raise Broken("reset of %s never returns" % p.classes[c]["qn"])

        def bad(k, q, why, f=None):
            ctx.violation("%s in %s" % (k, (f or fn).qn), q.where, why, q.trail[-10:], p.tu)
        for name in REQ:
            f = F.get(name)
            if f is None:
                continue
            cls = p.ty(p.decls[f]["ty"]).get("cls")
            subs = [(f,)]
            if name == "stat":
                cls = next((k for k in range(len(p.classes)) if p.classes[k]["qn"] == NS + "statistic"), None)
                if cls is None:
                    raise Broken("no statistic class")
                subs = [(f, s) for s in p.classes[cls].get("fs", []) if "dummy" not in p.ty(p.decls[s]["ty"])["s"]]
            for q in qs:
                for w in subs:
                    ctx.count("restorations")
                    l = restored(q, w)
                    if l is None and name == "status" and cq and all(restored(x, w) for x in cq):
                        continue
                    what = ".".join(p.decls[x]["n"] for x in w)
                    if l is None:
                        bad("%s kept" % what, q, "resetting leaves '%s' as the previous life left it" % what)
                    elif len(w) == 1:
                        last = [x for x in q.labels if x[0] == "W" and x[1] == w]
                        if last and last[-1][2] is not None and ini.get(f) and last[-1][2] not in ini[f]:
                            bad("%s wrong" % what, q, "resetting gives '%s' the value %s, construction gives it %s" % (what, last[-1][2], sorted(ini[f])))
                        elif last and last[-1][2] is not None and w[0] == f and len(w) == 1 and name == "stat":
                            pass
                if name == "stat":
                    for w in subs:
                        for x in q.labels:
                            if x[0] == "W" and x[1] == w and x[2] not in (0, None):
                                bad("%s wrong" % p.decls[w[1]]["n"], q, "resetting the statistics does not zero '%s'" % p.decls[w[1]]["n"])
        armed = close_ids(p, c, root)
        for q in allq:
            if q.kind == "throw":
                continue
            t = [l for l in q.labels if l[0] == "TIMER" and l[1] in armed]
            ctx.count("refusals")
            if not any(l[2] is False for l in t) or any(l[2] is True for l in t):
                bad("pending close ignored", q, "a socket can be reset while the delayed close of its previous life is pending")
        for q in qs:
            if not any(l[0] == "DO" and l[1] in ("stop_all_timer", "stop_timer") for l in q.labels):
                bad("timers kept", q, "resetting leaves timers of the previous life running")
            if tls:
                ctx.count("secured_resets")
                if not any(l == ("DO", "reset_next_layer") for l in q.labels):
                    bad("secured stream kept", q, "resetting keeps the TLS stream of the previous life, which cannot handshake again")
        if tls and c in p.leaf_classes(NS + "tcp::generic_client_socket"):
            for q in cq:
                ctx.count("secured_closes")
                if not any(l == ("DO", "reset_next_layer") for l in q.labels):
                    bad("secured stream kept", q, "a TLS client that closes keeps its stream, so its reconnection cannot handshake", closing)
        if "kcp" in F:
            for q in events(p, c, closing, ()):
                if q.kind in ("exit", "void"):
                    ctx.count("control_blocks")
                    w = (F["kcp"],)
                    if not any(l[0] == "W" and l[1][:1] == w and l[2] == 0 for l in q.labels) and not known_null(p, q, F["kcp"]):
                        bad("control block kept", q, "closing keeps the protocol control block of the previous life", closing)
    unpackers(ctx, p)
    steps(ctx, p)


def known_null(p, q, f):
    loc = ("f", ("this",), f)
    for t in (("v", loc, None), loc):
        pass
    for k, v in q.facts.items():
        if has(k, lambda t: t == loc):
            return True
    return False


def close_ids(p, c, root):
    """timers close() arms to finish later"""
    ids = set()
    for m in p.classes[root].get("ms", []):
        if p.decls[m]["n"] == "close" and m in p.fns:
            def label(ex, st, ev):
                if ev.kind == "call" and ev.d is not None and not ev.inlined and ev.name in ARM and ev.args:
                    return ("ARM", ev.args[0])
            for q in trace(p, p.fns[m], c, label, force=True, opaque=ARM, calls=ARM)[0]:
                ids |= {l[1] for l in q.labels}
    if not ids:
        raise Broken("close() arms no timer")
    return ids


def unpackers(ctx, p):
    for b in (NS + "i_unpacker", NS + "udp::i_unpacker"):
        for c in p.leaf_classes(b):
            rs = method(p, c, "reset", False)
            if rs is None:
                continue
            ctx.count("unpackers")
            ctx.analysed(rs)
            W, M = {}, {}
            for fn in class_functions(p, c):
                if p.decls[fn.id].get("virt") and fn.name != "reset" and not fn.name.startswith(("~", "<")) and p.final(c, fn.id) in (fn.id, None):
                    mutated(p, c, fn, (), W, M, set(), fn)
            nxt = method(p, c, "prepare_next_recv", False)
            fresh = None
            if nxt is not None:
                for q in events(p, c, nxt, ("resize", "assign")):
                    if q.kind in ("exit", "void"):
                        s = {l[1] for l in q.labels if l[0] == "M"}
                        fresh = s if fresh is None else fresh & s
            want = set(W) | {l for l in M if l not in (fresh or ())}
            for q in events(p, c, rs, ("resize",)):
                if q.kind not in ("exit", "void"):
                    continue
                for w in sorted(want):
                    ctx.count("unpacker_fields")
                    if restored(q, w) is None and w not in (fresh or ()):
                        what = ".".join(p.decls[x]["n"] for x in w)
                        ctx.violation("%s kept in %s" % (what, p.classes[c]["qn"]), rs.where(), "the unpacker's reset leaves '%s', which %s changes, as the previous connection left it" % (what, (W.get(w) or M.get(w)).name), q.trail[-6:], p.tu)


GROWING = ("resize", "append", "swap", "assign", "push_back", "emplace_back", "operator=", "insert")


def mutated(p, c, fn, prefix, W, M, seen, by):
    """the fields that fn, a function of c, and the functions it calls on the same object change"""
    if fn.id in seen:
        return
    seen.add(fn.id)

    def path(sid):
        out = []
        while sid is not None and sid >= 0:
            x = fn.st[fn.strip(sid)]
            if not x:
                return None
            if x["k"] == "this":
                return prefix + tuple(reversed(out)) if out else None
            if x["k"] != "mem" or p.decls[x["d"]]["k"] != "field" or not x.get("c"):
                return None
            out.append(x["d"])
            sid = x["c"][0]
        return None

    def put(D, sid):
        l = path(sid)
        if l and not isarray(p, l[-1]):
            D.setdefault(l, by)
    for x in fn.st:
        if not x:
            continue
        if x["k"] == "un" and x.get("op") in ("++", "--") or x["k"] in ("bin", "asg") and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
            r = fn.st[fn.strip(x["c"][1])] if x["op"] == "=" and len(x["c"]) > 1 else None
            if not (r and r["k"] == "ref" and r["d"] in fn.params):  # a setter of the application's
                put(W, x["c"][0])
        elif x["k"] == "call" and x.get("d") is not None:
            D = p.decls[x["d"]]
            if D["n"] in GROWING and x.get("obj", -1) is not None and x.get("obj", -1) >= 0:
                put(M, x["obj"])
            if D["n"] == "swap":
                for a in x.get("c", []):
                    put(M, a)
            o = x.get("obj", -1)
            if o is None or o < 0:
                continue
            if fn.st[fn.strip(o)]["k"] == "this":
                d = p.final(c, x["d"]) if D.get("virt") and x.get("vd") else x["d"]
                if D["n"] != "reset" and d in p.fns:
                    mutated(p, c, p.fns[d], prefix, W, M, seen, by)
            else:
                l = path(o)
                k = p.decls[x["d"]].get("cls")
                if l and k is not None and any(p.decls[m]["n"] == "parse_msg" for b in p.bases(k) for m in p.classes[b].get("ms", [])) and D["n"] != "reset" and x["d"] in p.fns:
                    mutated(p, k, p.fns[x["d"]], l, W, M, seen, by)


def fieldsof(p, c):
    return [f for b in p.bases(c) for f in p.classes[b].get("fs", [])]


def isarray(p, f):
    t = p.ty(p.decls[f]["ty"])["s"]
    return "array<" in t or "[" in t


def steps(ctx, p):
    """a proxy client's protocol counters are set before the first request of every attempt"""
    for c in p.leaf_classes(NS + "tcp::generic_client_socket"):
        for b in p.bases(c):
            if not p.classes[b]["qn"].startswith(NS + "tcp::proxy::"):
                continue
            names = {p.decls[f]["n"]: f for f in p.classes[b].get("fs", [])}
            hs = [p.fns[m] for m in p.classes[b].get("ms", []) if m in p.fns and p.decls[m]["n"] == "connect_handler"]
            for fn in hs:
                need = counters(p, c, b)
                for q in trace_steps(p, c, fn):
                    sent = next((i for i, l in enumerate(q.labels) if l[0] == "INIT"), None)
                    if sent is None or q.kind not in ("exit", "void"):
                        continue
                    ctx.count("proxy_attempts")
                    for f in need:
                        l = next((l for l in q.labels[:sent] if l[0] == "W" and l[1] == (f,)), None)
                        if l is None:
                            ctx.violation("%s kept in %s" % (p.decls[f]["n"], fn.qn), q.where, "an attempt to negotiate with the proxy starts with the '%s' of the previous attempt" % p.decls[f]["n"], q.trail[-8:], p.tu)


def counters(p, c, b):
    """fields the negotiation increments"""
    out = set()
    for m in p.classes[b].get("ms", []):
        fn = p.fns.get(m)
        if fn is None:
            continue
        for x in fn.st:
            if x and (x["k"] == "un" and x.get("op") in ("++", "--", "++post", "post++", "pre++") or x["k"] == "bin" and x.get("op") in ("+=", "-=")):
                for s in x.get("c", [])[:1]:
                    y = fn.st[fn.strip(s)]
                    if y and y["k"] == "mem" and p.decls[y["d"]]["k"] == "field" and y["d"] in p.classes[b].get("fs", []):
                        out.add(y["d"])
    return out


def trace_steps(p, c, fn):
    def label(ex, st, ev):
        if ev.kind == "write":
            l = locfields(ev.loc)
            if l:
                return ("W", l)
        if ev.kind == "call" and ev.d is not None and not ev.inlined and (ev.name in ("async_write",) or is_initiation(p, p.decls[ev.d])):
            return ("INIT",)
    return trace(p, fn, c, label, force=True, cap=60, inline_all=True, opaque=lambda p, d: d["n"] in ("error_out", "info_out", "force_shutdown") or d["n"] == "connect_handler" and d["id"] != fn.id)[0]


def run(ctx):
    ctx.each(LIB, unit)
    ctx.need("socket_classes", 40)
    ctx.need("restorations", 400)
    ctx.need("refusals", 40)
    ctx.need("secured_resets", 4)
    ctx.need("secured_closes", 2)
    ctx.need("unpackers", 20)
    ctx.need("unpacker_fields", 20)
    ctx.need("proxy_attempts", 5)
    ctx.need("control_blocks", 1)
