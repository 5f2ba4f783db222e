RULE = """The function that starts transport writes starts at most one per call, only while it holds the sending role (an atomic exchange found it free, or its
caller passed it on), and hands over exactly the messages it took from the front of the send queue; when it starts none, it gives the role back and then
looks at the queue again, and goes on if something is there. The completion of a write drops the finished messages and passes the role on to the next
write, or gives it back when the link is broken. Every insertion into the send queue, and every (re)start of a link, is followed by a request to send,
which is dropped only while the link is not ready or someone else holds the role."""
EXPLANATION = """Ownership (typestate) analysis of the sending role over every path of the write-starting function, of every completion handler bound to a
write it starts, of every function that inserts into the send queue and of the start hooks, in every concrete socket class of every configuration."""
ASSUMPTIONS = ["asio calls a completion handler exactly once", "the queue's emptiness test and insertion are serialised by its lock (C01)",
               "reliable UDP: the congestion window opens again while the link works"]
from lib import *
from witness_units import LIB, DEMO
import b03

XCHG = ("exchange", "test_and_set", "compare_exchange_strong", "compare_exchange_weak", "fetch_or")


def is_write(p, d):
    return is_initiation(p, d) and (d["n"].startswith("async_write") or d["n"].startswith("async_send"))


def sender(p, c):
    """the function that starts writes: the body c runs for the base's pure virtual do_send_msg(bool)"""
    b = base_class(p, c, NS + "socket")
    for m in p.classes[b].get("ms", []):
        d = p.decls[m]
        if d["n"] == "do_send_msg" and len(d.get("ps", [])) == 1 and d.get("virt"):
            f = p.final(c, m)
            if f in p.fns:
                return p.fns[f]
    raise Broken("no write-starting function for %s" % p.classes[c]["qn"])


def same_fn(p, d, c, fn):
    if d["id"] == fn.id:
        return True
    return d["n"] == fn.name and d.get("virt") and len(d.get("ps", [])) == 1 and p.final(c, d["id"]) == fn.id


def same_fn0(p, d, c, fn):
    return d["id"] == fn.id or d["n"] == fn.name and bool(d.get("virt")) and len(d.get("ps", [])) == len(fn.params) and p.final(c, d["id"]) == fn.id


def is_q(p, d):
    return d.get("cls") is not None and any(p.classes[x]["qn"] == NS + "queue" for x in p.bases(d["cls"]))


def field_of(loc):
    while loc and loc[0] in ("addr", "v", "rd"):
        loc = loc[1]
    return loc[2] if loc and loc[0] == "f" else None


def labeler(p, c, fn, role, comps=()):
    S = sender(p, c)

    def rolef(t):
        return has(t, lambda q: q[0] == "f" and q[2] == role)

    def label(ex, st, ev):
        if ev.kind == "branch":
            k, pol = ex.norm(ev.cond)
            if k[0] == "eq" and any(t[0] == "pure" and t[1] in ("end", "cend") for t in k[1:]):
                v = ex.lookup(st, k)
                ts = [l for l in st.rule if l[0] == "T"]
                if v is not None and ts:
                    for f in ts[-1][4]:
                        if f is None:
                            continue
                        w = ex.load(st, ("f", ("this",), f))
                        if has(k, lambda t: t == w) and not any(l[0] == "IT" and (l[1] or not v) for l in st.rule):
                            return ("IT", v, ev.line)
            return None
        if ev.kind == "write" and ev.loc and rolef(ev.loc):
            return ("store", ev.val, ev.line)
        if ev.kind != "call" or ev.d is None:
            return None
        d = p.decls[ev.d]
        n = ev.name
        if ev.obj is not None and field_of(ev.obj) == role:
            if n in XCHG:
                return ("xchg", ev.res, ev.args[0] if ev.args else None, ev.line)
            if n in ("store", "operator="):
                return ("store", ev.args[0], ev.line)
            if n in ("load",) or n.startswith("operator "):
                return ("load", ev.res, ev.line)
            return ("role?", n, ev.line)
        if not ev.inlined and is_write(p, d):
            h = [t for t in targets(p, resolve_args(ex, st, ev)) if t in p.fns]
            return ("W", tuple(deepv(ex, st, a) for a in ev.args), tuple(h), n, ev.line)
        if not ev.inlined and is_initiation(p, d) or n in ("post_in_io_strand", "dispatch_in_io_strand", "post", "dispatch", "post_strand", "dispatch_strand", "defer"):
            h = [t for t in targets(p, resolve_args(ex, st, ev)) if t in p.fns]
            if any(x in comps for x in h):
                return ("P", tuple(h), ev.line)
            if any(same_fn(p, p.decls[x], c, S) for x in h) and d["id"] not in p.fns:
                return ("R", "bound", ev.line)
            return None
        if same_fn(p, d, c, S) and not ev.inlined:
            return ("R", ev.args[0] if ev.args else None, ev.line)
        if is_q(p, d):
            q = field_of(ev.obj)
            if n in ("is_empty", "empty"):
                return ("E", ev.res, q, ev.line)
            if n in ("try_dequeue", "try_dequeue_", "move_items_out", "move_items_out_", "dequeue"):
                return ("T", n, ev.res, q, tuple(field_of(a) for a in ev.args), ev.line)
            return None
        if n == "send_msg" and not d.get("ps"):
            return ("K", ev.line)
        if n == "check_send_cc":
            return ("CC", ev.res, ev.line)
        if n in ("push_back", "emplace_back") and not ev.inlined and ev.obj is not None and not any(l[0] == "push" for l in st.rule):
            return ("push", field_of(ev.obj), tuple(deepv(ex, st, a) for a in ev.args), ev.line)
        if n in ("clear", "swap") and ev.obj is not None and field_of(ev.obj) is not None:
            return ("clear", field_of(ev.obj), ev.line)
        return None
    return label


def deepv(ex, st, v):
    return b03.deep(ex, st, v)


def resolve_args(ex, st, ev):
    return tuple(deepv(ex, st, a) for a in ev.args)


def run_fn(p, c, fn, role, comps=()):
    S = sender(p, c)

    def op(p, d):
        if d["id"] == fn.id:
            return fn.id == S.id  # recursion
        return is_q(p, d) or d["n"] in ("check_send_cc", "send_msg", "post_in_io_strand", "dispatch_in_io_strand") or same_fn(p, d, c, S) or d["n"] in ("on_msg_send", "on_all_msg_send", "on_send_error", "unified_out", "error_out", "show_info")
    lab = labeler(p, c, fn, role, comps)
    return trace(p, fn, c, lab, force=True, opaque=op,
                 calls=lambda p, d: is_write(p, d) or d["n"] in XCHG + ("store", "load") or is_q(p, d) or same_fn(p, d, c, S) or is_initiation(p, d))


def completions(p, c, S, role):
    paths, ex = run_fn(p, c, S, role)
    out = {}
    for q in paths:
        for l in q.labels:
            if l[0] == "W":
                for t in l[2]:
                    out[t] = 1
    return list(out)


def entry_role(p, fn):
    """parameter that tells that the caller already holds the role"""
    for i, pd in enumerate(fn.params):
        if b03.isb(p, pd):
            return ("arg", i)
    return None


def simulate(ctx, p, c, fn, ex, q, start, comp, sendq, dest, errs=None):
    """follow the role along one path; dest collects the containers messages were taken into"""
    def bad(key, msg, line=None):
        ctx.violation("%s in %s" % (key, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-14:], p.tu)
    role = start          # free, held, flight, passed, look
    cc = False
    taken = None
    it = None
    pushed = True
    clr = set()
    for l in q.labels:
        k = l[0]
        if k == "xchg":
            if role == "held":
                bad("role taken twice", "the sending role is requested by a path that already holds it", l[3])
                return
            v = truth(ex, q.facts, l[1])
            if v is None:
                v = truth(ex, q.facts, ("bin", "==", ("c", 1), l[1]))
            if v is None:
                bad("role untested", "the result of taking the sending role is not looked at", l[3])
                return
            if not v:
                role = "held"
            else:
                role = "other"
        elif k == "role?":
            bad("role", "unexpected use of the sending role (%s)" % l[1], l[2])
        elif k == "store":
            if l[1] != T0:
                bad("role set", "the sending role is set without testing it", l[2])
            if role not in ("held",):
                bad("role cleared", "the sending role is given back by a path that does not hold it" + (" (a write is in flight)" if role in ("flight", "passed") else ""), l[2])
                return
            role = "free"
        elif k == "T":
            if role != "held":
                bad("take", "messages are taken from the send queue without holding the sending role", l[-1])
            if l[3] is not None:
                sendq.add(l[3])
            for a in l[4]:
                if a is not None:
                    dest.add(a)
            taken = l
            it, pushed = None, True
        elif k == "IT":
            if taken:
                if not pushed:
                    bad("message skipped", "a message taken from the send queue is not handed to the write", l[2])
                it = l[1]
                pushed = it
        elif k == "push":
            pushed = True
        elif k in ("W", "P"):
            if role != "held":
                bad("write", "a write is started %s" % ("while another is in flight" if role in ("flight", "passed") else "without holding the sending role"), l[-1])
                return
            if k == "W":
                if taken is None:
                    bad("write source", "a write is started with nothing taken from the send queue", l[-1])
                elif it is False:
                    bad("message left out", "a write is started before every message taken was added to it", l[-1])
                elif not buffer_ok(p, l[1], dest, q):
                    bad("write buffer", "the write is not given the messages that were taken", l[-1])
                if not l[2]:
                    bad("write completion", "a write is started without a completion handler of the socket", l[-1])
            role = "flight"
        elif k == "R":
            a = l[1]
            t = True if a == ("c", 1) else False if a == T0 else truth(ex, q.facts, a) if a else None
            if t:
                if role != "held":
                    bad("role passed", "the sending role is passed on by a path that does not hold it" + (" (a write is in flight)" if role in ("flight", "passed") else ""), l[-1])
                    return
                if comp and dest and not (clr & dest):
                    bad("finished messages", "the next write is started before the finished messages are dropped", l[-1])
                role = "passed"
            elif role == "held":
                bad("role kept", "sending is requested again while the role is still held", l[-1])
                return
            elif role in ("free", "nonempty"):
                role = "passed"
        elif k == "K":
            if role in ("free", "nonempty"):
                role = "passed"
        elif k == "E":
            sendq.add(l[2]) if l[2] is not None and not comp else None
            if role == "free" and l[2] in sendq:
                v = truth(ex, q.facts, l[1])
                role = "look" if v else "nonempty"
        elif k == "CC":
            if truth(ex, q.facts, l[1]) is False:
                cc = True
        elif k == "clear":
            clr.add(l[1])
    if q.kind == "throw":
        return
    if role == "nonempty":
        bad("stranded", "the role was given back and the queue found non-empty, but sending is not requested again")
    elif role == "held":
        if cc:
            ctx.count("congestion_pauses")
        else:
            bad("role lost", "a path ends holding the sending role without a write in flight: nothing is ever sent again")
    elif role == "free" and not comp:
        bad("queue not examined", "the sending role is given back without looking at the send queue again")
    elif role == "free" and comp:
        return "free"
    return role


def buffer_ok(p, args, dest, q):
    if any(has(a, lambda t: t[0] in ("f", "fv") and len(t) == 3 and isinstance(t[2], int) and t[2] in dest) for a in args):
        return True
    tk = [l for l in q.labels if l[0] == "T"]
    if tk and any(has(a, lambda t: t[0] == "out" and t[1] == tk[-1][2][2]) for a in args):
        return True  # the value the take left behind
    # a container filled from the destination
    for l in q.labels:
        if l[0] == "push" and any(has(a, lambda t: t == ("f", ("this",), l[1])) for a in args):
            return True
    return not any(l[0] == "push" for l in q.labels) and any(l[0] == "IT" for l in q.labels)


def fatal_codes(ex, q):
    """the path established that the error is one that makes further writes pointless"""
    for a, v in q.facts.items():
        if v and isinstance(a, tuple) and has(a, lambda t: t[0] == "c" and t[1] in (9, 88)):
            return True
    return False


def unit(ctx, p):
    for c in p.leaf_classes(NS + "socket"):
        b = base_class(p, c, NS + "socket")
        role = getter_field(p, b, "is_sending")
        S = sender(p, c)
        ctx.analysed(S)
        comps = completions(p, c, S, role)
        if not comps:
            ctx.violation("no write in %s" % S.qn, S.where(), "the write-starting function starts no write", (), p.tu)
            continue
        paths, ex = run_fn(p, c, S, role, comps)
        arg = entry_role(p, S)
        sendq, dest = set(), set()
        for q in paths:
            t = truth(ex, q.facts, arg) if arg else False
            ctx.count("sender_paths")
            simulate(ctx, p, c, S, ex, q, "held" if t else "free?" if t is None else "free0", False, sendq, dest)
        udp = any(p.classes[x]["qn"] == NS + "udp::generic_socket" for x in p.bases(c))
        for i in comps:
            fn = p.fns[i]
            ctx.analysed(fn)
            paths, ex = run_fn(p, c, fn, role, comps)
            for q in paths:
                ctx.count("completion_paths")
                r = simulate(ctx, p, c, fn, ex, q, "held", True, set(sendq), dest)
                if r == "free":
                    ok = error_known(p, ex, q, fn)
                    if ok is not True:
                        ctx.violation("stranded after success in %s" % fn.qn, q.where, "after a successful write the sending role is given back without looking at the send queue", q.trail[-12:], p.tu)
                    elif udp and not fatal_codes(ex, q):
                        ctx.violation("stranded after error in %s" % fn.qn, q.where, "a datagram that could not be sent stops sending although the socket is still usable", q.trail[-12:], p.tu)
        if len(sendq) != 1:
            raise Broken("%s: send queue not identified" % p.classes[c]["qn"])
        requests(ctx, p, c, b, S, role)
        starts(ctx, p, c, b, S, role)
        congestion(ctx, p, c, S, role)
    kicks(ctx, p)


def error_known(p, ex, q, fn):
    """this path established that the error code parameter is set"""
    for a, v in q.facts.items():
        if isinstance(a, tuple) and a[0] == "b" and a[1][0] == "truth" and has(a, lambda t: t in (("param", 0), ("arg", 0))):
            return v
    return None


def requests(ctx, p, c, b, S, role):
    """send_msg(): the request to send"""
    for fn in methods_all(p, c, "send_msg"):
        if fn.params or fn.cls != b:
            continue
        ctx.analysed(fn)
        k = {}

        def label(ex, st, ev):
            if ev.kind != "call" or ev.d is None:
                return None
            d = p.decls[ev.d]
            if ev.name == "is_ready":
                return ("ready", ev.res)
            if ev.obj is not None and field_of(ev.obj) == role:
                return ("load", ev.res)
            if same_fn(p, d, c, S):
                return ("R", ev.args[0] if ev.args else None, ev.line)
            a = resolve_args(ex, st, ev)
            hs = [t for t in targets(p, a)]
            if any(p.decls[t]["n"] == S.name for t in hs) and d["n"] in ("dispatch_in_io_strand", "post_in_io_strand"):
                bf, bt = b03.bound_tail(p, a)
                return ("R", bt[-1] if bt else None, ev.line)
            return None
        paths, ex = trace(p, fn, c, label, force=True, opaque=("is_ready", "dispatch_in_io_strand", "post_in_io_strand", S.name))
        for q in paths:
            ctx.count("request_paths")
            rs = q.all("R")
            if rs:
                v = rs[-1][1]
                if v != T0 and truth(ex, q.facts, v) is not False:
                    ctx.violation("role claimed in %s" % fn.qn, fn.where(rs[-1][2]), "a request to send claims to hold the sending role", q.trail[-10:], p.tu)
                continue
            ok = any(truth(ex, q.facts, l[1]) is False for l in q.all("ready"))
            ok = ok or any(truth(ex, q.facts, ("bin", "==", ("c", 1), l[1])) is True or truth(ex, q.facts, l[1]) is True for l in q.all("load"))
            if not ok:
                ctx.violation("request dropped in %s" % fn.qn, q.where, "a request to send is dropped although the link may be ready and idle", q.trail[-10:], p.tu)


def starts(ctx, p, c, b, S, role):
    """a link that starts sends what was queued before"""
    fn = own_method(p, b, "do_start")
    paths, ex = trace(p, fn, c, lambda ex, st, ev: ("K",) if ev.kind == "call" and ev.name == "send_msg" and ev.d is not None and not p.decls[ev.d].get("ps") else None, force=True, opaque=("send_msg", "recv_msg", "start_heartbeat", "set_timer"))
    ctx.analysed(fn)
    for q in paths:
        if q.kind == "throw" or truth(ex, {}, q.val) is False or q.val == T0:
            continue
        ctx.count("start_paths")
        if not q.has("K"):
            ctx.violation("no request at start in %s" % fn.qn, q.where, "a link starts without sending what was queued before", q.trail[-10:], p.tu)
    # the link counts as ready by then
    rd = method(p, c, "is_ready")
    rp, rex = trace(p, rd, c, lambda ex, st, ev: None, force=True, inline_all=True)
    vals = {q.val for q in rp}
    fs = {t[2] for v in vals for t in subterms(v) if t and t[0] == "f" and len(t) == 3 and t[1] == ("this",) and isinstance(t[2], int)}
    if len(vals) != 1 or len(fs) != 1:
        ctx.count("readiness_not_a_flag")
        return
    f, term = fs.pop(), vals.pop()

    def label(ex, st, ev):
        if ev.kind == "write" and ev.loc == ("f", ("this",), f):
            return ("set", ev.val, ev.line)
        if ev.kind == "call" and ev.name == "send_msg" and ev.d is not None and not p.decls[ev.d].get("ps"):
            return ("K", ev.line)
    for t in ready_fns(p, c):
        paths, ex = trace(p, t, c, label, force=True, opaque=("send_msg", "recv_msg", "start_heartbeat", "set_timer"), bodies=lambda g: g.name == "do_start")
        ctx.analysed(t)
        for q in paths:
            k = q.index("K")
            if k < 0:
                continue
            ctx.count("ready_at_start")
            w = [l for l in q.labels[:k] if l[0] == "set"]
            if not w or makes(term, f, w[-1][1]) is False:
                ctx.violation("not ready at start in %s" % t.qn, q.where, "the request to send made when a link starts is dropped because the link does not count as ready yet", q.trail[-14:], p.tu)


def makes(term, f, val):
    """truth of a readiness term once field f holds val (None: undecided)"""
    me = lambda t: t and (t[0] == "v" and t[1] == ("f", ("this",), f) or t == ("f", ("this",), f))
    if val[0] != "c":
        return None
    if me(term):
        return bool(val[1])
    if term[0] == "bin" and term[1] in ("==", "!=") and (me(term[2]) or me(term[3])):
        k = term[3] if me(term[2]) else term[2]
        if k[0] == "c":
            return (k[1] == val[1]) == (term[1] == "==")
    return None


def ready_fns(p, c):
    """do_start overrides that mark the link ready and hand over to the base"""
    out = []
    for x in p.bases(c):
        for m in p.classes[x].get("ms", []):
            if p.decls[m]["n"] == "do_start" and m in p.fns and p.classes[x]["qn"] in (NS + "tcp::socket_base", NS + "udp::generic_socket"):
                out.append(p.fns[m])
    return out


def congestion(ctx, p, c, S, role):
    """a pause for congestion control ends: it arms a timer whose handler keeps ticking or gives the role back and asks to send"""
    for f in methods_all(p, c, "check_send_cc"):
        def label(ex, st, ev):
            if ev.kind == "call" and ev.name in ("set_timer", "update_timer_info") and ev.frame.parent is None:
                return ("timer", ev.args[0], tuple(targets(p, resolve_args(ex, st, ev))), ev.line)
        paths, ex = trace(p, f, c, label, force=True, opaque=("set_timer",))
        ctx.analysed(f)
        hs = {}
        for q in paths:
            if q.val == T0 or truth(ex, q.facts, q.val) is False:
                t = q.all("timer")
                if not t:
                    ctx.violation("endless pause in %s" % f.qn, q.where, "congestion control pauses sending without arming the timer that resumes it", q.trail[-10:], p.tu)
                else:
                    for h in t[-1][2]:
                        hs[h] = t[-1][1]
        for h, tid in hs.items():
            if h not in p.fns:
                raise Broken("congestion timer handler without body")
            fn = p.fns[h]
            ctx.analysed(fn)

            def label2(ex, st, ev):
                if ev.kind == "call" and ev.d is not None:
                    if ev.obj is not None and field_of(ev.obj) == role and ev.name in ("store", "operator="):
                        return ("store", ev.line)
                    if is_q(p, p.decls[ev.d]) and ev.name in ("is_empty", "empty"):
                        return ("E", ev.res)
                    if ev.name == "send_msg" and not p.decls[ev.d].get("ps"):
                        return ("K",)
                return None
            paths, ex = trace(p, fn, c, label2, force=True, calls=lambda p, d: is_q(p, d) or d["n"] in ("send_msg", "store"), opaque=lambda p, d: is_q(p, d) or d["n"] in ("send_msg", "change_timer_interval"))
            for q in paths:
                if not is_tick(ex, q, tid):
                    continue
                ctx.count("congestion_ticks")
                goes_on = q.val == ("c", 1) or truth(ex, q.facts, q.val) is True
                rel, kick = q.index("store"), q.index("K")
                if goes_on:
                    continue
                if rel < 0:
                    if closed(p, q):
                        continue
                    ctx.violation("endless pause in %s" % fn.qn, q.where, "the congestion timer ends without giving the sending role back", q.trail[-12:], p.tu)
                elif kick < rel:
                    es = [l for i, l in enumerate(q.labels) if l[0] == "E" and i > rel]
                    if not any(truth(ex, q.facts, l[1]) for l in es):
                        ctx.violation("no request after pause in %s" % fn.qn, q.where, "the congestion timer gives the role back but does not ask to send what is queued", q.trail[-12:], p.tu)


def closed(p, q):
    """the path established that the protocol object is gone (only a closed link has none)"""
    for a, v in q.facts.items():
        if v and isinstance(a, tuple) and a[0] == "eq" and has(a, lambda t: t[0] == "f" and p.ty(p.decls[t[2]]["ty"]).get("ptr")) and has(a, lambda t: t in (T0, ("null",))):
            return True
    return False


def is_tick(ex, q, tid):
    """is this the path taken for the timer `tid`"""
    if tid[0] != "c":
        return True
    return truth(ex, q.facts, ("bin", "==", ("arg", 0), tid)) is True or truth(ex, q.facts, ("bin", "==", tid, ("arg", 0))) is True


def kicks(ctx, p):
    """every successful insertion into a send queue is followed by a request to send"""
    E, D = b03.sends(p)
    for fn in D.values():
        paths, ex = b03.explore(p, fn)
        for q in paths:
            if q.kind == "throw":
                continue
            i = q.rindex("Q")
            if i < 0:
                continue
            if truth(ex, q.facts, q.labels[i][2]) is False:
                continue
            ctx.count("insertions")
            if not any(l[0] == "kick" for l in q.labels[i:]):
                ctx.violation("no request in %s" % fn.qn, q.where, "messages are queued without a request to send them", q.trail[-10:], p.tu)


def run(ctx):
    ctx.each(LIB + DEMO, unit)
    ctx.need("sender_paths", 200)
    ctx.need("completion_paths", 60)
    ctx.need("insertions", 60)
    ctx.need("request_paths", 30)
    ctx.need("congestion_ticks", 2)
    ctx.need("ready_at_start", 5)
