RULE = """A completed read that reports no error is followed by exactly one new read when the receive queue is below its bound, or by none and an armed timer
when it is not; the timer's callback restarts reading exactly once and ends when the queue is below the bound, and otherwise keeps ticking without reading.
A completed read that reports an error reaches the application's error hook once and starts no read. With passive receiving the read role is taken
atomically before a read, given back when no read was started, and given back by the completion before messages are handed out. Nothing else starts reads."""
EXPLANATION = """Path enumeration with branch facts over the read completion handler (found from the handlers bound to read initiations), the function that
starts reads, the resuming timer's callback and the start hook, in every concrete socket class of every configuration, plus a query for every other
caller that reaches a read."""
ASSUMPTIONS = ["asio calls a completion handler exactly once", "an unpacker that offers an empty buffer ends reading by design (it is reported)",
               "a stream read that succeeds with zero bytes does not happen (asserted)"]
from lib import *
from witness_units import LIB, DEMO
import b02, b03, f01
from a01 import handler_of

field_of = b02.field_of


def is_read(p, d):
    return is_initiation(p, d) and (d["n"].startswith("async_read") or d["n"].startswith("async_receive"))


def reader(p, c):
    b = base_class(p, c, NS + "socket")
    for m in p.classes[b].get("ms", []):
        d = p.decls[m]
        if d["n"] == "do_recv_msg" and d.get("virt"):
            f = p.final(c, m)
            if f in p.fns:
                return p.fns[f]
    raise Broken("no read-starting function for %s" % p.classes[c]["qn"])


def reads(p, c, d, S):
    """is calling d a request to read"""
    return b02.same_fn0(p, d, c, S) or d["n"] == "recv_msg" and not d.get("ps")


class Env:
    def __init__(self, p, c):
        self.p, self.c = p, c
        self.b = base_class(p, c, NS + "socket")
        self.S = reader(p, c)
        self.passive = any(p.decls[m]["n"] == "is_reading" for m in p.classes[self.b].get("ms", []))
        self.role = getter_field(p, self.b, "is_reading") if self.passive else None
        self.started = getter_field(p, self.b, "started")
        fs = getter_fields(p, self.b, "is_recv_buffer_available")
        q = [f for f in fs if p.ty(p.decls[f]["ty"]).get("cls") is not None]
        self.queue = q[0] if q else None
        self.bound = [f for f in fs if f != self.queue][0] if len(fs) == 2 else None
        if self.queue is None or self.bound is None:
            raise Broken("receive bound not identified")


def full_fact(e, ex, facts):
    """does the path know whether the receive queue is below its bound (True: below)"""
    p = e.p
    r = None
    for a, v in facts.items():
        if a[0] == "lt" and has(a, lambda t: t[0] == "f" and t[2] == e.queue) and has(a, lambda t: t[0] == "f" and t[2] == e.bound):
            left = has(a[1], lambda t: t[0] == "f" and t[2] == e.queue)
            r = v if left else None if v is None else not v
    return r


def label_of(e, fn):
    p, c = e.p, e.c

    def label(ex, st, ev):
        if ev.kind == "branch":
            return None
        if ev.kind != "call" or ev.d is None:
            return None
        d = p.decls[ev.d]
        n = ev.name
        if reads(p, c, d, e.S) and not ev.inlined:
            return ("RD", ev.line, len(st.rule))
        if not ev.inlined and is_read(p, d):
            a = b02.resolve_args(ex, st, ev)
            return ("IO", tuple(t for t in targets(p, handler_of(a)) if t in p.fns), ev.line, len(st.rule))
        if ev.obj is not None and e.role is not None and field_of(ev.obj) == e.role:
            if n in b02.XCHG:
                return ("xchg", ev.res, ev.line)
            if n in ("store", "operator="):
                return ("store", ev.args[0], ev.line)
            return None
        if n in ("set_timer", "create_or_update_timer", "update_timer_info") and not ev.inlined:
            a = b02.resolve_args(ex, st, ev)
            ts = [t for t in targets(p, a) if t in p.fns]
            return ("TM", tuple(ts), a[-1] if a else None, ev.line)
        if n == "on_recv_error" and d.get("virt") and not any(f.name == n for f in ev.frame.chain()):
            return ("ERR", ev.args[0] if ev.args else None, ev.line)
        if n in ("wait", "wait_for", "timed_wait") and ev.obj is not None and "condition" in ev.qn:
            a = b02.resolve_args(ex, st, ev)
            fs = {t[2] for x in a[1:] for t in subterms(x) if t and t[0] == "f" and len(t) == 3 and t[1] == ("this",)}
            return ("WAIT", tuple(sorted(fs)) if e.started in fs else (), ev.line, ev.site)
        if n == "parse_msg" and not ev.inlined and not any(l[0] == "PARSE" for l in st.rule):
            return ("PARSE", ev.line)
        if n in ("on_msg", "move_items_in", "move_items_in_"):
            return ("GIVE", ev.line)
        return None
    return label


def explore(e, fn, args=None):
    p = e.p

    def op(p, d):
        if d["id"] == fn.id:
            return False
        return b02.is_q(p, d) or reads(p, e.c, d, e.S) or d["n"] in ("set_timer", "on_recv_error", "on_unpack_error", "on_msg", "dispatch_msg", "pre_handle_msg", "error_out", "get_size_in_byte", "parse_msg", "prepare_next_recv", "sync_recv_waiting", "dispatch_in_io_strand", "post_in_io_strand")
    return trace(p, fn, e.c, label_of(e, fn), args=args, force=True, opaque=op, fields=[p.decls[e.role]["n"]] if e.role else [],
                 calls=lambda p, d: reads(p, e.c, d, e.S) or is_read(p, d) or d["n"] in ("set_timer", "on_recv_error", "wait", "wait_for", "on_msg") or d["n"] in ("size_in_byte", "move_items_in"))


def err_fact(q):
    for a, v in q.facts.items():
        if a[0] == "b" and a[1][0] == "truth" and has(a, lambda t: t in (("param", 0), ("arg", 0))):
            return v
    return None


def zero_bytes(ex, q):
    return truth(ex, q.facts, ("bin", ">", ("arg", 1), T0)) is False or truth(ex, q.facts, ("bin", "==", ("arg", 1), T0)) is True


def closed_wait(e, q):
    """the path waited until something changed or the link closed, and found that nothing changed: the link is closed"""
    fs = {f for l in q.labels if l[0] == "WAIT" for f in l[1]} - {e.started}
    site = [l[3] for l in q.labels if l[0] == "WAIT"]
    return any(v and a[0] == "eq" and any(has(a, lambda t: t[0] == "v" and len(t) == 3 and t[1] == ("f", ("this",), f) and t[2] in site) for f in fs) for a, v in q.facts.items())


def unit(ctx, p):
    for c in p.leaf_classes(NS + "socket"):
        e = Env(p, c)
        comps = starter(ctx, e)
        tm = {}
        stream = any(p.classes[x]["qn"] == NS + "tcp::socket_base" for x in p.bases(c))
        for i in comps:
            completion(ctx, e, p.fns[i], tm, stream)
        for t, cont in tm.items():
            resume(ctx, e, p.fns[t], cont)
        if not e.passive and not tm:
            ctx.violation("no resuming timer in %s" % p.classes[c]["qn"], p.fns[comps[0]].where(), "reading that pauses is never resumed", (), p.tu)
        request(ctx, e)
        start(ctx, e)
        others(ctx, e, set(comps) | set(tm))
        bound(ctx, e)


def starter(ctx, e):
    """the function that starts reads: once, with the role when receiving is passive; returns the completion handlers"""
    p, S = e.p, e.S
    paths, ex = explore(e, S)
    ctx.analysed(S)
    comps = {}
    for q in paths:
        if q.kind == "throw":
            continue
        ctx.count("starter_paths")

        def bad(rule, msg, line=None):
            ctx.violation("%s in %s" % (rule, S.qn), S.where(line) if line else q.where, msg, q.trail[-12:], p.tu)
        io = q.all("IO")
        for l in io:
            for t in l[1]:
                if len(p.fns[t].params) == 2 and p.fns[t].cls is not None:
                    comps[t] = 1
        if len(io) > 1:
            bad("two reads", "two reads are started at once")
        empty = any(a[0] == "eq" and v and T0 in a[1:] and has(a, lambda t: t[0] == "pure" and t[1] in ("buffer_size", "size")) for a, v in q.facts.items())
        empty = empty or any(a[0] == "lt" and not v and a[1] == T0 and has(a, lambda t: t[0] == "pure" and t[1] in ("buffer_size", "size")) for a, v in q.facts.items())
        if not e.passive:
            if not io and not empty:
                bad("no read", "a request to read starts no read although the unpacker offered a buffer")
            continue
        held = False
        tried = False
        for l in q.labels:
            if l[0] == "xchg":
                v = truth(ex, q.facts, l[1])
                if v is None:
                    v = truth(ex, q.facts, ("bin", "==", ("c", 1), l[1]))
                if v is None:
                    bad("role untested", "the result of taking the reading role is not looked at", l[2])
                tried = True
                held = v is False
            elif l[0] == "store":
                if not held:
                    bad("role cleared", "the reading role is given back by a path that does not hold it", l[2])
                held = False
            elif l[0] == "IO":
                if not held:
                    bad("unguarded read", "a read is started without holding the reading role", l[2])
                held = False
        if not io and held:
            bad("role lost", "the reading role is kept although no read was started: nothing is ever received again")
        if not io and not tried and not ready_false(e, ex, q):
            bad("no read", "a request to read is dropped although the link may be ready")
    if not comps:
        raise Broken("no read completion found in %s" % S.qn)
    return list(comps)


def ready_false(e, ex, q):
    return any(v is False and a[0] in ("eq", "b") for a, v in q.facts.items())


def completion(ctx, e, fn, tm, stream):
    p = e.p
    paths, ex = explore(e, fn)
    ctx.analysed(fn)
    for q in paths:
        if q.kind == "throw":
            continue
        ctx.count("completion_paths")

        def bad(rule, msg, line=None):
            ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-14:], p.tu)
        err = err_fact(q)
        rd = q.all("RD") + q.all("IO")
        errs = q.all("ERR")
        t = [l for l in q.all("TM")]
        if e.passive:
            st = q.index("store")
            give = q.index("GIVE")
            if st < 0:
                bad("role kept", "a completed read does not give the reading role back")
            elif 0 <= give < st:
                bad("role kept", "messages are handed out before the reading role is given back: the application cannot ask for the next read")
        if err is None:
            bad("error ignored", "a completed read is handled without looking at its error")
            continue
        if err:
            if rd:
                bad("read after error", "a read is started although the last one reported an error", rd[0][-2])
            if len(errs) != 1:
                bad("error not reported", "a read error reaches the application's error hook %d times" % len(errs))
            elif errs[0][1] not in (("param", 0), ("arg", 0), ("v", ("param", 0))):
                bad("error replaced", "the error handed to the application is not the one reported", errs[0][2])
            continue
        if errs:
            bad("false error", "the error hook runs although the read succeeded", errs[0][2])
        if e.passive:
            if rd:
                bad("read in passive mode", "a read is started although only the application starts reads", rd[0][-2])
            continue
        if len(rd) > 1:
            bad("two reads", "two reads are started after one completed", rd[1][-2])
        ff = full_fact(e, ex, q.facts)
        if rd:
            if ff is not True:
                bad("bound ignored", "the next read is started without the receive queue being below its bound", rd[0][-2])
            continue
        if stream and zero_bytes(ex, q):
            ctx.count("impossible_paths")
            continue
        if closed_wait(e, q) and ff is None:
            ctx.count("closed_while_waiting")
            continue
        mine = [l for l in t if l[1]]
        if not mine:
            bad("stall", "a successful read is followed neither by the next read nor by a timer that resumes reading")
            continue
        if ff is True:
            ctx.count("paused_below_bound")
        for l in mine:
            for x in l[1]:
                tm.setdefault(x, l[2])


def cont_of(e, term, h):
    """(value of the callback when the tested function answers true, ... false) for an if_then_else_return callback; None for a plain bind"""
    for t in subterms(term):
        if t and t[0] == "pure" and t[1] == "if_then_else_return" and len(t[2]) == 3:
            a, b = const_in(t[2][1]), const_in(t[2][2])
            neg = False
            if a is None or b is None:
                return "?"
            return (bool(a), bool(b))
    return None


def const_in(t):
    for s in subterms(t):
        if s and s[0] == "c":
            return s[1]
    return None


def resume(ctx, e, fn, term):
    """the callback of the resuming timer"""
    p = e.p
    c = cont_of(e, term, fn)
    if c == "?":
        raise Broken("resuming timer: callback not understood")
    # arguments bound into the callback
    bound = None
    for t in subterms(term):
        if t and t[0] == "pure" and t[1] == "bind" and isinstance(t[2], tuple) and any(has(x, lambda s: s == ("fnref", fn.id)) for x in t[2][:1]):
            bound = t[2]
    args = {}
    if bound:
        for i in range(len(fn.params)):
            if i + 2 < len(bound) and bound[i + 2][0] == "c":
                args[i] = bound[i + 2]
    paths, ex = explore(e, fn)
    ctx.analysed(fn)
    for q in paths:
        if q.kind == "throw":
            continue
        if any(truth(ex, q.facts, ("bin", "==", ("arg", i), v)) is False or (v[1] in (0, 1) and truth(ex, q.facts, ("arg", i)) is (not v[1])) for i, v in args.items()):
            continue  # another caller's variant
        ctx.count("resume_paths")

        def bad(rule, msg, line=None):
            ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-14:], p.tu)
        r = None if q.val is None else (bool(q.val[1]) if q.val[0] == "c" else truth(ex, q.facts, q.val))
        if r is None:
            bad("resume result", "the resuming timer's callback has no definite answer")
            continue
        goes_on = (c[0] if r else c[1]) if c else r
        rd = q.all("RD") + q.all("IO")
        ff = full_fact(e, ex, q.facts)
        if len(rd) > 1:
            bad("two reads", "the resuming timer starts two reads")
        if rd and goes_on:
            bad("read and tick", "the resuming timer restarts reading and keeps ticking", rd[0][-2])
        elif rd and ff is not True:
            bad("bound ignored", "reading is resumed without the receive queue being below its bound", rd[0][-2])
        elif not rd and not goes_on:
            bad("stall", "the resuming timer ends without restarting reading")
        elif goes_on and ff is not False:
            bad("needless pause", "the resuming timer keeps ticking although the receive queue may be below its bound")


def request(ctx, e):
    """recv_msg(): hands the request to the read-starting function, once"""
    p = e.p
    for fn in methods_all(p, e.c, "recv_msg"):
        if fn.params or fn.cls != e.b:
            continue

        def label(ex, st, ev):
            if ev.kind != "call" or ev.d is None:
                return None
            d = p.decls[ev.d]
            if ev.name in ("is_ready", "is_reading"):
                return (ev.name, ev.res)
            if b02.same_fn0(p, d, e.c, e.S):
                return ("RD", len(st.rule))
            if ev.name in ("dispatch_in_io_strand", "post_in_io_strand") and any(p.decls[t]["n"] == e.S.name for t in targets(p, b02.resolve_args(ex, st, ev))):
                return ("RD", len(st.rule))
        paths, ex = trace(p, fn, e.c, label, force=True, opaque=("is_ready", "is_reading", "dispatch_in_io_strand", "post_in_io_strand", e.S.name))
        ctx.analysed(fn)
        for q in paths:
            ctx.count("request_paths")
            n = len(q.all("RD"))
            if n > 1:
                ctx.violation("two reads in %s" % fn.qn, q.where, "one request to read starts two", q.trail[-8:], p.tu)
            if n == 0:
                ok = any(truth(ex, q.facts, l[1]) is False for l in q.all("is_ready")) or any(truth(ex, q.facts, l[1]) is True for l in q.all("is_reading"))
                if not e.passive or not ok:
                    ctx.violation("request dropped in %s" % fn.qn, q.where, "a request to read is dropped although no read is in flight", q.trail[-8:], p.tu)


def start(ctx, e):
    """a link that starts reads: once (never by itself when both passive and synchronous receiving are on)"""
    p = e.p
    fn = own_method(p, e.b, "do_start")
    paths, ex = trace(p, fn, e.c, lambda ex, st, ev: ("RD", len(st.rule)) if ev.kind == "call" and ev.d is not None and reads(p, e.c, p.decls[ev.d], e.S) and not ev.inlined else None, force=True,
                      opaque=lambda p, d: reads(p, e.c, d, e.S) or d["n"] in ("send_msg", "start_heartbeat", "set_timer"), calls=lambda p, d: reads(p, e.c, d, e.S))
    ctx.analysed(fn)
    sync = any(p.decls[m]["n"] == "sync_recv_msg" for m in p.classes[e.b].get("ms", []))
    want = 0 if e.passive and sync else 1
    for q in paths:
        if q.kind == "throw" or q.val == T0:
            continue
        ctx.count("start_paths")
        n = len(q.all("RD"))
        if n != want:
            ctx.violation("first read in %s" % fn.qn, q.where, "a link that starts begins %d reads instead of %d" % (n, want), q.trail[-8:], p.tu)


def others(ctx, e, known):
    """nothing else starts reads"""
    if e.passive:
        return
    p = e.p
    cs = f01.callers(p)
    ok = set(known) | {own_method(p, e.b, "do_start").id}
    seen, todo = set(), [e.S.id] + [f.id for f in methods_all(p, e.c, "recv_msg") if not f.params and f.cls == e.b]
    base = [m for m in p.classes[e.b].get("ms", []) if p.decls[m]["n"] == e.S.name]
    todo += base
    start = set(todo)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        if i in ok and i not in start:
            continue
        up = [x for x in cs.get(i, ()) if x != i]
        if not up and i not in start:
            f = p.fns.get(i)
            if f is not None and f.qn.startswith(NS):
                ctx.violation("extra read from %s" % f.qn, f.where(), "a read is started from outside the read cycle (start, completion, resuming timer)", (), p.tu)
            continue
        for x in up:
            ctx.count("read_callers")
            todo.append(x)


def bound(ctx, e):
    """'room in the receive queue' is: queued bytes below the bound"""
    p = e.p
    fn = own_method(p, e.b, "is_recv_buffer_available")
    paths, ex = trace(p, fn, e.c, lambda ex, st, ev: None, force=True, opaque=lambda p, d: b02.is_q(p, d))
    ctx.analysed(fn)
    for q in paths:
        ctx.count("bound_tests")
        a, pol = ex.norm(q.val) if q.val[0] != "c" else (None, None)
        good = False
        if a is not None and a[0] == "lt":
            l = has(a[1], lambda t: t[0] == "f" and t[2] == e.queue)
            # size < bound   or   !(bound <= size)  ==  lt(size,bound)
            good = l and pol and has(a[2], lambda t: t[0] == "f" and t[2] == e.bound)
            good = good and has(a[1], lambda t: t[0] in ("call", "pure") and "size_in_byte" in str(t[1]))
        elif q.val[0] == "c":
            ff = full_fact(e, ex, q.facts)
            good = ff is not None and bool(q.val[1]) == ff
        if not good:
            ctx.violation("receive bound in %s" % fn.qn, q.where, "room in the receive queue is not 'queued bytes below the bound'", q.trail[-6:], p.tu)


def run(ctx):
    ctx.each(LIB + DEMO, unit)
    ctx.need("starter_paths", 40)
    ctx.need("completion_paths", 150)
    ctx.need("resume_paths", 60)
    ctx.need("request_paths", 40)
    ctx.need("start_paths", 40)
