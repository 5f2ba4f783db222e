RULE = """The delivery function takes a message from the receive queue only when it holds none, offers exactly one held message (or the queue) to the
delivery hook, and afterwards: declined, keeps it held and arms the retry timer; accepted, gives up the hold and queues itself again; nothing to
deliver, leaves no hold behind (and, if it drops a hold, queues itself again). The retry timer queues the delivery function and ends. Queuing is
skipped only while a hold exists. The function that hands on unpacked messages moves every one of them, once and in order, into the receive queue and
queues a delivery afterwards, or gives them to the in-place consumer and hands on whatever is left. Every read that produced messages hands them on
exactly once. The delivery hook is called from the delivery function only, and the hold is changed by nothing else on a live socket."""
EXPLANATION = """Path enumeration with branch facts over the delivery function, its queuing function, its retry timer, the hand-on function and the read
completions in every concrete socket class of every configuration; iterator-loop accounting for the element-wise transfer."""
ASSUMPTIONS = ["the delivery function runs only in the delivery strand (B01)", "a hook that reports 'nothing handled' left the messages alone",
               "queue operations report success unless memory is exhausted"]
import b02, d01, f01, loops
from lib import *
from witness_units import LIB, DEMO

field_of = b02.field_of


class Env:
    def __init__(self, p, c):
        self.p, self.c = p, c
        self.e1 = d01.Env(p, c)
        self.b, self.queue = self.e1.b, self.e1.queue
        fns = class_functions(p, c)
        self.D = [f for f in fns if f.name != "on_msg_handle" and any(x.get("d") is not None and p.decls[x["d"]]["n"] == "on_msg_handle" and p.decls[x["d"]].get("virt") for _, x in f.calls())]
        # a helper that calls the hook is judged inside the function that is queued
        refd = {d for f in p.fns.values() for _, d in f.fnrefs()}
        up, cs = set(), f01.callers(p)
        todo = [f.id for f in self.D]
        while todo:
            i = todo.pop()
            if i in refd:
                up.add(i)
                continue
            todo += [x for x in cs.get(i, ()) if x in p.fns and x not in up and x != i]
        self.D = [p.fns[i] for i in up if i in p.fns]
        self.flag = None


def flags(e, D):
    """bool members the delivery function writes"""
    p = e.p
    out = set()
    for f in class_functions(p, e.c):
        if f.id != D.id and f.id not in below(p, D):
            continue
        for x in f.st:
            if x and x["k"] == "bin" and x["op"] == "=":
                l = f.st[f.strip(x["c"][0])]
                if l["k"] == "mem" and p.decls[l["d"]]["k"] == "field" and is_bool(p, p.decls[l["d"]]):
                    out.add(l["d"])
    return out


_below = {}


def below(p, D):
    k = (p.tu, D.id)
    if k not in _below:
        seen, todo = set(), [D.id]
        while todo:
            i = todo.pop()
            if i in seen or i not in p.fns:
                continue
            seen.add(i)
            todo += [x["d"] for _, x in p.fns[i].calls() if x.get("d") is not None and p.decls[x["d"]]["n"] not in ("set_timer", "on_msg_handle", "post_in_dis_strand")]
        _below[k] = seen
    return _below[k]


def mk_label(e, D, extra=None):
    p = e.p

    def label(ex, st, ev):
        if extra is not None:
            l = extra(ex, st, ev)
            if l is not None:
                return l
        if ev.kind == "write" and e.flag is not None and ev.loc == ("f", ("this",), e.flag):
            return ("FLAG", ev.val, ev.line, len(st.rule))
        if ev.kind != "call" or ev.d is None:
            return None
        d, n = p.decls[ev.d], ev.name
        if n == "on_msg_handle" and not ev.inlined:
            return ("HOOK", ev.args[0], ev.res, ev.line)
        if ev.obj is not None and field_of(ev.obj) == e.queue and b02.is_q(p, d):
            if "dequeue" in n or "move_items_out" in n:
                return ("DEQ", ev.args[0], ev.res, ev.line)
            if n.startswith("move_items_in") or n.startswith("enqueue"):
                return ("MOVE", ev.args[0], n, ev.line, len(st.rule))
            if n in ("is_empty", "empty", "size"):
                return ("QE", ev.res, ev.line)
        if n in ("set_timer", "create_or_update_timer", "update_timer_info") and not ev.inlined:
            a = b02.resolve_args(ex, st, ev)
            return ("TM", tuple(t for t in targets(p, a) if t in p.fns), a[0] if a else None, ev.line)
        if not ev.inlined and n not in ("bind", "<ctor>", "operator,", "unlambda", "ref", "cref", "if_then_else_return"):
            if D is not None and D.id in targets(p, b02.resolve_args(ex, st, ev)):
                return ("POST", ev.name, ev.line, len(st.rule))
        return None
    return label


def opaque(e, D, more=()):
    def op(p, d):
        if b02.is_q(p, d) or d["n"] in ("on_msg_handle", "set_timer", "on_msg", "debug_out", "get_size_in_byte", "post_strand", "dispatch_strand", "post_in_dis_strand", "dispatch_in_dis_strand", "handled_msg", "sync_recv_waiting") + tuple(more):
            return True
        return False
    return op


def accepted(ex, q, res):
    z = truth(ex, q.facts, ("bin", "==", T0, res))
    if z is not None:
        return not z
    t = truth(ex, q.facts, res)
    if t is None:
        t = truth(ex, q.facts, ("bin", "<", T0, res))
    return t


def val(ex, q, v):
    return bool(v[1]) if v and v[0] == "c" else truth(ex, q.facts, v) if v else None


def unit(ctx, p):
    for c in p.leaf_classes(NS + "socket"):
        e = Env(p, c)
        if len(e.D) != 1:
            raise Broken("delivery function of %s: %d candidates" % (p.classes[c]["qn"], len(e.D)))
        D = e.D[0]
        fl = flags(e, D)
        tm = set()
        # the hold is the flag whose value at entry decides whether a message is taken from the queue or whether queuing is skipped
        G = queuers(p, D)
        cand = [f for f in fl if any(touches(g, {p.decls[f]["n"]}) for g in G if g.id != D.id)] or list(fl)
        if len(cand) != 1:
            raise Broken("delivery hold of %s: %s" % (p.classes[c]["qn"], [p.decls[f]["n"] for f in cand]))
        e.flag = cand[0]
        delivery(ctx, e, D, tm)
        for t, i in tm:
            retry(ctx, e, D, p.fns[t], i)
        if not tm:
            ctx.violation("no retry in %s" % p.classes[c]["qn"], D.where(), "a declined message is never offered again", (), p.tu)
        Q = []
        for g in G:
            if g.id != D.id and g.id not in {t for t, _ in tm}:
                queue_one(ctx, e, D, g)
                Q.append(g)
        M = handon(ctx, e, D, Q)
        reads(ctx, e, M)
        confined(ctx, e, D, {t for t, _ in tm})


def queuers(p, D):
    return [f for f in p.fns.values() if any(d == D.id for _, d in f.fnrefs())]


def delivery(ctx, e, D, tm):
    p = e.p
    paths, ex = trace(p, D, e.c, mk_label(e, D), force=True, opaque=opaque(e, D), fields=[p.decls[e.flag]["n"]],
                      calls=lambda p, d: d["n"] in ("on_msg_handle", "set_timer", "post_in_dis_strand") or b02.is_q(p, d))
    ctx.analysed(D)
    for q in paths:
        if q.kind == "throw":
            continue
        ctx.count("delivery_paths")

        def bad(rule, msg, line=None):
            ctx.violation("%s in %s" % (rule, D.qn), D.where(line) if line else q.where, msg, q.trail[-12:], p.tu)
        held = truth(ex, q.facts, ("v", ("f", ("this",), e.flag)))
        hooks = q.all("HOOK")
        fl = q.all("FLAG")
        end = val(ex, q, fl[-1][1]) if fl else held
        posts, tms = q.all("POST"), [l for l in q.all("TM")]
        deqs = q.all("DEQ")
        if len(hooks) > 1:
            bad("two deliveries", "one run of the delivery function calls the delivery hook twice", hooks[1][3])
            continue
        got = [l for l in deqs if truth(ex, q.facts, l[2]) is True]
        for l in deqs:
            if held is not False:
                bad("held message lost", "a message is taken from the queue although a declined one may still be held", l[3])
        if not hooks:
            if got:
                bad("message lost", "a message is taken from the queue and not offered to the application", got[0][3])
            if end is not False and not posts and not tms:
                bad("hold kept", "nothing is delivered but the hold stays: no delivery is ever queued again")
            if held is not False and end is False and not posts:
                bad("stranded", "a hold is dropped without looking at the queue again: a message queued meanwhile is stranded")
            if held is not True and any(val(ex, q, l[1]) for l in fl) and not posts and not tms:
                bad("stranded", "a hold is taken before the queue is looked at and dropped afterwards: a message queued meanwhile is stranded")
            continue
        h = hooks[0]
        whole = h[1] == ("f", ("this",), e.queue) or field_of(h[1]) == e.queue
        if whole:
            em = [val(ex, q, l[1]) for l in q.all("QE")]
            em += [not v if a[0] == "lt" else v for a, v in q.facts.items() if has(a, lambda t: t[0] == "f" and t[2] == e.queue) and a[0] in ("b",)]
            if not any(x is False or x is True for x in em):
                bad("spurious delivery", "the delivery hook may be called with nothing to deliver", h[3])
        else:
            if not got and held is not True:
                bad("spurious delivery", "the delivery hook may be called with nothing to deliver", h[3])
            if any(l[1] != h[1] for l in got):
                bad("wrong message", "the message offered is not the one taken from the queue", h[3])
            if h[1][0] != "f":
                bad("message not kept", "the offered message does not outlive the delivery: a declined one is lost", h[3])
        ok = accepted(ex, q, h[2])
        if ok is None:
            bad("answer ignored", "the application's answer to a delivery is not looked at", h[3])
            continue
        after = q.labels[q.index("HOOK"):]
        if ok:
            if end is not False:
                bad("offered again", "an accepted message stays held and is offered again" if not whole else "the hold stays after an accepted delivery: no delivery is queued any more", h[3])
            n = len([l for l in after if l[0] == "POST"])
            fi = max([i for i, l in enumerate(q.labels) if l[0] == "FLAG"] or [0])
            if n == 0 and any(l[0] == "QE" and i > fi and val(ex, q, l[1]) is True for i, l in enumerate(q.labels)):
                n = 1  # nothing left to deliver, seen after the hold was given up
            if n != 1 and not (n == 0 and tms):
                bad("delivery stops" if n == 0 else "deliveries multiply", "after an accepted message the delivery function queues itself %d times" % n, h[3])
        else:
            if end is not True:
                bad("declined message lost", "a declined message is not held: the next one is offered first or never queued", h[3])
            if not tms:
                bad("no retry", "a declined message is kept but no timer is armed to offer it again", h[3])
            if [l for l in after if l[0] == "POST"]:
                bad("busy retry", "a declined message is offered again at once as well as after the interval", h[3])
            for l in tms:
                for t in l[1]:
                    tm.add((t, l[2]))


def retry(ctx, e, D, fn, i):
    p = e.p
    if fn.id == D.id:
        return
    args = None
    if fn.params and i and i[0] == "c":
        def args(ex, st, fr):
            st.store[("var", fn.params[0], 0)] = i
    paths, ex = trace(p, fn, e.c, mk_label(e, D), force=True, args=args, opaque=opaque(e, D))
    ctx.analysed(fn)
    for q in paths:
        if q.kind == "throw":
            continue
        ctx.count("retry_paths")
        if not q.all("POST"):
            ctx.violation("retry in %s" % fn.qn, q.where, "the retry timer does not queue the delivery function", q.trail[-8:], p.tu)
        if q.val != T0:
            ctx.violation("retry goes on in %s" % fn.qn, q.where, "the retry timer keeps ticking after it queued a delivery", q.trail[-8:], p.tu)


def queue_one(ctx, e, D, fn):
    p = e.p
    paths, ex = trace(p, fn, e.c, mk_label(e, D), force=True, opaque=opaque(e, D))
    ctx.analysed(fn)
    for q in paths:
        if q.kind == "throw":
            continue
        ctx.count("queue_paths")
        if not q.all("POST") and truth(ex, q.facts, ("v", ("f", ("this",), e.flag))) is not True:
            ctx.violation("queuing in %s" % fn.qn, q.where, "a delivery is not queued although none is held", q.trail[-8:], p.tu)


def handon(ctx, e, D, Q):
    """functions that put messages into the receive queue"""
    p = e.p
    q_ids = {g.id for g in Q}
    out = []
    for fn in class_functions(p, e.c):
        if any(p.classes[b]["qn"] == NS + "queue" for b in p.bases(fn.cls)):
            continue
        if not any(x["k"] == "mem" and x["d"] == e.queue for x in fn.st if x) or not any(
                x.get("d") is not None and p.decls[x["d"]]["n"].startswith(("move_items_in", "enqueue")) for _, x in fn.calls()):
            continue
        # judged where the messages come from: a helper without the source is judged in its callers
        out.append(fn)
    cs = f01.callers(p)
    fin = []
    for fn in out:
        if fn.params:
            fin += [p.fns[i] for i in cs.get(fn.id, ()) if i in p.fns]
        else:
            fin.append(fn)
    names = [p.decls[f]["n"] for f in source_fields(e)]

    def extra(ex, st, ev):
        l = loops.label(ex, st, ev)
        if ev.kind == "call" and ev.d is not None:
            d, n = p.decls[ev.d], ev.name
            if n == "on_msg" and d.get("virt") and not ev.inlined:
                return ("ONMSG", ev.args[0], ev.res, ev.line)
            if ev.d in q_ids:
                return ("POST", n, ev.line, len(st.rule))
            if ev.obj is not None and field_of(ev.obj) in source_fields(e):
                if n in ("empty",):
                    return ("EMPTY", ev.res, ev.line, len(st.rule))
                if n in ("clear", "swap", "splice"):
                    return ("CLEAR", ev.line, len(st.rule))
                if n in ("emplace_back", "push_back"):
                    return ("FILL", ev.line, len(st.rule))
            if n in ("wait", "wait_for", "timed_wait") and ev.obj is not None and "condition" in ev.qn:
                a = b02.resolve_args(ex, st, ev)
                fs = {t[2] for x in a[1:] for t in subterms(x) if t and t[0] == "f" and len(t) == 3 and t[1] == ("this",)}
                return ("WAIT", tuple(sorted(fs)) if e.e1.started in fs else (), ev.line, ev.site)
        return l
    ids = set()
    for fn in {f.id: f for f in fin}.values():
        ids.add(fn.id)
        paths, ex = trace(p, fn, e.c, mk_label(e, D, extra), force=True, opaque=lambda p, d: opaque(e, D)(p, d) or d["id"] in q_ids, inline_all=False,
                          calls=lambda p, d: b02.is_q(p, d) or d["id"] in q_ids)
        ctx.analysed(fn)
        for q in paths:
            if q.kind == "throw":
                continue
            ctx.count("handon_paths")

            def bad(rule, msg, line=None):
                ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-12:], p.tu)
            mv = q.all("MOVE")
            if not mv:
                if d01.closed_wait(e.e1, q):
                    ctx.count("closed_while_waiting")
                    continue
                last = max([q.rindex("WAIT")] + [i for i, l in enumerate(q.labels) if l[0] == "ONMSG" and gave(ex, q, l[2]) is not False])
                if not any(l[0] == "EMPTY" and i > last and val(ex, q, l[1]) is True for i, l in enumerate(q.labels)):
                    bad("messages dropped", "received messages are neither consumed nor put into the receive queue")
                continue
            if len(mv) > 1:
                bad("queued twice", "received messages are put into the receive queue twice", mv[1][3])
            im = q.index("MOVE")
            if not any(l[0] == "POST" for l in q.labels[im:]):
                bad("no delivery queued", "messages are put into the receive queue and no delivery is queued afterwards", mv[0][3])
            its = [i for i in loops.iterations(q.labels[:im]) if field_of(i.c) in source_fields(e)]
            for i in its:
                w = loops.stepping(i)
                if w:
                    bad("transfer", "the loop handing on received messages %s" % w, i.line)
                    continue
                t = loops.transfers(i, ("swap", "operator=", "emplace_back", "push_back", "emplace_front", "push_front"))
                if len(t) != 1:
                    bad("transfer", "a received message is handed on %d times" % len(t), i.line)
                elif any(d[0] == "deref" for d in t[0][0]) and len({x[0] for x in i.incs}) < 2:
                    bad("transfer", "received messages are all handed on to the same place", i.line)
                elif "front" in t[0][1][1]:
                    bad("transfer", "received messages are handed on in reverse order", i.line)
            if its and q.index("CLEAR") < 0:
                bad("source kept", "messages handed on stay in the list they came from: they are delivered again", mv[0][3])
            elif its and q.index("CLEAR") < min(i for i, l in enumerate(q.labels) if l[0] == "LT"):
                bad("source cleared early", "received messages are cleared before they are handed on", mv[0][3])
    if not ids:
        raise Broken("nothing puts messages into the receive queue")
    return ids


_src = {}


def source_fields(e):
    """members of the socket that collect unpacked messages: list members the class hands to on_msg/parse"""
    k = (e.p.tu, e.b)
    if k not in _src:
        p = e.p
        out = set()
        for d in p.classes[e.b].get("fs", []):
            c = p.ty(p.decls[d]["ty"]).get("cls")
            if c is not None and p.classes[c]["n"] in ("list", "vector", "deque") and not any(p.classes[b]["qn"] == NS + "queue" for b in p.bases(c)):
                out.add(d)
        _src[k] = out
    return _src[k]


def gave(ex, q, res):
    t = truth(ex, q.facts, ("bin", ">", res, T0))
    if t is None:
        z = truth(ex, q.facts, ("bin", "==", res, T0))
        t = None if z is None else not z
    return t


def reads(ctx, e, M):
    """every read that produced messages hands them on exactly once"""
    p = e.p
    comps = d01.starter(_Null(), e.e1)

    def label(ex, st, ev):
        if ev.kind == "call" and ev.d is not None:
            if ev.d in M and not ev.inlined:
                return ("HAND", ev.line, len(st.rule))
            if ev.name == "parse_msg" and not ev.inlined and not any(l[0] == "PARSE" for l in st.rule):
                return ("PARSE", ev.line)
        return loops.label(ex, st, ev)
    for i in comps:
        fn = p.fns[i]
        paths, ex = trace(p, fn, e.c, label, force=True, calls=lambda p, d: d["id"] in M or d["n"] == "parse_msg", opaque=lambda p, d: d["id"] in M or d["n"] in ("parse_msg", "do_recv_msg", "on_recv_error", "on_unpack_error", "pre_handle_msg", "handle_error", "error_out"))
        ctx.analysed(fn)
        for q in paths:
            if q.kind == "throw":
                continue
            ctx.count("completion_paths")
            n = len(q.all("HAND"))
            err = d01.err_fact(q)

            def bad(rule, msg, line=None):
                ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-12:], p.tu)
            if n > 1:
                bad("handed on twice", "the messages of one read are handed on twice")
            if q.all("PARSE"):
                if n == 0:
                    bad("not handed on", "a read whose bytes were unpacked does not hand its messages on")
                elif q.index("HAND") < q.index("PARSE"):
                    bad("not handed on", "messages are handed on before the bytes are unpacked")
            elif err is False and n == 0 and not d01.zero_bytes(ex, q):
                bad("not unpacked", "the bytes of a successful read are not unpacked")
            elif err is False and not d01.zero_bytes(ex, q):
                bad("not unpacked", "the bytes of a successful read are not unpacked")
            for it in loops.iterations(q.labels):
                t = loops.transfers(it, ("emplace_back", "push_back", "emplace_front", "push_front", "ref", "<ctor>"))
                w = loops.stepping(it)
                if w:
                    bad("transfer", "the loop over unpacked messages %s" % w, it.line)
                elif not t:
                    bad("transfer", "an unpacked message is left out", it.line)


class _Null:
    def violation(self, *a, **k):
        pass
    count = analysed = violation


def confined(ctx, e, D, tm):
    """who writes the hold"""
    p = e.p
    cs = f01.callers(p)
    ok = below(p, D) | {D.id}

    def fine(i, seen=()):
        if i in ok or i not in p.fns:
            return i in ok
        f = p.fns[i]
        if p.decls[i].get("ctor") or f.name == "reset":
            return True
        c = [x for x in cs.get(i, ()) if x != i]
        return bool(c) and i not in seen and all(fine(x, seen + (i,)) for x in c)
    for fn in class_functions(p, e.c):
        w = False
        for x in fn.st:
            if x and x["k"] == "bin" and x["op"] == "=":
                l = fn.st[fn.strip(x["c"][0])]
                if l["k"] == "mem" and l["d"] == e.flag:
                    w = True
        if w:
            ctx.count("hold_writers")
            if not fine(fn.id):
                ctx.violation("hold changed in %s" % fn.qn, fn.where(), "the delivery hold of a live socket is changed outside the delivery function", (), p.tu)
        if fn.id not in ok and fn.name != "on_msg_handle":
            for _, x in fn.calls():
                if x.get("d") is not None and p.decls[x["d"]]["n"] == "on_msg_handle" and p.decls[x["d"]].get("virt"):
                    ctx.violation("delivery in %s" % fn.qn, fn.where(x["l"]), "the delivery hook is called outside the delivery function", (), p.tu)


def run(ctx):
    ctx.each(LIB + DEMO, unit)
    ctx.need("delivery_paths", 60)
    ctx.need("retry_paths", 20)
    ctx.need("queue_paths", 40)
    ctx.need("handon_paths", 100)
    ctx.need("completion_paths", 60)
