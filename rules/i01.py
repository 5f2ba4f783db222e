RULE = """Receiving: everything a waiting thread's predicate looks at is changed only while the mutex of that wait is held, and every change that may satisfy
a waiter is followed by a notification before the changer waits, unlocks for good or returns. The waiter tests and enters its wait without unlocking in
between, asks for a read first when receiving is passive, reports success (and takes the messages) only when the hand-over state says so, a time-out only
when a timed wait said so, and always leaves the slot free and notifies. The two sides that answer it (messages arrived, link failed) answer whenever a
request is pending, with the matching state, and the first leaves the messages alone until they were taken; the error side runs for every failed read.
Sending: the message queued for a waiting caller carries the promise that caller waits on, sending is requested before waiting, and an unlimited wait is
used only when no time was given. Every place where messages leave the send queue or the in-flight store answers each promise exactly once: success when
the write succeeded, failure when it failed, when the link closed (in flight and still queued) and when the message was taken away or discarded."""
EXPLANATION = """Lock-state and notification automaton over every function that changes a waited-for member, path obligations over the waiting function
and its counterparts, iterator-loop accounting over every loop that answers promises; in every configuration with synchronous sending or receiving."""
ASSUMPTIONS = ["the condition variable re-tests its predicate under the mutex (predicate waits)", "a promise is answered once by the code that took the message out of the store",
               "a send call made after the link closed waits for the next link of that socket or its time limit"]
import b02, b03, d01, f01, locks, loops
from lib import *
from witness_units import LIB, DEMO

field_of = b02.field_of
READY = 0  # boost::future_status::ready
WAITS = ("wait", "wait_for", "timed_wait", "wait_until")


def is_cv(ev):
    return ev.obj is not None and "condition_variable" in ev.qn


def flds(t):
    return {s[2] for s in subterms(t) if s and s[0] == "f" and len(s) == 3 and s[1] == ("this",) and isinstance(s[2], int)}


def mk_label(p, c, e, hold):
    """lock, write, notify and wait events around the members a wait looks at"""
    def label(ex, st, ev):
        if ev.kind == "write" and field_of(ev.loc) in e["pred"] and ev.loc[1] == ("this",):
            old = None
            if field_of(ev.loc) == e["status"]:
                old = tuple(known(ex, st, e, i) for i in e["codes"])
            return ("W", field_of(ev.loc), ev.val, ev.line, old, len(st.rule))
        if ev.kind == "dtor" and any(l[0] == "LK" and l[1] == ev.loc for l in st.rule):
            return ("UL", ev.loc, ev.line, len(st.rule))
        if ev.kind != "call" or ev.d is None:
            return None
        n = ev.name
        d = p.decls[ev.d]
        if n == "<ctor>" and ev.args and field_of(ev.args[0]) in e["mutex"] and ("unique_lock" in ev.qn or "lock_guard" in ev.qn):
            return ("LK", ev.obj, ev.line)
        if n in ("lock", "unlock") and ev.obj is not None and (("unique_lock" in ev.qn) or field_of(ev.obj) in e["mutex"]):
            return ("LK" if n == "lock" else "UL", ev.obj, ev.line, len(st.rule)) if n != "lock" else ("LK", ev.obj, ev.line)
        if is_cv(ev) and n in ("notify_one", "notify_all"):
            return ("N", n, ev.line, len(st.rule))
        if is_cv(ev) and n in WAITS:
            a = b02.resolve_args(ex, st, ev)
            return ("WAIT", n, tuple(sorted(set().union(*[flds(x) for x in a[1:]]) if len(a) > 1 else ())), consts(a[-1], e["status"]), ev.res, tuple(b03.deep(ex, st, x) for x in a[1:-1]), ev.line, ev.site)
        if hold:
            return hold(ex, st, ev, d)
        return None
    return label


def known(ex, st, e, code):
    return truth_st(ex, st, ("bin", "==", ("c", code), ex.load(st, ("f", ("this",), e["status"]))))


def truth_st(ex, st, term):
    return truth(ex, st.facts, term)


def consts(t, f):
    """constants the predicate compares this member with"""
    out = set()
    for s in subterms(t):
        o = None
        if s and s[0] == "pure" and len(s) == 3 and s[1] in ("operator!=", "operator=="):
            o = s[2]
        elif s and s[0] == "bin" and s[1] in ("!=", "=="):
            o = s[2:]
        if o and f in set().union(*[flds(x) for x in o]):
            out |= {x[1] for y in o for x in subterms(y) if x and x[0] == "c" and isinstance(x[1], int)}
    return tuple(sorted(out))


def env(p, c):
    """the members waited for, read off the waits themselves"""
    e = {"mutex": set(), "pred": set(), "codes": set(), "waiters": []}
    b = base_class(p, c, NS + "socket")
    started = getter_field(p, b, "started")
    for fn in class_functions(p, c):
        w = [x for _, x in fn.calls() if x.get("d") is not None and p.decls[x["d"]]["n"] in WAITS and "condition_variable" in p.decls[x["d"]]["qn"]]
        if w:
            e["waiters"].append(fn)
    if not e["waiters"]:
        return None
    for x in p.classes[b].get("fs", []):
        d = p.decls[x]
        s = p.ty(d["ty"])["s"]
        if "mutex" in s and "shared_ptr" not in s:
            e["mutex"].add(x)
        k = p.ty(d["ty"])
        if "enum" in s or s.startswith("enum"):
            pass
    # the predicate's members: what the waiting functions' wait arguments mention
    for fn in e["waiters"]:
        paths, ex = trace(p, fn, c, lambda ex, st, ev: ("P", tuple(sorted(set().union(*[flds(x) for x in b02.resolve_args(ex, st, ev)[1:]])))) if ev.kind == "call" and ev.d is not None and is_cv(ev) and ev.name in WAITS else None, force=True,
                          opaque=("get_size_in_byte", "on_msg", "move_items_in", "dispatch_msg", "handled_msg"))
        for q in paths:
            for l in q.all("P"):
                e["pred"] |= set(l[1])
    # helpers whose lock comes in as a parameter
    e["started"] = started
    e["pred"] = {f for f in e["pred"] if f not in e["mutex"]}
    st = [f for f in e["pred"] if f != started]
    if len(st) != 1 or started not in e["pred"]:
        raise Broken("members of the waits' predicates: %s" % sorted(p.decls[f]["n"] for f in e["pred"]))
    e["status"] = st[0]
    e["codes"] = range(0, 6)
    e["b"] = b
    return e


def locked_at(labels):
    """is the mutex held after these labels"""
    held = {}
    for l in labels:
        if l[0] == "LK":
            held[l[1]] = True
        elif l[0] == "UL":
            held[l[1]] = False
    return any(held.values())


def unit(ctx, p):
    for c in p.leaf_classes(NS + "socket"):
        e = env(p, c)
        if e:
            receiving(ctx, p, c, e)
        b = base_class(p, c, NS + "socket")
        if any("::promise<" in p.ty(d["ty"])["s"] for d in p.decls if d and d.get("k") == "field") if isinstance(p.decls, list) else any("::promise<" in p.ty(d["ty"])["s"] for d in p.decls.values() if d and d.get("k") == "field"):
            sending(ctx, p, c)


# ---------------------------------------------------------------- receiving

def receiving(ctx, p, c, e):
    wait_states = set()
    cs = f01.callers(p)
    entry = [f for f in class_functions(p, c) if f.name == "sync_recv_msg"]
    fns = []
    for fn in class_functions(p, c):
        if p.decls[fn.id].get("ctor") or fn.name == "<dtor>" or fn.name == "reset" or f01.ctor_only(p, fn, cs):
            continue
        if any(x and x["k"] == "bin" and x["op"] == "=" and fn.st[fn.strip(x["c"][0])]["k"] == "mem" and fn.st[fn.strip(x["c"][0])]["d"] in e["pred"] for x in fn.st):
            fns.append(fn)
    # judge helpers in their callers
    work, seen = list(fns), {}
    while work:
        fn = work.pop()
        up = [p.fns[i] for i in cs.get(fn.id, ()) if i in p.fns and i != fn.id and p.fns[i].cls is not None]
        if fn.params and any("unique_lock" in p.ty(p.decls[x]["ty"])["s"] for x in fn.params) and up:
            work += up
        elif p.decls[fn.id].get("acc") == 2 and up and not any(fn.id in [d for _, d in f.fnrefs()] for f in p.fns.values()) and fn.name not in ("handle_error", "handle_msg", "close", "start"):
            work += up
        else:
            seen[fn.id] = fn
    traces = {}
    for fn in seen.values():
        traces[fn.id] = (fn,) + tracef(p, c, e, fn)
        for q in traces[fn.id][1]:
            for l in q.all("WAIT"):
                wait_states |= set(x for x in l[3] if x >= 0)
    for fn, paths, ex in traces.values():
        ctx.analysed(fn)
        changes(ctx, p, c, e, fn, paths, ex, wait_states)
    if not entry:
        return
    ok = requester(ctx, p, c, e, entry[0])
    answerers(ctx, p, c, e, [t for t in traces.values() if t[0].name != entry[0].name and t[0].name not in ("close", "start")], ok)
    failing(ctx, p, c, e)


def tracef(p, c, e, fn, hold=None):
    return trace(p, fn, c, mk_label(p, c, e, hold), force=True, fields=[p.decls[f]["n"] for f in e["pred"]], calls=lambda p, d: d["n"] in WAITS and "condition" in d["qn"] or d["n"] in ("sync_recv_waiting", "notify_one", "notify_all"),
                 opaque=lambda p, d: d["n"] in ("get_size_in_byte", "on_msg", "on_close", "after_close", "do_start", "set_timer", "stop_all_timer", "handled_msg", "dispatch_msg", "recv_msg", "stopped") and not (d["n"] == fn.name) or b02.is_q(p, d))


def changes(ctx, p, c, e, fn, paths, ex, wait_states):
    for q in paths:
        if q.kind == "throw":
            continue
        for i, l in enumerate(q.labels):
            if l[0] != "W":
                continue
            f, val, line, old = l[1], l[2], l[3], l[4]
            if f == e["started"] and val == ("c", 1):
                continue
            if f == e["started"] and fn.name == "start":
                continue  # the result of starting: nobody can be waiting for it to become false

            def bad(rule, msg):
                ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line), msg, q.trail[-12:], p.tu)
            ctx.count("changes")
            nm = p.decls[f]["n"]
            if not locked_at(q.labels[:i]):
                bad("unlocked change of %s" % nm, "a member that waiting threads test is changed without their mutex: a waiter between test and wait misses the change")
            if f == e["status"] and old is not None:
                kn = [k for k in range(len(old)) if old[k] is True]
                if kn and kn[0] not in wait_states:
                    continue  # nobody waits in that state
                if val and val[0] == "c" and kn and kn[0] == val[1]:
                    continue
                if not kn and all(old[s] is False for s in wait_states if s < len(old)):
                    continue
            rest = q.labels[i + 1:]
            n = next((j for j, x in enumerate(rest) if x[0] == "N"), None)
            w = next((j for j, x in enumerate(rest) if x[0] == "WAIT"), None)
            if n is None or w is not None and w < n:
                bad("silent change of %s" % nm, "a member that waiting threads test is changed and nobody is notified: a waiting thread sleeps on")


def requester(ctx, p, c, e, fn):
    """the function a thread calls to wait for messages; returns the hand-over state that means success"""
    def hold(ex, st, ev, d):
        if ev.name == "splice" or ev.name == "swap" and ev.obj is not None and ev.obj[0] == "param":
            return ("TAKE", ev.line)
        if ev.name == "recv_msg" and not d.get("ps"):
            return ("RD", ev.line)
        if ev.name == "stopped":
            return ("STOP", ev.res)
        return None
    na = codes(p)
    paths, ex = tracef(p, c, e, fn, hold)
    ctx.analysed(fn)
    success = set()
    b = e["b"]
    passive = any(p.decls[m]["n"] == "is_reading" for m in p.classes[b].get("ms", []))
    for q in paths:
        if q.kind == "throw":
            continue
        ctx.count("request_paths")

        def bad(rule, msg, line=None):
            ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-12:], p.tu)
        ws = [l for l in q.labels if l[0] == "W" and l[1] == e["status"]]
        wt = q.all("WAIT")
        v = q.val[1] if q.val and q.val[0] == "c" else None
        if not wt:
            if ws:
                bad("slot kept", "the waiting slot is changed by a call that does not wait")
            if v is None or v == na["SUCCESS"]:
                bad("false success", "success is reported although nothing was waited for")
            free = [l for l in ws]
            continue
        if v is None:
            bad("answer", "the answer of a wait is not definite")
            continue
        iw = q.index("WAIT")
        first = ws[0] if ws else None
        req = [l for l in ws if q.labels.index(l) < iw]
        if not req or req[-1][2][0] != "c":
            bad("not requested", "a thread waits without having announced that it does")
            continue
        REQ = req[-1][2][1]
        if len(wt) > 1:
            bad("waits twice", "one request waits twice")
        w = wt[0]
        if e["started"] not in w[2]:
            bad("close unnoticed", "the wait does not end when the link closes", w[6])
        if REQ not in w[3]:
            bad("wrong wait", "the wait does not test the state announced", w[6])
        ir = q.labels.index(req[-1])
        if not locked_at(q.labels[:ir]) or any(l[0] == "UL" for l in q.labels[ir:iw]):
            bad("unlocked request", "the mutex is not held from announcing the wait to waiting", w[6])
        # somebody else's request must not be overwritten
        old = req[-1][4]
        if old is not None and not any(k is True for k in old) and old[REQ] is not False:
            bad("slot taken twice", "a request is announced without looking whether another thread waits already", req[-1][3])
        if passive and not any(l[0] == "RD" for l in q.labels[:iw]):
            bad("no read", "with passive receiving a thread waits without asking for a read", w[6])
        timed = w[1] != "wait"
        dur = ("arg", 1)
        z = no_limit(ex, q.facts, dur)
        if not timed and z is not True:
            bad("unlimited wait", "a thread that gave a time limit waits without one", w[6])
        if timed and not any(has(a, lambda t: t == dur) for a in w[5]):
            bad("time limit", "the wait does not use the caller's time limit", w[6])
        got = truth(ex, q.facts, w[4]) if timed else None
        if timed and (got is False) != (v == na["TIMEOUT"]):
            bad("time-out answer", "a time-out is reported when none happened, or not reported", w[6])
        if not timed and v == na["TIMEOUT"]:
            bad("time-out answer", "a time-out is reported although no limit was given", w[6])
        # the state after the wait
        after = [a[1][1] if a[1][0] == "c" else a[2][1] for a, t in q.facts.items() if a[0] == "eq" and t and any(x[0] == "c" for x in a[1:]) and has(a, lambda s: s[0] == "v" and len(s) == 3 and field_of(s[1]) == e["status"] and s[2] == w[7])]
        if v == na["SUCCESS"]:
            if not after:
                bad("false success", "success is reported without a hand-over")
            success |= set(after)
        take = [l for l in q.labels if l[0] == "TAKE"]
        if (v == na["SUCCESS"]) != bool(take):
            bad("messages", "messages are taken although the wait failed, or left although it succeeded")
        fin = ws[-1]
        if q.labels.index(fin) < iw or fin[2][0] != "c" or fin[2][1] in (REQ,) or fin[2][1] in after:
            bad("slot kept", "the waiting slot is not free again after the wait")
        elif not any(l[0] == "N" for l in q.labels[q.labels.index(fin):]):
            pass  # reported by the change rule
        if any(l[0] == "UL" for l in q.labels[iw:q.labels.index(fin)]):
            bad("unlocked hand-over", "the mutex is released between the wait and freeing the slot")
        e["REQ"] = REQ
    if len(success) > 1:
        ctx.violation("hand-over state in %s" % fn.qn, fn.where(), "several states count as a successful hand-over", (), p.tu)
    if "REQ" not in e:
        raise Broken("no request state in %s" % fn.qn)
    return success


def codes(p):
    import c02
    r = dict(c02.sync_codes(p))
    if "TIMEOUT" not in r:
        raise Broken("result codes of synchronous calls")
    return r


def answerers(ctx, p, c, e, ts, success):
    arr = {}
    for fn, paths, ex in ts:
        for q in paths:
            if q.kind == "throw":
                continue
            ctx.count("answer_paths")
            ws = [l for l in q.labels if l[0] == "W" and l[1] == e["status"]]
            pend = truth(ex, q.facts, ("bin", "==", ("c", e["REQ"]), ("v", ("f", ("this",), e["status"]))))

            def bad(rule, msg, line=None):
                ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-12:], p.tu)
            if pend is None and any(l[0] == "LK" for l in q.labels):
                bad("request unseen", "whether a thread waits is not looked at")
            elif pend and not ws:
                bad("request unanswered", "a thread waits and is not answered")
            elif pend is False and ws:
                bad("answer without request", "the waiting slot is changed although no thread waits", ws[0][3])
            for l in ws:
                if l[2][0] == "c":
                    arr.setdefault(fn.id, set()).add(l[2][1])
                    if l[2][1] == e["REQ"]:
                        bad("request unanswered", "a waiting thread is told to go on waiting", l[3])
                    if success and l[2][1] in success:
                        i = q.labels.index(l)
                        if not any(x[0] == "WAIT" for x in q.labels[i:]):
                            bad("messages not awaited", "after a hand-over the messages are touched before they were taken", l[3])
    e["arr"] = arr
    e["success"] = success
    if not any(v & success for v in arr.values()):
        ctx.violation("nobody hands over in %s" % p.classes[c]["qn"], p.fns[list(arr)[0]].where() if arr else "", "no function ever answers a waiting thread with success", (), p.tu)


def failing(ctx, p, c, e):
    """every failed read answers with failure, every successful one does not"""
    import d02
    E = {i for i, v in e["arr"].items() if not (v & e["success"])}
    S = {i for i, v in e["arr"].items() if v & e["success"]}
    e1 = d01.Env(p, c)
    comps = d01.starter(d02._Null(), e1)
    for i in comps:
        fn = p.fns[i]
        paths, ex = trace(p, fn, c, lambda ex, st, ev: ("F", ev.line) if ev.kind == "call" and ev.d in E else ("S", ev.line) if ev.kind == "call" and ev.d in S else ("ERR", ev.line) if ev.kind == "call" and ev.name == "on_recv_error" else None,
                          force=True, opaque=lambda p, d: d["id"] in E or d["id"] in S or d["n"] in ("parse_msg", "do_recv_msg", "on_recv_error", "on_unpack_error", "pre_handle_msg", "error_out"))
        ctx.analysed(fn)
        for q in paths:
            if q.kind == "throw":
                continue
            err = d01.err_fact(q)
            ctx.count("completion_paths")
            if err is True and not q.all("F"):
                ctx.violation("failed read in %s" % fn.qn, q.where, "a read failed and the waiting thread is not told", q.trail[-10:], p.tu)
            if err is False and q.all("F"):
                ctx.violation("wrong answer in %s" % fn.qn, q.where, "the waiting thread is told the opposite of what happened", q.trail[-10:], p.tu)


# ---------------------------------------------------------------- sending

def promise(p, t):
    """owner of the promise a term goes through (location or value of the message), or None"""
    for s in subterms(t):
        if s and s[0] in ("f", "fv") and len(s) == 3 and isinstance(s[2], int) and "::promise<" in p.ty(p.decls[s[2]]["ty"])["s"]:
            return s[1]
    return None


def send_label(p, c, Q, extra=None):
    def label(ex, st, ev):
        if extra:
            l = extra(ex, st, ev)
            if l is not None:
                return l
        if ev.kind == "branch":
            o = promise(p, ev.cond)
            if o is not None:
                a, pol = ex.norm(ev.cond)
                t = ev.taken
                # != null
                c0 = ev.cond
                neg = False
                while c0 and c0[0] == "un" and c0[1] == "!":
                    c0, neg = c0[2], not neg
                if c0 and c0[0] == "bin" and c0[1] == "==":
                    neg = not neg
                return ("PB", o, t != neg, ev.line, len(st.rule))
            return loops.label(ex, st, ev)
        if ev.kind == "call" and ev.d is not None:
            d, n = p.decls[ev.d], ev.name
            if n == "set_value" and "promise" in ev.qn:
                o = promise(p, ev.obj)
                return ("SET", o, b03.deep(ex, st, ev.args[0]), ev.line, len(st.rule))
            if ev.obj is not None and field_of(ev.obj) == Q and b02.is_q(p, d) and not b02.is_q(p, p.decls[ev.frame.fn.id]):
                if n == "do_something_to_all":
                    return ("QALL", tuple(t for a in ev.args for t in targets(p, b03.deep(ex, st, a))), ev.line)
                if "dequeue" in n or n.startswith("move_items_out") or n == "swap" or n == "clear":
                    return ("OUT", n, ev.args[-1] if ev.args else None, ev.res, ev.line, len(st.rule))
            if n in ("clear", "swap") and ev.obj is not None and not b02.is_q(p, d):
                return ("CLR", ev.obj, ev.line, len(st.rule))
        return loops.label(ex, st, ev)
    return label


def opq(p, fn, extra=()):
    return lambda p, d: b02.is_q(p, d) or d["n"] in ("on_msg_send", "on_all_msg_send", "on_send_error", "do_send_msg", "send_msg", "on_msg_discard", "info_out", "del_socket", "clear_io_context_refs") and d["id"] != fn.id or d["n"] in extra


def sendq(p, b):
    fs = getter_fields(p, b, "is_send_buffer_available")
    q = [f for f in fs if p.ty(p.decls[f]["ty"]).get("cls") is not None]
    if len(q) != 1:
        raise Broken("send queue not identified")
    return q[0]


def sending(ctx, p, c):
    b = base_class(p, c, NS + "socket")
    Q = sendq(p, b)
    na = codes(p)
    S = b02.sender(p, c)
    # where the sender puts what it took
    fly = set()
    comps = set()
    paths, ex = trace(p, S, c, send_label(p, c, Q, lambda ex, st, ev: ("IO", tuple(t for t in targets(p, b02.resolve_args(ex, st, ev)) if t in p.fns)) if ev.kind == "call" and ev.d is not None and not ev.inlined and b02.is_write(p, p.decls[ev.d]) else None), prune=loops.prune, calls=lambda p, d: d["n"] == "set_value" or b02.is_write(p, d), force=True, opaque=opq(p, S, ("check_send_cc",)))
    for q in paths:
        for l in q.all("OUT"):
            if l[2] is not None and field_of(l[2]) is not None:
                fly.add(field_of(l[2]))
        for l in q.all("IO"):
            comps |= {t for t in l[1] if p.fns[t].cls is not None and len(p.fns[t].params) == 2}
    if not fly or not comps:
        raise Broken("in-flight store or write completion of %s" % p.classes[c]["qn"])
    for i in comps:
        completion(ctx, p, c, p.fns[i], Q, fly, na)
    closing(ctx, p, c, Q, fly, na)
    removals(ctx, p, c, Q, fly, na, S, comps)
    callers(ctx, p, c, Q, na)


def no_limit(ex, facts, dur):
    """is the (unsigned) time limit known to be zero: tested for equality or for being positive"""
    z = truth(ex, facts, ("bin", "==", T0, dur))
    if z is None:
        z = truth(ex, facts, ("bin", "<", T0, dur))
        z = None if z is None else not z
    return z


def is_fail(na, v):
    return v is not None and v[0] == "c" and v[1] not in (na["SUCCESS"],)


def answered(p, q, place, ok, is_list, site=None):
    """problems with answering the message(s) stored at `place` (a location) on this path; ok(v) tells the right answer"""
    out = []
    labels = q.labels
    if site is not None:
        alt = {l[2] for l in labels if l[0] == "LT" and l[2] and l[2][0] == "out" and l[2][1] == site}
        if len(alt) == 1 and not any(l[0] == "LT" and l[2] == place for l in labels):
            place = alt.pop()
    if is_list:
        its = [i for i in loops.iterations(labels) if i.c == place]
        tests = [l for l in labels if l[0] == "LT" and l[2] == place]
        if not tests:
            return ["not answered"], None
        for it in its:
            w = loops.stepping(it)
            if w:
                out.append("the loop answering waiting callers %s" % w)
        # promise tests and answers by element
        n = {}
        el = [("deref", it.x) for it in its]
        for x in el:
            pb = [l for l in labels if l[0] == "PB" and has(l[1], lambda s: s == x)]
            se = [l for l in labels if l[0] == "SET" and has(l[1], lambda s: s == x)]
            if len(se) > 1:
                out.append("a waiting caller is answered twice")
            elif se and not ok(se[0][2]):
                out.append("a waiting caller is given the wrong answer")
            elif not se and not any(l[2] is False for l in pb):
                out.append("a waiting caller is not answered")
            if se and any(l[2] is False for l in pb):
                out.append("a promise that does not exist is answered")
        last = max(i for i, l in enumerate(labels) if l[0] == "LT" and l[2] == place)
        return out, last
    pb = [l for l in labels if l[0] == "PB" and mine(l[1], place)]
    se = [(i, l) for i, l in enumerate(labels) if l[0] == "SET" and mine(l[1], place)]
    if len(se) > 1:
        out.append("a waiting caller is answered twice")
    elif se and not ok(se[0][1][2]):
        out.append("a waiting caller is given the wrong answer")
    elif not se and not any(l[2] is False for l in pb):
        return ["not answered"], None
    i = se[0][0] if se else max(i for i, l in enumerate(labels) if l[0] == "PB" and mine(l[1], place))
    return out, i


def mine(o, place):
    return has(o, lambda s: s == place) or has(o, lambda s: s[0] == "out")


def is_container(p, f):
    cl = p.ty(p.decls[f]["ty"]).get("cls")
    return cl is not None and p.classes[cl]["n"] in ("list", "vector", "deque")


def completion(ctx, p, c, fn, Q, fly, na):
    paths, ex = trace(p, fn, c, send_label(p, c, Q), prune=loops.prune, calls=("set_value",), force=True, opaque=opq(p, fn))
    ctx.analysed(fn)
    for q in paths:
        if q.kind == "throw":
            continue
        ctx.count("write_completions")
        err = d01.err_fact(q)
        if err is None:
            ctx.violation("error ignored in %s" % fn.qn, q.where, "a completed write is handled without looking at its error", q.trail[-8:], p.tu)
            continue
        ok = (lambda v: is_fail(na, v)) if err else (lambda v: v is not None and v[0] == "c" and v[1] == na["SUCCESS"])
        for f in fly:
            place = ("f", ("this",), f)
            bads, at = answered(p, q, place, ok, is_container(p, f))
            for m in bads:
                ctx.violation("answer in %s" % fn.qn, q.where, ("after a %s write: " % ("failed" if err else "successful")) + ("waiting callers are not answered" if m == "not answered" else m), q.trail[-12:], p.tu)
            cl = [i for i, l in enumerate(q.labels) if l[0] == "CLR" and l[1] == place]
            if not cl:
                ctx.violation("answered twice in %s" % fn.qn, q.where, "messages already answered stay in the in-flight store", q.trail[-12:], p.tu)
            elif at is not None and cl[0] < at:
                ctx.violation("answer in %s" % fn.qn, q.where, "the in-flight store is emptied before waiting callers are answered", q.trail[-12:], p.tu)


def closing(ctx, p, c, Q, fly, na):
    """the close hook of the most derived class down to the base"""
    b = base_class(p, c, NS + "socket")
    m = [x for x in p.classes[b].get("ms", []) if p.decls[x]["n"] == "on_close"]
    top = p.fns.get(p.final(c, m[0])) if m else None
    if top is None:
        raise Broken("close hook")
    paths, ex = trace(p, top, c, send_label(p, c, Q), prune=loops.prune, calls=("set_value",), force=True, inline_all=True, opaque=opq(p, top, ("get_matrix", "error_out", "debug_out", "stop_timer", "set_timer", "release_kcp", "unlock", "lock", "sub_io_context_refs", "prepare_reconnect")))
    ctx.analysed(top)
    good = {}
    for q in paths:
        if q.kind == "throw":
            continue
        ctx.count("close_paths")
        for f in fly:
            bads, at = answered(p, q, ("f", ("this",), f), lambda v: is_fail(na, v), is_container(p, f))
            for m in bads:
                ctx.violation("answer in %s" % top.qn, q.where, "when the link closes: " + ("callers whose message is in flight are not answered" if m == "not answered" else m), q.trail[-12:], p.tu)
        qa = q.all("QALL")
        if not any(answers_one(ctx, p, c, t, na) for l in qa for t in l[1]) and not [l for l in q.labels if l[0] == "LT" and field_of(l[2]) == Q]:
            ctx.violation("queued at close in %s" % top.qn, q.where, "when the link closes, callers whose message is still queued are not answered", q.trail[-12:], p.tu)


_one = {}


def answers_one(ctx, p, c, t, na):
    """does this function answer (with failure) the promise of the message given to it, exactly once, and forget it"""
    k = (p.tu, t)
    if k not in _one:
        fn = p.fns.get(t)
        r = False
        if fn is not None and fn.params:
            paths, ex = trace(p, fn, fn.cls, send_label(p, c, -1, lambda ex, st, ev: ("RST", promise(p, ev.obj)) if ev.kind == "call" and ev.d is not None and ev.name in ("reset", "swap") and ev.obj is not None and promise(p, ev.obj) is not None else None), prune=loops.prune, calls=("set_value",), force=True)
            r = bool(paths)
            for q in paths:
                s = q.all("SET")
                pb = q.all("PB")
                if len(s) > 1 or s and not is_fail(na, s[0][2]) or not s and not any(l[2] is False for l in pb) or s and not q.all("RST"):
                    r = False
            ctx.analysed(fn)
        _one[k] = r
    return _one[k]


def removals(ctx, p, c, Q, fly, na, S, comps):
    """every other place where messages leave the send queue"""
    skip = {S.id} | set(comps)
    cs = f01.callers(p)
    for fn in class_functions(p, c):
        if fn.id in skip or b02.is_q(p, p.decls[fn.id]) or p.decls[fn.id].get("ctor"):
            continue
        if not any(x["k"] == "mem" and x["d"] == Q for x in fn.st if x):
            continue
        names = [p.decls[x["d"]]["n"] for _, x in fn.calls() if x.get("d") is not None and b02.is_q(p, p.decls[x["d"]])]
        if not any("dequeue" in n or n.startswith("move_items_out") or n == "swap" for n in names):
            continue
        paths, ex = trace(p, fn, c, send_label(p, c, Q, lambda ex, st, ev: ("DISC", ev.line) if ev.kind == "call" and ev.d is not None and ev.name == "on_msg_discard" else None), prune=loops.prune, calls=("set_value",), force=True,
                          opaque=lambda p, d: opq(p, fn)(p, d) or d["n"] in ("calc_shrink_size",))
        ctx.analysed(fn)
        for q in paths:
            if q.kind == "throw":
                continue
            for i, o in enumerate(q.labels):
                if o[0] != "OUT" or o[2] is None:
                    continue
                if field_of(o[2]) in fly:
                    continue
                if o[3] is not None and truth(ex, q.facts, o[3]) is False:
                    continue
                ctx.count("removals")
                loc = o[2]
                lst = "dequeue" not in o[1]
                rest = Path()
                rest.labels, rest.facts = q.labels[i + 1:], q.facts
                bads, at = answered(p, rest, loc, lambda v: is_fail(na, v), lst, o[3][2] if o[3] and o[3][0] == "call" else None)
                for m in bads:
                    ctx.violation("taken away in %s" % fn.qn, fn.where(o[4]), "messages leave the send queue: " + ("callers waiting for them are not answered" if m == "not answered" else m), q.trail[-12:], p.tu)


def callers(ctx, p, c, Q, na):
    """the functions that queue a message and wait for it"""
    for fn in class_functions(p, c):
        if not any("future" in p.decls[x["d"]]["qn"] for _, x in fn.calls() if x.get("d") is not None and p.decls[x["d"]]["n"] in ("get", "wait", "wait_for", "timed_wait")):
            continue

        def label(ex, st, ev):
            if ev.kind != "call" or ev.d is None:
                return None
            d, n = p.decls[ev.d], ev.name
            if b02.is_q(p, d) and ev.obj is not None and field_of(ev.obj) == Q and n in b03.INS:
                return ("INS", ev.res, ev.args[0], ev.line)
            if n == "send_msg" and not d.get("ps"):
                return ("KICK", ev.line)
            if "future" in ev.qn and n in ("wait", "wait_for", "timed_wait", "get") and ev.obj is not None:
                return ("FUT", n, ev.obj, ev.res, tuple(b03.deep(ex, st, x) for x in b02.resolve_args(ex, st, ev)), ev.line)
            if n == "get_future" and "promise" in ev.qn:
                return ("GETF", ev.obj, ev.line)
            if n == "check_and_create_promise" and ev.args:
                return ("PROM", ev.obj, ev.args[0], ev.line)
            if n in ("back", "front") and ev.obj is not None and ev.obj[0] in ("var",):
                return ("END", n, ev.obj, ev.res)
            return None
        paths, ex = trace(p, fn, c, label, force=True, opaque=lambda p, d: b02.is_q(p, d) or d["n"] in ("send_msg", "error_out", "stopped"), calls=lambda p, d: d["n"] == "check_and_create_promise")
        ctx.analysed(fn)
        dur = [i for i, x in enumerate(fn.params) if p.ty(p.decls[x]["ty"])["s"] in ("unsigned int", "unsigned", "int", "size_t", "unsigned long")]
        dur = ("arg", dur[0]) if dur else None
        for q in paths:
            if q.kind == "throw":
                continue
            ins = [l for l in q.all("INS")]
            fut = q.all("FUT")
            ctx.count("caller_paths")

            def bad(rule, msg, line=None):
                ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-12:], p.tu)
            if not ins:
                if fut:
                    bad("wait for nothing", "a caller waits although no message was queued", fut[0][5])
                continue
            i = q.index("INS")
            res = truth(ex, q.facts, ins[-1][1]) if ins[-1][1] is not None else True
            if res is False:
                if fut:
                    bad("wait for nothing", "a caller waits although its message was not queued", fut[0][5])
                continue
            if not fut:
                bad("no wait", "a synchronous call returns without waiting", ins[0][3])
                continue
            k = q.index("KICK")
            if k < i or k > q.index("FUT"):
                bad("not sent", "a caller waits without sending having been requested after its message was queued", fut[0][5])
            pr = [l for l in q.all("PROM") if l[2] == ("c", 1)]
            if not pr or q.labels.index(pr[0]) > i:
                bad("no promise", "the message queued carries no promise", ins[0][3])
            else:
                o = pr[0][1]
                if o != ins[0][2] and not has(o, lambda s: s[0] == "pure" and s[1] == "back"):
                    bad("wrong promise", "the promise waited on does not belong to the last message queued", pr[0][3])
            if not q.all("GETF") or q.index("GETF") > i:
                bad("late future", "the promise's future is fetched after the message was queued", ins[0][3])
            z = no_limit(ex, q.facts, dur) if dur else None
            timed = [l for l in fut if l[1] in ("wait_for", "timed_wait")]
            got = [l for l in fut if l[1] == "get"]
            if got and not timed and z is not True:
                bad("unlimited wait", "a caller that gave a time limit waits without one", got[0][5])
            for l in timed:
                if dur and not any(has(a, lambda t: t == dur) for a in l[4]):
                    bad("time limit", "the wait does not use the caller's time limit", l[5])
                ok = None if l[3] is None else truth(ex, q.facts, l[3] if l[1] == "timed_wait" else ("bin", "==", ("c", READY), l[3]))
                if ok is None and l[3] is not None and l[1] != "timed_wait":
                    late = truth(ex, q.facts, ("bin", "==", ("c", READY + 1), l[3]))
                    ok = None if late is None else not late
                if ok is not None and ok != bool(got) or ok is None and got:
                    bad("time limit", "the answer is fetched although the time limit passed, or not fetched although it is there", l[5])
            if q.val is not None and q.val[0] == "c":
                if q.val[1] != na["TIMEOUT"] or not timed:
                    bad("answer", "the answer given to a waiting caller is not the message's", fut[-1][5])
            elif got and q.val != got[-1][3] and not has(q.val, lambda t: t == got[-1][3]):
                bad("answer", "the answer given to a waiting caller is not the message's", got[-1][5])


def run(ctx):
    ctx.each(["sync", "psync", "wssync"], unit)
    ctx.need("changes", 10)
    ctx.need("request_paths", 8)
    ctx.need("write_completions", 20)
    ctx.need("close_paths", 4)
    ctx.need("removals", 8)
    ctx.need("caller_paths", 20)
