RULE = """In every overload of every send function the caller's priority flag is handed on unchanged and decides, at the end of the chain, between the
front and the back of the send queue; the queue's front operations put items at the very front and its other operations behind everything, and
items leave from the front. Nothing else in the library puts a message anywhere but at the end of a message container, takes one from the end,
or walks a message container backwards."""
EXPLANATION = """Value flow of the priority argument through every instantiated overload down to the queue operation, the insertion and removal
position of every operation of every queue class, and a program-wide enumeration of calls that could reorder a message container."""
ASSUMPTIONS = ["the containers keep the order in which items were put in (list semantics)", "an application's own on_msg / on_msg_handle keeps the order of what it leaves behind"]
import qmodel
from lib import *
from witness_units import LIB, DEMO

INS = {"enqueue": 0, "enqueue_": 0, "move_items_in": 0, "move_items_in_": 0, "enqueue_front": 1, "enqueue_front_": 1, "move_items_in_front": 1, "move_items_in_front_": 1}
WAITS = ("wait_for", "timed_wait", "wait")


def isb(p, pd):
    return p.ty(p.decls[pd]["ty"])["s"] in ("bool", "_Bool")


def is_queue_op(p, d):
    return d["n"] in INS and d.get("cls") is not None and any(p.classes[b]["qn"] == NS + "queue" for b in p.bases(d["cls"]))


def sends(p):
    """(entry functions taking (.., can_overflow, prior), direct functions taking (.., prior))"""
    k = p.tu
    if k not in _s:
        E, D = {}, {}
        for fn in p.fns.values():
            n, ps = fn.name, fn.params
            if fn.cls is None or "send" not in n and "broadcast" not in n or "msg" not in n:
                continue
            if len(ps) >= 3 and isb(p, ps[-1]) and isb(p, ps[-2]):
                E[fn.id] = fn
            elif n.startswith("do_direct") and len(ps) >= 2 and isb(p, ps[-1]):
                D[fn.id] = fn
        _s[k] = (E, D)
    return _s[k]


_s = {}


def entry_ids(p):
    """declarations (with or without body) that look like send functions"""
    k = p.tu
    if k not in _e:
        E, D = set(), set()
        for i, d in p.decls.items() if isinstance(p.decls, dict) else enumerate(p.decls):
            if not d or d.get("k") not in ("method", "fn", "func", "function") and "ps" not in d:
                continue
            ps = d.get("ps") or []
            n = d.get("n") or ""
            if "msg" not in n or ("send" not in n and "broadcast" not in n):
                continue
            b = [p.ty(x["ty"])["s"] in ("bool", "_Bool") for x in ps]
            if len(ps) >= 3 and b[-1] and b[-2]:
                E.add(d["id"])
            elif n.startswith("do_direct") and len(ps) >= 2 and b[-1]:
                D.add(d["id"])
        _e[k] = (E, D)
    return _e[k]


_e = {}


def make_label(p, fn):
    E, D = entry_ids(p)

    def val(ex, st, ev, i):
        v = ev.args[i]
        if v and v[0] in ("var", "f", "deref", "tmp", "param"):
            v = ex.load(st, v)
        return v

    def label(ex, st, ev):
        if ev.kind == "call" and ev.d is not None:
            d = p.decls[ev.d]
            if ev.d in E and ev.d != fn.id:
                return ("E", val(ex, st, ev, -2), val(ex, st, ev, -1), ev.res, ev.name, ev.line)
            if ev.d in D and ev.d != fn.id:
                return ("D", val(ex, st, ev, -1), ev.res, ev.args[0], ev.name, ev.line)
            if is_queue_op(p, d):
                return ("Q", INS[ev.name], ev.res, ev.args[0], ev.name, ev.line)
            if ev.name in ("shrink_send_buffer", "is_send_buffer_available"):
                return ("bound", ev.res, ev.name, ev.line)
            if ev.name == "pack_msg":
                return ("pack", ev.res, tuple(ev.args), ev.line)
            if ev.name == "send_msg" and not d.get("ps"):
                return ("kick",)
            if ev.name in ("do_something_to_all",):
                return ("all", tuple(deep(ex, st, a) for a in ev.args), ev.line)
            if ev.name in WAITS and "future" in ev.qn:
                return ("wait",)
        return None
    return label


def deep(ex, st, v):
    for _ in range(5):
        if v and v[0] in ("tmp", "var"):
            w = ex.load(st, v)
            if w == v or w == ("v", v):
                break
            v = w
    return v


def opaque(p, fn):
    E, D = entry_ids(p)
    return lambda p, d: (d["id"] in E or d["id"] in D) and d["id"] != fn.id or is_queue_op(p, d) or d["n"] in ("shrink_send_buffer", "is_send_buffer_available", "pack_msg", "do_something_to_all", "unified_out", "error_out", "stopped") or (d["n"] == "send_msg" and not d.get("ps"))


def explore(p, fn):
    k = (p.tu, fn.id)
    if k not in _x:
        E, D = entry_ids(p)
        _x[k] = trace(p, fn, fn.cls, make_label(p, fn), calls=lambda p, d: d["id"] in E or d["id"] in D or is_queue_op(p, d), opaque=opaque(p, fn), force=True,
                      unknown=lambda ex, ev: False)
    return _x[k]


_x = {}


def bound_tail(p, args):
    """the last two values bound into a deferred call, and the function it calls"""
    for t in subterms(args):
        if t and t[0] == "pure" and t[1] == "bind" and isinstance(t[2], tuple):
            f = [x for x in t[2] if has(x, lambda q: q[0] == "fnref")]
            return (f[0] if f else None), t[2]
    return None, None


def unit(ctx, p):
    E, D = sends(p)
    for fn in list(E.values()) + list(D.values()):
        n = len(fn.params)
        direct = fn.id in D
        prior = ("arg", n - 1)
        over = None if direct else ("arg", n - 2)
        paths, ex = explore(p, fn)
        ctx.analysed(fn)
        ctx.count("direct_functions" if direct else "send_overloads")
        reached = False
        for q in paths:
            def bad(rule, msg, line):
                ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line), msg, q.trail[-12:], p.tu)
            pv = truth(ex, q.facts, prior)
            for l in q.labels:
                if l[0] == "E":
                    reached = True
                    ctx.count("flag_flows")
                    if not same(ex, q, l[2], prior):
                        bad("priority", "the priority flag handed to %s is not the caller's" % l[4], l[5])
                    if over and not same(ex, q, l[1], over):
                        bad("overflow flag", "the overflow flag handed to %s is not the caller's" % l[4], l[5])
                elif l[0] == "D":
                    reached = True
                    ctx.count("flag_flows")
                    if not same(ex, q, l[1], prior):
                        bad("priority", "the priority flag handed to %s is not the caller's" % l[4], l[5])
                elif l[0] == "Q":
                    reached = True
                    ctx.count("queue_choices")
                    if pv is None or bool(l[1]) != pv:
                        bad("direction", "%s is reached %s" % (l[4], "whatever the caller's priority flag says" if pv is None else "although the caller asked for %s" % ("the front" if pv else "the end")), l[5])
                elif l[0] == "all":
                    f, b = bound_tail(p, l[1])
                    if b is None:
                        continue
                    reached = True
                    ctx.count("flag_flows")
                    if len(b) < 3 or not same(ex, q, b[-1], prior) or not same(ex, q, b[-2], over):
                        bad("broadcast flags", "a broadcast does not hand the caller's flags to the sockets", l[2])
        if not reached:
            ctx.violation("no send in %s" % fn.qn, fn.where(), "no path of this send function reaches the send queue", (), p.tu)
    directions(ctx, p)
    lint(ctx, p)


def unconv(t):
    while t and t[0] == "conv":
        t = t[2]
    return t


def same(ex, q, v, prior):
    v = unconv(v)
    if v == prior or v in (("v", prior), ("v", ("param", prior[1]))):
        return True
    pv = truth(ex, q.facts, prior)
    if v and v[0] == "c" and pv is not None:
        return bool(v[1]) == pv
    t = truth(ex, q.facts, v) if v and v[0] not in ("c",) else None
    return t is not None and pv is not None and t == pv


def directions(ctx, p):
    """insertion and removal position of every operation of every queue class"""
    for c in qmodel.queues(p):
        total = qmodel.total_field(p, c)
        for fn in qmodel.members(p, c):
            if fn.name == "<dtor>" or p.decls[fn.id].get("ctor") or p.decls[fn.id].get("acc") == 2:
                continue
            r, ex = qmodel.explore(p, c, fn, total)
            front = "front" in fn.name
            for q in r.out:
                for o in q.labels[0].ops:
                    m = None
                    if o[0] == "add":
                        ctx.count("queue_positions")
                        if (o[1] in ("emplace_front", "push_front")) != front:
                            m = "%s puts an item at the %s" % (fn.name, "front" if not front else "end")
                    elif o[0] == "in":
                        ctx.count("queue_positions")
                        w = "begin" if front else "end"
                        t = qmodel.strip(o[1])
                        if not (t[0] == "pure" and t[1] in (w, "c" + w)):
                            m = "%s does not put the items at the %s" % (fn.name, "front" if front else "end")
                    elif o[0] == "rem":
                        ctx.count("queue_positions")
                        if o[1] != "pop_front":
                            m = "%s takes an item from the end" % fn.name
                    elif o[0] in ("outall", "outrange"):
                        ctx.count("queue_positions")
                        t = qmodel.strip(o[2])
                        if not (t[0] == "pure" and t[1] in ("end", "cend")):
                            m = "%s does not put the items behind those already taken" % fn.name
                        if o[0] == "outrange" and not (o[3] and qmodel.is_begin(o[3][0])):
                            m = "%s does not take the items from the front" % fn.name
                    elif o[0] == "xchg":
                        # the item handed out is the one removed
                        if any(x[0] == "rem" and ("front" in x[1]) != (o[2] == "front") for x in q.labels[0].ops):
                            m = "%s hands out one item and removes another" % fn.name
                    if m:
                        ctx.violation("position in %s" % fn.qn, q.where, m, q.trail[-10:], p.tu)


REORDER = ("emplace_front", "push_front", "pop_back", "rbegin", "rend", "crbegin", "sort", "reverse", "rotate", "shuffle", "random_shuffle", "stable_sort", "merge", "partition")


def msg_container(p, cid):
    return cid is not None and p.classes[cid]["n"] in ("list", "vector", "deque") or cid is not None and any(p.classes[b]["qn"] == NS + "queue" for b in p.bases(cid))


def holds_msgs(p, d):
    """does this container's element type look like a message (has size() and data())"""
    return True


def lint(ctx, p):
    """every call in the library that could reorder a container"""
    E, D = sends(p)
    for fn in p.fns.values():
        if not fn.f.startswith("/"):
            pass
        inq = fn.cls is not None and any(p.classes[b]["qn"] == NS + "queue" for b in p.bases(fn.cls))
        for _, x in fn.calls():
            if x.get("d") is None:
                continue
            d = p.decls[x["d"]]
            if d["id"] in p.fns and not is_queue_op(p, d):
                continue
            n = d["n"]
            if is_queue_op(p, d) and INS[n] and not inq:
                ctx.count("front_insertions")
                if fn.id not in D and fn.id not in E:
                    # a helper is fine when every caller reaches it through a direct send function, where the flag was checked
                    if not helper_ok(p, fn, set(D) | set(E)):
                        ctx.violation("front insertion in %s" % fn.qn, fn.where(x["l"]), "%s is used outside the send functions' priority branch" % n, (), p.tu)
            elif n in REORDER and ("boost" in d["qn"] or "std" in d["qn"]) and not inq:
                ctx.violation("reordering in %s" % fn.qn, fn.where(x["l"]), "%s may reorder a container of messages" % n, (), p.tu)
            elif n == "splice" and not inq and len(x.get("c", [])) >= 2:
                ctx.count("splices")
                s = fn.st[fn.strip(x["c"][0])]
                t = arg_call(fn, x["c"][0])
                if t is None or p.decls[t]["n"] not in ("end", "cend"):
                    # a computed position: judged by name of the source of the iterator
                    if t is not None or s["k"] != "ref":
                        ctx.violation("splice in %s" % fn.qn, fn.where(x["l"]), "messages are put elsewhere than at the end of a container", (), p.tu)


def arg_call(fn, sid):
    """the call an argument expression consists of (through conversions)"""
    seen = 0
    while sid is not None and seen < 8:
        x = fn.st[fn.strip(sid)]
        if x["k"] in ("call", "mcall", "ocall") or (x.get("d") is not None and x.get("c") is not None and "ctor" not in x["k"] and x["k"] != "construct"):
            return x.get("d")
        if x.get("c"):
            sid = x["c"][0]
            seen += 1
        else:
            return None
    return None


def helper_ok(p, fn, ok, seen=()):
    k = (p.tu, "callers")
    if k not in _x:
        import f01
        _x[k] = f01.callers(p)
    cs = _x[k].get(fn.id, ())
    return bool(cs) and fn.id not in seen and all(c in ok or (c in p.fns and helper_ok(p, p.fns[c], ok, seen + (fn.id,))) for c in cs)


def run(ctx):
    ctx.each(LIB + DEMO, unit)
    ctx.need("send_overloads", 300)
    ctx.need("direct_functions", 40)
    ctx.need("flag_flows", 300)
    ctx.need("queue_choices", 60)
    ctx.need("queue_positions", 200)
