RULE = """On every path of every member function: the close notification is reached only after a branch that found no other holder of the call
indicator (or the service stopped); close, after-close and the obsolete mark follow in that order, once; the deferred-close timer is no longer
marked running when after-close runs; a deferred-close tick that finds other holders stops the other timers, keeps ticking and does nothing
else; the obsolete query is true only with the mark set and no holder left. A socket that after-close (or anything later) starts again is not
marked obsolete: start clears the mark before its start hook runs, and the mark is set after after-close only if the socket was not restarted."""
EXPLANATION = """Path enumeration over the inlined control-flow graph of every member function of every concrete socket class that can reach
the close notification, with branch facts about the indicator's use count and the service state, plus the accessor functions of the
indicator; all functions that write the obsolete mark are enumerated."""
ASSUMPTIONS = ["the number of copies of the indicator alive while a timer handler of this Boost version runs is 2, as recorded in the configuration header",
               "shared_ptr use counts are exact when no other thread can copy the pointer (no outstanding call means nobody else holds one)"]
from lib import *
from witness_units import LIB, DEMO
from a01 import indicator, resolve


def unit(ctx, p):
    delay = any(p.derives(c, NS + "executor") for c in p.cls_by_qn(NS + "tracked_executor"))
    if delay:
        ctx.count("delay_close_units")
    ind = None if delay else indicator(p)
    for c in p.leaf_classes(NS + "tracked_executor"):
        b = base_class(p, c, NS + "socket")
        cq = p.classes[c]["qn"]
        obs = [d for d in getter_fields(p, b, "obsoleted") if is_bool(p, p.decls[d])]
        if len(obs) != 1:
            raise Broken("obsolete mark not identified")
        obs = obs[0]
        obsn = p.decls[obs]["n"]
        started = getter_field(p, b, "started")
        indn = p.decls[ind]["n"] if ind is not None else "?"
        if not delay:
            accessors(ctx, p, c, b, obs, obsn, ind, indn)
        for fn in class_functions(p, c):
            if fn.cls == b and fn.name == "start":
                restart(ctx, p, c, fn, obs, obsn)
                continue
            if helper_only(p, c, fn):
                continue
            label = make_label(p, obs, obsn, ind, started)
            paths, ex = trace(p, fn, c, label, opaque=lambda p, d: d["n"] in ("start", "is_timer") and d["id"] != fn.id, calls=lambda p, d: d["n"] in ("on_close", "after_close", "use_count", "unique"),
                              bodies=lambda f: any(x and x["k"] == "mem" and (x["d"] == obs or (p.decls[x["d"]]["n"] == "status" and in_timer_info(p, x["d"]) and not any(y.get("d") is not None and p.decls[y["d"]]["n"] in ("async_wait", "cancel") for _, y in f.calls()))) for x in f.st), relevant=(obsn, indn), keep=lambda t: False)
            if not paths:
                continue
            ctx.analysed(fn)
            judge(ctx, p, c, fn, paths, delay)


def make_label(p, obs, obsn, ind, started):
    def label(ex, st, ev):
        if ev.kind == "call" and ev.d is not None and ev.name in ("on_close", "after_close") and p.decls[ev.d].get("virt"):
            fns = ev.frame.chain()
            if any(f.name == ev.name for f in fns):
                return None  # an override handing over to its base
            return (ev.name, ev.frame.fn.where(ev.line))
        if ev.kind == "write" and ev.loc and ev.loc[0] == "f" and ev.loc[2] == obs:
            if ev.val == ex.load(st, ev.loc) or has(ev.val, lambda t: t[0] in ("v", "rd") and t[1] == ev.loc):
                return None
            if ev.val[0] != "c" and not has(ev.val, lambda t: t == ("f", ("this",), started)):
                return ("obs", 2)
            return ("obs", 0 if ev.val == T0 else 1, ev.val[0] != "c")
        if ev.kind == "write" and ev.loc and fname(p, ev.loc) == "status" and ev.loc[0] == "f" and in_timer_info(p, ev.loc[2]):
            return ("tstatus", ev.val[1] if ev.val[0] == "c" else "?")
        if ev.kind == "branch":
            if has(ev.cond, lambda t: t[0] == "call" and str(t[1]).endswith("::is_timer")):
                atom, pol = ex.norm(ev.cond)
                return ("running", bool(ex.lookup(st, atom)))
            if has(ev.cond, lambda t: t == ("f", ("this",), started)):
                atom, pol = ex.norm(ev.cond)
                v = ex.lookup(st, atom)
                return ("started", not v if atom[0] == "eq" else bool(v))
            if has(ev.cond, lambda t: t[0] == "pure" and t[1] in ("use_count", "unique")):
                atom, pol = ex.norm(ev.cond)
                v = ex.lookup(st, atom)
                return final_label(p, atom, v, ind)
            if has(ev.cond, lambda t: t[0] == "call" and str(t[1]).endswith("::stopped")):
                atom, pol = ex.norm(ev.cond)
                return ("stopped", bool(ex.lookup(st, atom)))
            if has(ev.cond, lambda t: t[0] == "call" and str(t[1]).split("::")[-1].startswith("find")) or has(ev.cond, lambda t: t[0] == "pure" and t[1] == "end"):
                return ("find", ev.taken)
        if ev.kind == "call" and ev.name in ("stop_all_timer",):
            return ("stopall", len(ev.args))
        if ev.kind == "call" and ev.name == "start_timer" and ev.inlined:
            return ("rearm",)
        return None
    return label


def restart(ctx, p, c, fn, obs, obsn):
    """a socket that starts (again) is no longer obsolete before its start hook runs"""
    def label(ex, st, ev):
        if ev.kind == "call" and ev.name == "do_start" and ev.d is not None and p.decls[ev.d].get("virt"):
            return ("do_start", ev.res)
        if ev.kind == "write" and ev.loc == ("f", ("this",), obs):
            return ("obs", ev.val)
        return None
    ctx.analysed(fn)
    paths, ex = trace(p, fn, c, label, fields=(obsn,), relevant=(obsn,), force=True, calls=("do_start",), opaque=lambda p, d: d["n"] in ("do_start", "is_timer", "stopped", "unified_out"))
    for q in paths:
        i = q.index("do_start")
        if i < 0 or q.kind != "exit":
            continue
        ctx.count("start_paths")
        ok = truth(ex, q.facts, q.labels[i][1]) if q.labels[i][1] else None
        pre = [l for l in q.labels[:i] if l[0] == "obs"]
        post = [l for l in q.labels[i:] if l[0] == "obs"]
        if ok is not False and not (pre and pre[-1][1] == T0):
            ctx.violation("start leaves obsolete in " + fn.qn, q.where, "a socket starts while it may still be marked obsolete from its previous life", q.trail, p.tu)
        if ok is not False and any(l[1] != T0 for l in post):
            ctx.violation("start sets obsolete in " + fn.qn, q.where, "a socket that started is marked obsolete", q.trail, p.tu)


def in_timer_info(p, d):
    k = p.decls[d].get("cls")
    return k is not None and p.classes[k]["n"] == "timer_info"


def final_label(p, atom, v, ind):
    """does this fact say nobody else holds the indicator"""
    cnt = lambda t: t[0] == "pure" and t[1] == "use_count" and has(t, lambda q: q[0] == "f" and q[2] == ind)
    lim = lambda t: t[0] != "c" and has(t, lambda q: q[0] == "f" and q[2] == ind) and not has(t, lambda q: q[0] == "pure" and q[1] == "use_count")
    if atom[0] == "lt":
        a, b = atom[1], atom[2]
        if lim(a) and cnt(b):
            return ("last", not v)
        if cnt(a) and lim(b):
            return ("last", True) if v else ("last", None)
    if atom[0] == "eq" and ((cnt(atom[1]) and lim(atom[2])) or (cnt(atom[2]) and lim(atom[1]))):
        return ("last", True) if v else ("last", None)
    if atom[0] == "b" and has(atom[1], lambda t: t[0] == "pure" and t[1] == "unique" and has(t, lambda q: q[0] == "f" and q[2] == ind)):
        return ("last", bool(v))
    return ("last", None)


def judge(ctx, p, c, fn, paths, delay):
    key0 = fn.qn
    canceled = lambda v: v != 1  # TIMER_STARTED
    for q in paths:
        L = q.labels
        oc = [i for i, l in enumerate(L) if l[0] == "on_close"]
        ac = [i for i, l in enumerate(L) if l[0] == "after_close"]
        ob = [i for i, l in enumerate(L) if l[0] == "obs" and l[1]]
        if not oc and not ac and not ob:
            fl = [l for l in L if l[0] == "last"]
            if fl and not any(l[1] for l in fl) and fn.name not in ("is_last_async_call", "is_async_calling", "obsoleted") and q.kind == "exit" and fn.name == "timer_handler":
                ctx.count("deferred_ticks")
                if q.val != ("c", 1):
                    ctx.violation("stalled close in " + key0, q.where, "a deferred-close tick that finds outstanding calls does not keep the timer running", q.trail[-20:], p.tu)
                if not any(l[0] == "stopall" for l in L):
                    ctx.violation("timers kept in " + key0, q.where, "a deferred-close tick that finds outstanding calls does not stop the remaining timers", q.trail[-20:], p.tu)
            continue
        if fn.name in ("on_close", "after_close", "obsoleted"):
            continue
        ctx.count("close_paths")
        if oc:
            ctx.sample("%s: close notification reached from %s, evidence %s" % (L[oc[0]][1], fn.qn, [l for l in L[:oc[0]] if l[0] in ("last", "stopped")]))
        ev = L[:oc[0]] if oc else L[:(ac or ob)[0]]
        again = bool(ac) and not ob and any(l in (("running", True), ("started", True)) for l in L[ac[-1]:])
        if len(oc) != 1 or len(ac) != 1 or (len(ob) != 1 and not again):
            ctx.violation("incomplete close in " + key0, q.where, "close notification, after-close and the obsolete mark do not each happen once (%d,%d,%d)" % (len(oc), len(ac), len(ob)), q.trail[-25:], p.tu)
            continue
        if not again and not (oc[0] < ac[0] < ob[0]):
            ctx.violation("close order in " + key0, q.where, "close notification, after-close and the obsolete mark happen in the wrong order", q.trail[-25:], p.tu)
        stopped = ("stopped", True) in ev
        if not again and not stopped:
            # after-close may have started the socket again: then it must not be offered to its owner
            m = L[ob[0]]
            if m[1] == 2 or not (m[2] or ("started", False) in L[ac[0]:ob[0]]):
                ctx.violation("restarted and obsolete in " + key0, q.where, "the obsolete mark is set although the after-close notification may have started the socket again", q.trail[-25:], p.tu)
        last = [l[1] for l in ev if l[0] == "last"]
        lv = [x for x in last if x is not None]
        if not delay and not stopped and not (lv and lv[-1]):
            ctx.violation("early close in " + key0, L[oc[0]][1], "the close notification runs without evidence that no other asynchronous call is outstanding", q.trail[-25:], p.tu)
        if not stopped:
            mid = L[oc[0]:ac[0]]
            if not any(l[0] == "tstatus" and canceled(l[1]) for l in mid) and not any(l[0] == "find" for l in mid):
                ctx.violation("timer running in after-close, " + key0, q.where, "after-close runs while the deferred-close timer is still marked running, so the object cannot be started again from it", q.trail[-25:], p.tu)
            if q.val == ("c", 1):
                ctx.violation("close repeats in " + key0, q.where, "the deferred-close timer keeps running after the close notification", q.trail[-25:], p.tu)


def accessors(ctx, p, c, b, obs, obsn, ind, indn):
    # obsolete query
    q = own_method(p, b, "obsoleted")
    paths, ex = trace(p, q, c, lambda *a: None, calls=("unique", "use_count"), force=True)
    for x in paths:
        ctx.count("accessor_paths")
        tv = ret_facts(ex, x)
        if tv is False:
            continue
        okf = any(has(k, lambda t: t[0] == "f" and t[2] == obs) and ((k[0] == "b" and v) or (k[0] == "eq" and k[1] == T0 and not v)) for k, v in x.facts.items()) or mentions_field(p, x.val, obsn)
        oku = any(has(k, lambda t: t[0] == "pure" and t[1] == "unique") and v for k, v in x.facts.items()) or no_holder(x.val)
        if not okf or not oku:
            ctx.violation("obsolete query of " + q.qn, x.where, "the obsolete query can be true while the object is not closed or a call is outstanding", x.trail, p.tu)
    te = base_class(p, c, NS + "tracked_executor")
    for x in trace(p, own_method(p, te, "is_async_calling"), c, lambda *a: None, force=True)[0]:
        ctx.count("accessor_paths")
        v = x.val
        if not (v and v[0] == "un" and v[1] == "!" and has(v, lambda t: t[0] == "pure" and t[1] == "unique")) and not (v[0] == "bin" and has(v, lambda t: t[0] == "pure" and t[1] == "use_count") and ((v[1], v[3]) in ((">", ("c", 1)), ("!=", ("c", 1)), (">=", ("c", 2))))):
            ctx.violation("busy query", x.where, "a socket is not reported busy exactly when its call indicator is shared", x.trail, p.tu)
    la = own_method(p, te, "is_last_async_call")
    for x in trace(p, la, c, lambda *a: None, force=True)[0]:
        ctx.count("accessor_paths")
        gt = None
        for k, v in x.facts.items():
            r = final_label(p, k, v, ind)
            if r[1] is not None and k[0] in ("lt", "eq") and has(k, lambda t: t[0] == "pure" and t[1] == "use_count"):
                gt = r[1] if gt is None else (gt or r[1]) if r[1] else gt
        if x.val[0] != "c":
            # the result of the comparison itself
            continue
        if (x.val[1] != 0) != bool(gt):
            ctx.violation("last-call query", x.where, "the last-call query answers %s although the indicator is %s" % (x.val[1], "not shared" if gt else "still shared"), x.trail, p.tu)
    # the threshold stored in the indicator
    for fn in class_functions(p, te) if False else [p.fns[m] for m in p.classes[te]["ms"] if m in p.fns and p.decls[m].get("ctor")]:
        for x in trace(p, fn, te, lambda ex, st, ev: ("make", resolve(ex, st, ev, ev.args[0]) if ev.args else None) if ev.kind == "call" and ev.name and "make_shared" in ev.name else None, calls=lambda p, d: "make_shared" in d["n"])[0]:
            for l in x.all("make"):
                ctx.count("threshold")
                v = l[1]
                if v != ("c", 2):
                    ctx.violation("threshold", x.where, "the indicator is created with threshold %s; while a timer handler runs exactly 2 copies exist" % show(p, v), x.trail, p.tu)


def ex_load(x, v):
    while v and v in x.store:
        v = x.store[v]
    return v


def no_holder(v):
    return has(v, lambda t: t[0] == "un" and t[1] == "!" and has(t[2], lambda q: q[0] == "un" and q[1] == "!" and has(q[2], lambda r: r[0] == "pure" and r[1] == "unique"))) or (v and v[0] == "pure" and v[1] == "unique")


def ret_facts(ex, x):
    v = x.val
    if v and v[0] == "c":
        return bool(v[1])
    return None


def run(ctx):
    ctx.each(LIB + DEMO, unit)
    ctx.need("close_paths", 60)
    ctx.need("deferred_ticks", 20)
    ctx.need("accessor_paths", 100)
    ctx.need("threshold", 10)
    ctx.need("start_paths", 50)
