RULE = """Start: the start hook runs only with the start gate held, after an unstarted state was seen under the gate and neither the service was
stopped nor a deferred close pending; its result becomes the started state before the gate is released. Close: under the same gate, a socket
that is not started is left alone; otherwise it is marked unstarted once, its timers are stopped, the link is shut down, and then exactly one
deferred close is armed (or, when the service is stopped, the close sequence runs at once). Every other write of the started state needs the gate.
Every override of the close and reset hooks hands over to its base exactly once on every path, and reset refuses while a close is pending."""
EXPLANATION = """Path enumeration with a lock automaton over start, close, reset and every override of the close and reset hooks, for every concrete
socket class and configuration; the set of functions that write the started state is computed from the program."""
ASSUMPTIONS = ["the atomic flag's test-and-set has acquire/release semantics as implemented by Boost.Atomic"]
import locks
from lib import *
from witness_units import LIB, DEMO


EVENTS = ("set_timer", "create_or_update_timer", "stop_all_timer", "is_timer", "stopped", "on_close", "after_close", "do_start", "is_open")


def unit(ctx, p):
    for c in p.leaf_classes(NS + "tracked_executor"):
        b = base_class(p, c, NS + "socket")
        started = getter_field(p, b, "started")
        sn = p.decls[started]["n"]
        dc = const_of(p, b, "TIMER_DELAY_CLOSE")
        if dc is None:
            raise Broken("no deferred-close timer id")
        label = make_label(p, b, started, dc)
        opts = dict(calls=lambda p, d: d["n"] in ("test_and_set", "clear") and "atomic" in d["qn"] or d["n"] in ("shutdown", "close") and "basic_" in d["qn"] or d["n"] in EVENTS, fields=(sn,), volatile=(sn,), relevant=(sn, "_locked"),
                    opaque=lambda p, d: (d.get("virt") and d["n"] in ("do_start", "on_close", "after_close")) or d["n"] in ("set_timer", "create_or_update_timer", "stop_all_timer", "is_timer", "stopped", "unified_out"))
        fn = own_method(p, b, "start")
        ctx.analysed(fn)
        paths, ex = trace(p, fn, c, label, **opts)
        start_rules(ctx, p, c, fn, paths)
        fn = own_method(p, b, "close")
        ctx.analysed(fn)
        paths, ex = trace(p, fn, c, label, **opts)
        close_rules(ctx, p, c, fn, paths)
        writers(ctx, p, c, b, started, sn, opts, label)
        chains(ctx, p, c)
        reset_rules(ctx, p, c, b, dc)


def is_started_cond(p, cond, started):
    return has(cond, lambda t: t[0] == "f" and t[2] == started)


def truth_of(ev, ex, st):
    atom, pol = ex.norm(ev.cond)
    v = ex.lookup(st, atom)
    return v


class LL:
    pass


def make_label(p, b, started, dc):
    def label(ex, st, ev):
        out = []
        # the lock state travels as the first label
        r = st.rule
        ls = r[0][1] if r and r[0][0] == "LS" else locks.LockState.empty()
        ns, evs = locks.step(p, ex, st, ev, ls)
        if ns != ls:
            st.rule = (("LS", ns),) + tuple(x for x in r if x[0] != "LS")
        for e in evs:
            if not (e[0] == "rel" and not ls[0]):
                out.append((e[0], show(p, e[1]) if e[1] else "?"))
        held = bool(ns[0])
        if ev.kind == "branch":
            if is_started_cond(p, ev.cond, started):
                out.append(("started", truth_of(ev, ex, st), held))
            elif has(ev.cond, lambda t: t[0] == "call" and str(t[1]).endswith("::is_timer") and t[4] and t[4][0] == ("c", dc)):
                out.append(("closing", truth_of(ev, ex, st)))
            elif has(ev.cond, lambda t: t[0] == "call" and str(t[1]).endswith("::stopped")):
                out.append(("stopped", truth_of(ev, ex, st)))
            elif has(ev.cond, lambda t: t[0] == "pure" and t[1] == "is_open"):
                out.append(("open", truth_of(ev, ex, st)))
        elif ev.kind == "write" and ev.loc and ev.loc[0] == "f" and ev.loc[2] == started:
            v = ev.val
            out.append(("W", v[1] if v[0] == "c" else ("do_start" if has(v, lambda t: t[0] == "call" and str(t[1]).endswith("::do_start")) else "?"), held))
        elif ev.kind == "call" and ev.d is not None:
            if ev.name in ("do_start", "on_close", "after_close") and p.decls[ev.d].get("virt"):
                out.append((ev.name, held))
            elif ev.name in ("set_timer", "create_or_update_timer") and ev.args and ev.args[0] == ("c", dc):
                out.append(("arm", targets_names(p, ex, st, ev)))
            elif ev.name == "test_and_set":
                out.append(("tas",))
            elif ev.name == "stop_all_timer":
                out.append(("stopall", len(ev.args)))
            elif ev.name in ("shutdown", "close") and "basic_" in ev.qn:
                out.append(("lower",))
        return out or None
    return label


def targets_names(p, ex, st, ev):
    r = set()
    for a in ev.args[1:]:
        v = a
        for _ in range(5):
            if v and v[0] in ("tmp", "var"):
                w = ex.load(st, v)
                if w == v or w == ("v", v):
                    break
                v = w
        for t in targets(p, v):
            r.add(p.decls[t]["id"] if "id" in p.decls[t] else t)
    return tuple(sorted(r))


def start_rules(ctx, p, c, fn, paths):
    for q in paths:
        L = [l for l in q.labels if l[0] != "LS"]
        ds = [i for i, l in enumerate(L) if l[0] == "do_start"]
        ctx.count("start_paths")

        def bad(rule, msg):
            ctx.violation("%s in %s" % (rule, fn.qn), q.where, msg, q.trail[-20:], p.tu)
        if not ds:
            if any(l[0] == "W" for l in L):
                bad("start", "the started state changes without the start hook having run")
            continue
        if len(ds) > 1:
            bad("start twice", "the start hook can run more than once in one start")
        pre = L[:ds[0]]
        if not L[ds[0]][1]:
            bad("start gate", "the start hook runs without the start gate held")
        tas = max([i for i, l in enumerate(pre) if l[0] in ("tas", "acq")] or [10 ** 6])
        first = min([i for i, l in enumerate(pre) if l[0] in ("tas", "acq")] or [10 ** 6])
        if not any(l[0] == "started" and l[1] is False and (l[2] or i > first) for i, l in enumerate(pre)):
            bad("start recheck", "the started state is not examined under the start gate before the start hook runs")
        if not any(l == ("closing", False) for l in pre):
            bad("start while closing", "the start hook can run while a deferred close is pending")
        if not any(l == ("stopped", False) for l in pre):
            bad("start on stopped service", "the start hook can run although the service is stopped")
        w = [l for l in L[ds[0]:] if l[0] == "W"]
        if len(w) != 1 or w[0][1] not in ("do_start", 1) or not w[0][2]:
            # result known by a branch is fine as long as it equals what the hook answered
            bad("start result", "the start hook's result does not become the started state under the start gate")
        if q.kind == "exit" and q.labels and q.labels[0][0] == "LS" and q.labels[0][1][0]:
            bad("gate leak", "the start gate is still held when the function returns")
    if not any(any(l[0] == "do_start" for l in q.labels) for q in paths):
        ctx.violation("start never in %s" % fn.qn, fn.where(), "no path of start runs the start hook", (), p.tu)


def close_rules(ctx, p, c, fn, paths):
    dcq = "timer_handler"
    for q in paths:
        L = [l for l in q.labels if l[0] != "LS"]
        ctx.count("close_paths")

        def bad(rule, msg):
            ctx.violation("%s in %s" % (rule, fn.qn), q.where, msg, q.trail[-20:], p.tu)
        si = next((i for i, l in enumerate(L) if l[0] == "started"), None)
        eff = [l for l in L if l[0] in ("W", "arm", "stopall", "lower", "on_close", "after_close")]
        if si is None:
            if eff:
                bad("close", "closing does not examine whether the socket is started")
            continue
        if not L[si][2]:
            bad("close gate", "the started state is examined without the start gate")
        if L[si][1] is False:
            if eff:
                bad("close of unstarted", "closing a socket that is not started has an effect")
            if q.val != T0:
                bad("close result", "closing a socket that is not started reports success")
            continue
        w = [l for l in L if l[0] == "W"]
        if [l[1] for l in w] != [0] or not w[0][2]:
            bad("close mark", "closing does not mark the socket unstarted exactly once under the start gate")
            continue
        sa = next((i for i, l in enumerate(L) if l == ("stopall", 0)), None)
        fin = [i for i, l in enumerate(L) if l[0] in ("arm", "on_close")]
        if sa is None:
            bad("close timers", "closing leaves the socket's timers running")
        elif fin and fin[0] < sa:
            bad("close timers", "the socket's timers are stopped after the deferred close was armed")
        if ("open", True) in L and not any(l[0] == "lower" for l in L):
            bad("close link", "closing leaves an open link up")
        if ("open", True) not in L and ("open", False) not in L and not any(l[0] == "lower" for l in L):
            bad("close link", "closing never shuts the link down")
        arm = [l for l in L if l[0] == "arm"]
        oc = [l for l in L if l[0] == "on_close"]
        if ("stopped", True) in L:
            if len(oc) + len(arm) != 1:
                bad("close completion", "closing on a stopped service does not run the close notification exactly once")
        elif len(arm) != 1 or oc:
            bad("close completion", "closing does not arm exactly one deferred close")
        for l in arm:
            if not any(reaches(p, t, "on_close") for t in l[1]):
                bad("close callback", "the deferred close does not lead to the close notification")
        if q.val == T0:
            bad("close result", "a close that took effect reports failure")
        if q.kind == "exit" and q.labels and q.labels[0][0] == "LS" and q.labels[0][1][0]:
            bad("gate leak", "the start gate is still held when the function returns")


_reach = {}


def reaches(p, d, name, seen=None):
    """does function d call something named `name` (directly or through project functions)"""
    k = (p.tu, d, name)
    if k in _reach:
        return _reach[k]
    seen = seen or set()
    if d in seen:
        return False
    seen.add(d)
    fn = p.fns.get(d)
    r = False
    if fn is not None:
        for _, x in fn.calls():
            if x.get("d") is None:
                continue
            if p.decls[x["d"]]["n"] == name or reaches(p, x["d"], name, seen):
                r = True
                break
    _reach[k] = r
    return r


def callers(p):
    m = {}
    for fn in p.fns.values():
        for _, x in fn.calls():
            if x.get("d") is not None:
                m.setdefault(x["d"], set()).add(fn.id)
        for _, d in fn.fnrefs():
            m.setdefault(d, set()).add(fn.id)
    return m


def ctor_only(p, fn, m, seen=()):
    if p.decls[fn.id].get("ctor"):
        return True
    cs = m.get(fn.id, ())
    return bool(cs) and fn.id not in seen and all(q in p.fns and ctor_only(p, p.fns[q], m, seen + (fn.id,)) for q in cs)


def writers(ctx, p, c, b, started, sn, opts, label):
    m = callers(p)
    for fn in class_functions(p, c):
        direct = any(x and x["k"] == "bin" and x["op"] == "=" and fn.st[fn.strip(x["c"][0])]["k"] == "mem" and fn.st[fn.strip(x["c"][0])]["d"] == started for x in fn.st)
        if not direct or fn.name in ("start", "close") or ctor_only(p, fn, m):
            continue
        # a helper is judged inside the entries that call it
        if m.get(fn.id):
            continue
        ctx.count("other_writers")
        for q in trace(p, fn, c, label, **opts)[0]:
            for l in q.labels:
                if l[0] == "W" and not l[2]:
                    ctx.violation("unguarded start state in " + fn.qn, q.where, "the started state is written without the start gate", q.trail, p.tu)


def chains(ctx, p, c):
    """every override of a life-cycle hook hands over to its base exactly once on every path"""
    for hook in ("on_close", "reset"):
        defs = []
        for k in p.bases(c):
            for m in p.classes[k].get("ms", []):
                if p.decls[m]["n"] == hook and m in p.fns and not p.fns[m].params:
                    defs.append((k, p.fns[m]))
        for k, fn in defs:
            sup = [f for kk, f in defs if kk != k and kk in p.bases(k)]
            if not sup or not any(fn.f.startswith(r) for r in ("/repo/",)):
                continue
            ids = {f.id for f in sup}

            def label(ex, st, ev):
                if ev.kind == "call" and ev.name == hook and ev.d in ids and ev.frame.fn is not None and (ev.obj == ("this",)):
                    if any(f.id in ids for f in ev.frame.chain()):
                        return None
                    return ("base", ev.line)
                return None
            ctx.analysed(fn)
            paths, ex = trace(p, fn, c, label, calls=lambda p, d: d["id"] in ids, opaque=lambda p, d: d["id"] in ids, force=True, relevant=())
            for q in paths:
                ctx.count("hook_chain_paths")
                n = len([l for l in q.labels if l[0] == "base"])
                if q.kind == "exit" and n != 1 and not ("callbacks" in fn.qn and n == 0 and cb_replaces(q, p)):
                    ctx.violation("%s chain in %s" % (hook, fn.qn), q.where, "an override of the %s hook hands over to its base %d times on a path" % (hook, n), q.trail, p.tu)


def cb_replaces(q, p):
    """a user callback registered to replace the base behaviour (pair.second true)"""
    return any(has(k, lambda t: t[0] in ("f", "fv") and p.decls[t[2]]["n"] == "second") and not (k[0] == "eq" and v) for k, v in q.facts.items())


def reset_rules(ctx, p, c, b, dc):
    fn = own_method(p, b, "reset")

    def label(ex, st, ev):
        if ev.kind == "branch" and has(ev.cond, lambda t: t[0] == "call" and str(t[1]).endswith("::is_timer") and t[4] and t[4][0] == ("c", dc)):
            return ("closing", truth_of(ev, ex, st))
        if ev.kind == "write" and ev.loc and ev.loc[0] == "f":
            return ("W",)
        if ev.kind == "call" and ev.name in ("clear", "stop_all_timer", "reset"):
            return ("E",)
        return None
    paths, ex = trace(p, fn, c, label, force=True, opaque=("is_timer", "stop_all_timer"))
    for q in paths:
        ctx.count("reset_paths")
        L = q.labels
        ci = q.index("closing", False)
        ei = min([i for i, l in enumerate(L) if l[0] in ("W", "E")] or [10 ** 6])
        if q.kind == "exit" and (ci < 0 or ci > ei):
            ctx.violation("reset while closing in " + fn.qn, q.where, "a socket can be reset while a deferred close is pending", q.trail, p.tu)


def run(ctx):
    ctx.each(LIB + DEMO, unit)
    ctx.need("start_paths", 200)
    ctx.need("close_paths", 200)
    ctx.need("hook_chain_paths", 100)
    ctx.need("reset_paths", 50)
