RULE = """In every overload of every send function a message reaches the queue only when the caller allowed overflow or a test of the bound said there
is room; when that test says no (and overflow is not allowed) nothing is inserted and the call reports refusal; a caller that allows overflow is
never refused for the bound and never has older messages discarded. A failed packing inserts nothing. The test is exactly 'queued bytes below the
bound', and the bound cannot be set to zero. The discarding variant discards only when the bound is reached, only the amount the application's
hook chose (nothing and a refusal when it chose zero), with the queue locked from the measurement to the removal, and hands exactly the removed
messages to the discard hook after unlocking."""
EXPLANATION = """Path enumeration with branch facts over every instantiated send overload, and with a lock automaton over the bound test and the
discarding variant, in configurations with and without discarding."""
ASSUMPTIONS = ["queue operations report success unless memory is exhausted"]
import locks
import b03
from lib import *
from witness_units import LIB, DEMO


def refused(p, fn, v):
    """is this return value the refusal (false / NOT_APPLICABLE)"""
    if v is None or v[0] != "c":
        return False
    if p.ty(p.decls[fn.id].get("ret", p.decls[fn.id].get("ty")))["s"].startswith("bool") if False else False:
        return v[1] == 0
    return True


def unit(ctx, p):
    na = sync_codes(p)
    E, D = b03.sends(p)
    disc = {}
    for fn in E.values():
        if "broadcast" in fn.name:
            continue
        n = len(fn.params)
        over = ("arg", n - 2)
        paths, ex = b03.explore(p, fn)
        ctx.analysed(fn)
        ctx.count("send_overloads")
        sync = "sync" in fn.name
        refusal = na["NOT_APPLICABLE"] if sync else 0
        for q in paths:
            ctx.count("paths")

            def bad(rule, msg, line=None):
                ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-12:], p.tu)
            ov = truth(ex, q.facts, over)
            ins = [i for i, l in enumerate(q.labels) if l[0] in ("D", "Q")]
            dele = q.all("E")
            bounds = [(i, l) for i, l in enumerate(q.labels) if l[0] == "bound"]
            room = [truth(ex, q.facts, l[1]) for _, l in bounds]
            if dele:
                # the callee decides; its answer must be the answer
                if q.kind == "exit" and q.val and q.val[0] == "c" and not loops(q, ex, q.val, dele, refusal, sync, na):
                    bad("delegated answer", "the answer does not follow from the answer of %s" % dele[-1][4])
                continue
            if ins:
                ctx.count("insertions")
                ok = ov is True or any(t is True and i < ins[0] for (i, l), t in zip(bounds, room))
                if not ok:
                    bad("bound bypassed", "a message is queued although the caller does not allow overflow and no test of the bound said there is room", q.labels[ins[0]][5 if q.labels[ins[0]][0] != "D" else 5])
                for i, l in enumerate(q.labels[:ins[0]]):
                    if l[0] == "pack" and l[1] is not None:
                        tgt = q.labels[ins[0]][3]
                        if tgt in l[2] and is_can(p, fn, tgt, l) and truth(ex, q.facts, l[1]) is not True:
                            bad("pack failure", "messages are queued although packing them failed", l[3])
            if ov is True:
                for (i, l), t in zip(bounds, room):
                    if discards(p, fn, l[2], disc):
                        bad("overflow discards", "older messages may be discarded for a caller that allows overflow", l[3])
                    if t is False and not ins:
                        bad("overflow refused", "a caller that allows overflow is refused for the bound", l[3])
            elif bounds and room[-1] is False and not ins:
                ctx.count("refusals")
                if q.kind == "exit" and not (q.val and q.val[0] == "c" and q.val[1] == refusal):
                    bad("refusal", "the send buffer is full but the call does not report refusal")
            if not ins and not bounds and ov is not True and q.kind == "exit":
                pass
            if not ins and q.kind == "exit" and q.val and q.val[0] == "c" and q.val[1] != refusal:
                bad("false success", "the call reports success although nothing was queued")
    bound_rules(ctx, p, na)


def is_can(p, fn, tgt, l):
    """was the inserted object the container the packer filled (as opposed to a single message, which stays empty on failure)"""
    d = None
    if tgt and tgt[0] == "var":
        d = p.decls[tgt[1]]
    elif tgt and tgt[0] == "param":
        d = p.decls[fn.params[tgt[1]]]
    if d is None:
        return False
    c = p.ty(d["ty"]).get("cls")
    return c is not None and p.classes[c]["n"] in ("list", "vector", "deque")


def loops(q, ex, val, dele, refusal, sync, na):
    """answer of a repeated attempt: success only after the callee succeeded, refusal only when it did not"""
    res = [l[3] for l in dele]
    ts = []
    for r in res:
        if r is None:
            continue
        if sync:
            e = truth(ex, q.facts, ("bin", "==", ("c", na["SUCCESS"]), r))
            if e is None:
                e = truth(ex, q.facts, ("bin", "==", r, ("c", na["SUCCESS"])))
        else:
            e = truth(ex, q.facts, r)
        ts.append(e)
    if val[1] == refusal:
        return not (ts and ts[-1] is True)
    good = na["SUCCESS"] if sync else 1
    return val[1] == good and bool(ts) and ts[-1] is True


def sync_codes(p):
    out = {"SUCCESS": 0, "NOT_APPLICABLE": 1, "DUPLICATE": 2, "TIMEOUT": 3}
    for d in (p.decls.values() if isinstance(p.decls, dict) else p.decls):
        if d and d.get("n") in out and d.get("cv") is not None and d["qn"].startswith(NS):
            out[d["n"]] = d["cv"]
    return out


def discards(p, fn, name, memo):
    """can this bound test throw messages away (some definition of it moves items out of the queue)"""
    if name not in memo:
        r = False
        for f in p.fns.values():
            if f.name == name and any(p.decls[x["d"]]["n"] == "on_msg_discard" for _, x in f.calls() if x.get("d") is not None):
                r = True
        memo[name] = r
    return memo[name]


def bound_rules(ctx, p, na):
    for b in p.cls_by_qn(NS + "socket"):
        if not any(m in p.fns for m in p.classes[b].get("ms", [])):
            continue
        size = getter_field(p, b, "send_buf_size") if len(getters(p, b, "send_buf_size")) else None
        av = own_method(p, b, "is_send_buffer_available")
        ctx.analysed(av)
        for q in trace(p, av, b, lambda *a: None, force=True, opaque=("size_in_byte",))[0]:
            ctx.count("bound_tests")
            if not below(p, q.val, size) and not (q.val[0] == "c" and below_facts(p, q, size)):
                ctx.violation("bound test in %s" % av.qn, q.where, "the bound test is not 'queued bytes below the bound'", q.trail, p.tu)
        for fn in methods_all(p, b, "send_buf_size"):
            if len(fn.params) != 1:
                continue
            for q in trace(p, fn, b, lambda ex, st, ev: ("W", ev.val) if ev.kind == "write" and ev.loc == ("f", ("this",), size) else None, fields=(p.decls[size]["n"],), force=True)[0]:
                ctx.count("bound_setter_paths")
                z = truth(ex0(p, fn, b), q.facts, ("bin", ">", ("arg", 0), T0))
                if z is None:
                    z = truth(ex0(p, fn, b), q.facts, ("bin", "!=", ("arg", 0), T0))
                for l in q.labels:
                    if z is not True or l[1] != ("arg", 0):
                        ctx.violation("bound setter in %s" % fn.qn, q.where, "the bound can become zero or something else than what the caller asked for", q.trail, p.tu)
                if z is True and not q.labels:
                    ctx.violation("bound setter in %s" % fn.qn, q.where, "a valid bound is ignored", q.trail, p.tu)
        for fn in methods_all(p, b, "shrink_send_buffer"):
            ctx.analysed(fn)
            shrink(ctx, p, b, fn, size)


def getters(p, b, name):
    return [m for m in p.classes[b]["ms"] if p.decls[m]["n"] == name and m in p.fns and not p.fns[m].params]


_ex = {}


def ex0(p, fn, b):
    k = (p.tu, fn.id)
    if k not in _ex:
        _ex[k] = trace(p, fn, b, lambda *a: None, force=True)[1]
    return _ex[k]


def is_bytes(t):
    return has(t, lambda q: q[0] in ("call", "pure") and str(q[1]).split("::")[-1] == "size_in_byte")


def is_size(p, t, size):
    return has(t, lambda q: q == ("f", ("this",), size)) and not is_bytes(t)


def below(p, v, size):
    if not v or v[0] not in ("bin", "un"):
        return False
    if v[0] == "un" and v[1] == "!":
        w = v[2]
        return bool(w) and w[0] == "bin" and (w[1] == ">=" and is_bytes(w[2]) and is_size(p, w[3], size) or w[1] == "<=" and is_size(p, w[2], size) and is_bytes(w[3]))
    return v[1] == "<" and is_bytes(v[2]) and is_size(p, v[3], size) or v[1] == ">" and is_size(p, v[2], size) and is_bytes(v[3])


def lt_fact(p, facts, size):
    """truth of 'queued bytes < bound' among the facts"""
    for k, v in facts.items():
        if k[0] == "lt" and is_bytes(k[1]) and is_size(p, k[2], size):
            return v
    return None


def below_facts(p, q, size):
    t = lt_fact(p, q.facts, size)
    return t is not None and bool(q.val[1]) == t


def shrink(ctx, p, b, fn, size):
    def label(ex, st, ev):
        out = []
        r = st.rule
        ls = r[0][1] if r and r[0][0] == "LS" else locks.LockState.empty()
        ns, evs = locks.step(p, ex, st, ev, ls)
        if ns != ls:
            st.rule = (("LS", ns),) + tuple(x for x in r if x[0] != "LS")
        for e in evs:
            out.append((e[0],))
        held = bool(ns[0])
        if ev.kind == "call" and ev.d is not None:
            if ev.name == "size_in_byte":
                out.append(("measure", held, ev.res))
            elif ev.name == "calc_shrink_size":
                out.append(("calc", held, ev.args[0] if ev.args else None, ev.res))
            elif ev.name.startswith(("move_items_out", "try_dequeue", "clear", "swap")) and ev.obj is not None and mentions_field(p, ev.obj, "send_buffer") or ev.name.startswith("move_items_out"):
                out.append(("out", held, tuple(ev.args), ev.name))
            elif ev.name == "on_msg_discard":
                out.append(("report", held, ev.args[0] if ev.args else None))
            elif ev.name == "is_send_buffer_available":
                out.append(("avail", ev.res))
        return out or None
    paths, ex = trace(p, fn, b, label, force=True, inline_all=False, calls=lambda p, d: d["n"] in ("lock", "unlock", "move_items_out_", "move_items_out", "on_msg_discard"),
                      opaque=lambda p, d: d["n"] in ("size_in_byte", "calc_shrink_size", "on_msg_discard", "move_items_out_", "move_items_out", "is_send_buffer_available", "try_dequeue_", "try_dequeue"))
    plain = not any(any(l[0] in ("calc", "out", "report") for l in q.labels) for q in paths)
    for q in paths:
        ctx.count("shrink_paths")

        def bad(rule, msg):
            ctx.violation("%s in %s" % (rule, fn.qn), q.where, msg, q.trail[-12:], p.tu)
        L = [l for l in q.labels if l[0] != "LS"]
        if plain:
            a = [l for l in L if l[0] == "avail"]
            if a and (q.val == a[-1][1] or (q.val[0] == "c" and truth(ex, q.facts, a[-1][1]) == bool(q.val[1]))):
                continue
            if below(p, q.val, size) or (q.val and q.val[0] == "c" and below_facts(p, q, size)):
                continue
            bad("bound test", "the bound test does not answer whether the queued bytes are below the bound")
            continue
        lt = lt_fact(p, q.facts, size)
        outs = [l for l in L if l[0] == "out"]
        rep = [l for l in L if l[0] == "report"]
        calc = [l for l in L if l[0] == "calc"]
        if q.labels and q.labels[0][0] == "LS" and q.labels[0][1][0]:
            bad("lock leak", "the send queue is still locked when the bound test returns")
        if q.kind != "exit":
            continue
        if lt is None:
            bad("no measurement", "the bound test does not compare the queued bytes with the bound")
            continue
        if lt:
            if outs or rep or q.val == T0 or q.val[0] != "c":
                bad("needless discard", "messages are discarded or the caller is refused although there is room")
            continue
        if outs:
            c = calc[-1] if calc else None
            zero = c is not None and (truth(ex, q.facts, ("bin", "==", T0, c[3])) is False or truth(ex, q.facts, ("bin", "==", c[3], T0)) is False or truth(ex, q.facts, c[3]) is True)
            if c is None or len(outs) != 1 or outs[0][2][0] != c[3] or not zero:
                bad("discard size", "the amount discarded is not the (non-zero) amount the application's hook chose")
            if len(outs[0][2]) != 2 or len(rep) != 1 or rep[0][2] != outs[0][2][1]:
                bad("discard report", "the discarded messages are not reported to the application exactly once")
            if not outs[0][1] or not (calc and calc[-1][1]):
                bad("discard unlocked", "the send queue is not locked between measuring and discarding")
            if any(l[1] for l in rep):
                bad("discard hook locked", "the discard hook runs with the send queue locked")
            i = next((i for i, l in enumerate(L) if l[0] == "measure"), None)
            j = next(i for i, l in enumerate(L) if l[0] == "out")
            if i is not None and any(l[0] == "rel" for l in L[i:j]):
                bad("discard unlocked", "the send queue is unlocked between measuring and discarding")
            if q.val != ("c", 1):
                bad("discard answer", "room was made but the caller is refused")
        else:
            if q.val != T0:
                bad("refusal", "the send buffer is full, nothing was discarded, but the bound test says there is room")


def run(ctx):
    ctx.each(LIB + DEMO, unit)
    ctx.need("send_overloads", 300)
    ctx.need("insertions", 300)
    ctx.need("refusals", 200)
    ctx.need("bound_tests", 15)
    ctx.need("bound_setter_paths", 15)
    ctx.need("shrink_paths", 20)
