RULE = """The statistics class: adding (subtracting) combines every counter exactly once with the same counter of the operand and the right sign, nothing else, and
yields the object itself; the value-returning operators apply that to a copy of the left operand with the right operand and return the copy; resetting and
construction leave every counter zero and every duration reset; printing shows every counter. A duration adds samples with their number, raises its maximum
exactly when the operand's is larger, and lowers its minimum exactly when it has none or the operand's is smaller, never taking the minimum of an operand
without samples; its average never divides by zero. A scoped measurement adds once, while started. Counting: the message and byte counters of sending change
only in the write completion, exactly once per successful write and never for a failed one, by the number in flight and the bytes transferred, before the
in-flight store is emptied; those of receiving change exactly once per batch of received messages, by its number and total size, before the batch is touched;
every successful read counts once. The pool's total adds each socket's statistics once and returns the sum."""
EXPLANATION = """Field-by-field comparison of what each operator does on every path with the list of fields the class declares, who-writes query over every function
of every concrete socket class, and event-order obligations over the counting functions."""
ASSUMPTIONS = ["durations are measured with the clock's own subtraction", "application code does not write the statistics"]
import b02, b03, c01, d01, f01, i01, loops
from lib import *
from witness_units import LIB


def fields(p, c):
    return [x for x in p.classes[c].get("fs", [])]


def is_time(p, f):
    return p.ty(p.decls[f]["ty"])["s"] in ("long", "time_t", "__time_t")


def hollow(p, f):
    """a placeholder without content"""
    k = p.ty(p.decls[f]["ty"]).get("cls")
    return k is not None and p.classes[k]["qn"].startswith(NS) and not p.classes[k].get("fs")


def stat_class(p):
    for c in range(len(p.classes)):
        if p.classes[c] and p.classes[c]["qn"] == NS + "statistic" and p.classes[c].get("fs"):
            return c
    raise Broken("statistics class")


def other(f, op):
    return ("f", ("param", 0), f)


def fieldwise(ctx, p, c, fn, sign):
    F = [f for f in fields(p, c) if not is_time(p, f)]
    num = lambda f: p.ty(p.decls[f]["ty"]).get("cls") is None
    name = "operator+=" if sign == "+" else "operator-="

    def label(ex, st, ev):
        if ev.kind == "write" and ev.loc and ev.loc[0] == "f" and ev.loc[1] == ("this",):
            return ("W", ev.loc[2], ev.val, ev.line, len(st.rule))
        if ev.kind == "call" and ev.d is not None and ev.name.startswith("operator") and ev.name not in ("operator", "operator()") and not ev.inlined:
            o = ev.obj if ev.obj is not None else ev.args[0] if ev.args else None
            if o and o[0] == "f" and o[1] == ("this",):
                a = ev.args if ev.obj is not None else ev.args[1:]
                return ("C", o[2], ev.name, tuple(a), ev.line, len(st.rule))
        return None
    paths, ex = trace(p, fn, c, label, force=True, opaque=lambda p, d: d["n"].startswith("operator") and d["id"] != fn.id)
    ctx.analysed(fn)
    for q in paths:
        if q.kind == "throw":
            continue

        def bad(rule, msg, line=None):
            ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-8:], p.tu)
        n = {}
        for l in q.labels:
            f = l[1]
            n[f] = n.get(f, 0) + 1
            nm = p.decls[f]["n"]
            ctx.count("field_operations")
            if l[0] == "W":
                v = l[2]
                a, b = ("v", ("f", ("this",), f)), ("v", ("f", ("param", 0), f))
                if v not in ([("bin", "+", a, b), ("bin", "+", b, a)] if sign == "+" else [("bin", "-", a, b)]):
                    bad("counter %s" % nm, "a counter is not combined with the same counter of the other operand, or with the wrong sign", l[3])
            elif l[2] != name or len(l[3]) != 1 or l[3][0] not in (("f", ("param", 0), f), ("v", ("f", ("param", 0), f))):
                bad("counter %s" % nm, "a duration is not combined with the same duration of the other operand, or with the wrong sign", l[4])
        for f in F:
            if n.get(f, 0) != 1 and not hollow(p, f) or n.get(f, 0) > 1:
                bad("counter %s" % p.decls[f]["n"], "a counter is combined %d times instead of once" % n.get(f, 0))
        for f in n:
            if f not in F:
                bad("counter %s" % p.decls[f]["n"], "a point in time is changed by arithmetic on counters")
        if q.val not in (("this",), ("deref", ("addr", ("this",)))) and not (q.val and q.val[0] == "deref"):
            bad("result", "the operator does not yield the object itself")


def valuewise(ctx, p, c, fn, name):
    def label(ex, st, ev):
        if ev.kind != "call" or ev.d is None:
            return None
        if ev.name == "<ctor>" and ev.args and p.decls[ev.d].get("cls") == c:
            return ("CP", ev.obj, ev.args[0], ev.res, ev.line)
        if ev.name.startswith("operator") and p.decls[ev.d].get("cls") == c:
            return ("OP", ev.name, ev.obj, tuple(ev.args), ev.line, len(st.rule))
    paths, ex = trace(p, fn, c, label, force=True, opaque=lambda p, d: d["n"].startswith("operator") and d["id"] != fn.id)
    ctx.analysed(fn)
    for q in paths:
        if q.kind == "throw":
            continue
        ctx.count("field_operations")
        ops = q.all("OP")
        cp = {l[1]: l[2] for l in q.all("CP")}
        ok = len(ops) == 1 and ops[0][1] == name and cp.get(ops[0][2]) in (("this",), ("deref", ("addr", ("this",)))) and ops[0][3] and ops[0][3][0] in (("param", 0), ("v", ("param", 0)))
        if ok:
            # what is returned is the copy after the operation
            last = [l for l in q.all("CP") if q.labels.index(l) > q.labels.index(ops[0])]
            ok = any(l[2] == ops[0][2] for l in last) or has(q.val, lambda t: t == ops[0][2])
        if not ok:
            ctx.violation("value of %s" % fn.qn, q.where, "the result is not a copy of the left operand with %s applied once to the right one" % name, q.trail[-8:], p.tu)


def zeroed(ctx, p, c, fn, everything):
    def label(ex, st, ev):
        if ev.kind == "call" and ev.d is not None and ev.obj is not None and ev.obj[0] == "f" and ev.obj[1] == ("this",) and ev.name in ("reset", "<ctor>"):
            return ("R", ev.obj[2], len(st.rule))
        if ev.kind == "write" and ev.loc and ev.loc[0] == "f" and ev.loc[1] == ("this",):
            return ("W", ev.loc[2], ev.val, len(st.rule))
    paths, ex = trace(p, fn, c, label, force=True, inline_all=True, opaque=lambda p, d: d["n"] == "reset" and d.get("cls") != c)
    ctx.analysed(fn)
    for q in paths:
        if q.kind == "throw":
            continue
        last = {}
        for l in q.labels:
            if l[0] == "W":
                last[l[1]] = l[2]
            else:
                last[l[1]] = ("c", 0)
        for f in fields(p, c):
            ctx.count("field_resets")
            if hollow(p, f) or p.ty(p.decls[f]["ty"]).get("cls") is not None and not everything:
                continue
            v = last.get(f)
            if p.ty(p.decls[f]["ty"]).get("cls") is not None and v is not None:
                continue
            if v != ("c", 0):
                ctx.violation("reset of %s in %s" % (p.decls[f]["n"], fn.qn), q.where, "a counter is not zero afterwards", q.trail[-8:], p.tu)


def printed(ctx, p, c, fn):
    ctx.analysed(fn)
    seen = {x["d"] for g in [fn] for x in g.st if x and x["k"] == "mem"}
    for f in fields(p, c):
        if not is_time(p, f) and not hollow(p, f) and f not in seen:
            ctx.violation("printing of %s" % p.decls[f]["n"], fn.where(), "a counter is not shown", (), p.tu)
        ctx.count("fields_printed")


# ---------------------------------------------------------------- durations

def durations(ctx, p):
    for c in range(len(p.classes)):
        if p.classes[c] and p.classes[c]["qn"] != NS + "statistic::duration" or not p.classes[c].get("fs"):
            continue
        F = fields(p, c)
        N = [f for f in F if p.ty(p.decls[f]["ty"]).get("cls") is None]
        D = [f for f in F if f not in N]
        if len(N) != 1 or len(D) != 2:
            raise Broken("fields of the duration class")
        N = N[0]
        for m in p.classes[c].get("ms", []):
            fn = p.fns.get(m)
            if fn is None:
                continue
            if fn.name in ("operator+=", "operator-="):
                combine(ctx, p, c, fn, N, D, fn.name[8])
            elif fn.name == "get_avg":
                average(ctx, p, c, fn, N)
            elif fn.name == "reset":
                cleared(ctx, p, c, fn, N, D)


def val_of(t, f):
    """does the term denote field f of the operand (or the operand itself)"""
    return has(t, lambda s: s == ("f", ("param", 0), f)) or (has(t, lambda s: s == ("param", 0)) and not has(t, lambda s: s[0] == "f" and s[1] == ("param", 0)))


def combine(ctx, p, c, fn, N, D, sign):
    same = p.ty(p.decls[fn.params[0]]["ty"]).get("cls") == c or "statistic::duration" in p.ty(p.decls[fn.params[0]]["ty"])["s"]

    def label(ex, st, ev):
        if ev.kind == "branch":
            return ("B", ev.cond, ev.taken, ev.line, len(st.rule))
        if ev.kind == "write" and ev.loc and ev.loc[0] == "f" and ev.loc[1] == ("this",):
            return ("W", ev.loc[2], ev.val, ev.line, len(st.rule))
        if ev.kind == "call" and ev.d is not None and ev.obj is not None and ev.name in ("operator=", "operator+=", "operator-="):
            return ("C", ev.name, ev.obj, b03.deep(ex, st, ev.args[0]), ev.line, len(st.rule))
    paths, ex = trace(p, fn, c, label, force=True)
    ctx.analysed(fn)
    for q in paths:
        if q.kind == "throw":
            continue
        ctx.count("duration_operations")

        def bad(rule, msg, line=None):
            ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-8:], p.tu)
        base = [l for l in q.all("C") if l[2] == ("this",)]
        if len(base) != 1 or base[0][1] != "operator" + sign + "=" or not has(base[0][3], lambda s: s == ("param", 0)) or has(base[0][3], lambda s: s[0] == "f" and s[1] == ("param", 0)):
            bad("sum", "the total is not combined exactly once with the operand's")
        w = [l for l in q.all("W") if l[1] == N]
        a, b = ("v", ("f", ("this",), N)), (("v", ("f", ("param", 0), N)) if same else ("c", 1))
        if len(w) != 1 or w[0][2] not in ([("bin", "+", a, b), ("bin", "+", b, a)] if sign == "+" else [("bin", "-", a, b)]):
            bad("number", "the number of samples is not combined exactly once with the operand's")
        if sign == "-":
            continue
        for f in D:
            src = f if same else None
            ass = [l for l in q.all("C") if l[2] == ("f", ("this",), f)]
            if any(l[1] != "operator=" or not val_of(l[3], f) for l in ass):
                bad("extreme %s" % p.decls[f]["n"], "an extreme is replaced by something else than the operand's", ass[0][4])
                continue
            larger = smaller = None
            for l in q.all("B"):
                r = relation(l[1], f, l[2])
                if r == ">":
                    larger = True
                elif r == "<=":
                    larger = False
                elif r == "<":
                    smaller = True
                elif r == ">=":
                    smaller = False
            none = any(l[0] == "B" and l[2] and empty_test(l[1], f) for l in q.labels)
            nonempty = any(l[0] == "B" and has(l[1], lambda s: s[0] == "f" and s[1] == ("param", 0) and s[2] in [N] + D) and not has(l[1], lambda s: s[0] == "f" and s[1] == ("this",)) for l in q.labels)
            skip = any(l[0] == "B" and has(l[1], lambda s: s[0] == "f" and s[1] == ("param", 0) and s[2] in [N]) and not has(l[1], lambda s: s[0] == "f" and s[1] == ("this",)) and gt0(l) is False for l in q.labels)
            if ass and not (larger or smaller or none):
                bad("extreme %s" % p.decls[f]["n"], "an extreme is replaced although the operand's is not more extreme", ass[0][4])
            if not ass and (larger or smaller) and not skip:
                bad("extreme %s" % p.decls[f]["n"], "an extreme is kept although the operand's is more extreme")
            if ass and same and (smaller or none) and not nonempty:
                bad("extreme %s" % p.decls[f]["n"], "the minimum of an operand that has no samples is taken over", ass[0][4])
            tested = any(l[0] == "B" and empty_test(l[1], f) for l in q.labels)
            if not ass and smaller is False and not tested:
                bad("extreme %s" % p.decls[f]["n"], "a minimum that was never set is kept as if it were a sample")
            if larger is None and smaller is None and not none and not skip and not ass:
                bad("extreme %s" % p.decls[f]["n"], "an extreme is not compared with the operand's")
    if sign == "+":
        # one of the two is a maximum, the other a minimum
        kinds = {}
        for q in paths:
            for f in D:
                for l in q.all("B"):
                    r = relation(l[1], f, l[2])
                    if r:
                        kinds.setdefault(f, set()).add("max" if r in (">", "<=") else "min")
        if sorted("".join(sorted(k)) for k in kinds.values()) != ["max", "min"]:
            ctx.violation("extremes in %s" % fn.qn, fn.where(), "there is not exactly one maximum and one minimum kept", (), p.tu)


def gt0(l):
    c = l[1]
    pol = l[2]
    if c[0] == "bin" and c[1] in ("<", ">", "!=", "=="):
        return pol if c[1] != "==" else not pol
    return pol


def relation(c, f, taken):
    """'>' when the branch says the operand is larger than this.f, '<' smaller, '<=' not larger, '>=' not smaller"""
    if c[0] not in ("pure", "bin"):
        return None
    op = c[1].replace("operator", "")
    a = c[2] if c[0] == "pure" else c[2:]
    if op not in ("<", ">") or len(a) != 2:
        return None
    m = lambda t: has(t, lambda s: s == ("f", ("this",), f))
    o = lambda t: val_of(t, f)
    if m(a[0]) and o(a[1]):
        larger = op == "<"
    elif o(a[0]) and m(a[1]):
        larger = op == ">"
    else:
        return None
    if larger:
        return ">" if taken else "<="
    return "<" if taken else ">="


def empty_test(c, f):
    return c[0] == "bin" and c[1] == "==" and has(c, lambda s: s == ("f", ("this",), f)) and any(t == ("c", 0) for t in c[2:])


def average(ctx, p, c, fn, N):
    def label(ex, st, ev):
        if ev.kind == "call" and ev.d is not None and ev.name == "operator/":
            return ("DIV", b03.deep(ex, st, ev.args[-1]), ev.line)
    paths, ex = trace(p, fn, c, label, force=True)
    ctx.analysed(fn)
    for q in paths:
        ctx.count("duration_operations")
        for l in q.all("DIV"):
            if not has(l[1], lambda s: s == ("f", ("this",), N)):
                ctx.violation("average in %s" % fn.qn, fn.where(l[2]), "the average is not divided by the number of samples", q.trail[-6:], p.tu)
            if truth(ex, q.facts, ("bin", "==", T0, ("v", ("f", ("this",), N)))) is not False and truth(ex, q.facts, ("bin", "<", T0, ("v", ("f", ("this",), N)))) is not True:
                ctx.violation("division by zero in %s" % fn.qn, fn.where(l[2]), "the average of no samples divides by zero", q.trail[-6:], p.tu)


def cleared(ctx, p, c, fn, N, D):
    def label(ex, st, ev):
        if ev.kind == "call" and ev.d is not None and ev.name == "operator=":
            return ("A", ev.obj, ev.args[0] if ev.args else None, len(st.rule))
        if ev.kind == "write" and ev.loc == ("f", ("this",), N):
            return ("W", ev.val, len(st.rule))
    paths, ex = trace(p, fn, c, label, force=True)
    ctx.analysed(fn)
    for q in paths:
        ctx.count("duration_operations")
        done = {l[1] for l in q.all("A")}
        for f in [("this",)] + [("f", ("this",), f) for f in D]:
            if f not in done:
                ctx.violation("reset in %s" % fn.qn, q.where, "part of a duration is not reset", q.trail[-6:], p.tu)
        if not any(l[1] == ("c", 0) for l in q.all("W")):
            ctx.violation("reset in %s" % fn.qn, q.where, "the number of samples is not reset", q.trail[-6:], p.tu)


def scoped(ctx, p):
    for c in range(len(p.classes)):
        if p.classes[c] and p.classes[c]["qn"] != NS + "auto_duration":
            continue
        for m in p.classes[c].get("ms", []):
            fn = p.fns.get(m)
            if fn is None or fn.name != "end":
                continue
            fl = [f for f in fields(p, c) if is_bool(p, p.decls[f])]
            if len(fl) != 1:
                raise Broken("flag of the scoped measurement")

            def label(ex, st, ev):
                if ev.kind == "call" and ev.d is not None and ev.name == "operator+=":
                    return ("ADD", ev.line)
                if ev.kind == "write" and ev.loc == ("f", ("this",), fl[0]):
                    return ("W", ev.val, len(st.rule))
            paths, ex = trace(p, fn, c, label, force=True)
            ctx.analysed(fn)
            for q in paths:
                s = truth(ex, q.facts, ("v", ("f", ("this",), fl[0])))
                ctx.count("duration_operations")
                n = len(q.all("ADD"))
                if s is None or n != (1 if s else 0):
                    ctx.violation("measurement in %s" % fn.qn, q.where, "a scoped measurement is added %d times while %s" % (n, "started" if s else "ended or unknown"), q.trail[-6:], p.tu)
                if s and not any(l[1] == ("c", 0) for l in q.all("W")):
                    ctx.violation("measurement in %s" % fn.qn, q.where, "a scoped measurement can be added again", q.trail[-6:], p.tu)


# ---------------------------------------------------------------- counting

def counting(ctx, p, c):
    b = base_class(p, c, NS + "socket")
    sc = stat_class(p)
    S = [f for f in p.classes[b].get("fs", []) if p.ty(p.decls[f]["ty"]).get("cls") == sc]
    if len(S) != 1:
        raise Broken("statistics of the socket")
    S = S[0]
    cnt = {f for f in fields(p, sc) if not is_time(p, f) and p.ty(p.decls[f]["ty"]).get("cls") is None}
    # roles: by what the class names in its public data
    nm = {p.decls[f]["n"]: f for f in cnt}
    try:
        SM, SB, RM, RB = nm["send_msg_sum"], nm["send_byte_sum"], nm["recv_msg_sum"], nm["recv_byte_sum"]
    except KeyError:
        raise Broken("public counters of the statistics")
    Q = i01.sendq(p, b)
    snd = b02.sender(p, c)
    comps, fly, vec = set(), set(), set()

    def slabel(ex, st, ev):
        if ev.kind == "call" and ev.d is not None:
            d = p.decls[ev.d]
            if not ev.inlined and b02.is_write(p, d):
                for t in targets(p, b02.resolve_args(ex, st, ev)):
                    if t in p.fns and p.fns[t].cls is not None and len(p.fns[t].params) == 2:
                        comps.add(t)
                for a in ev.args:
                    for s in subterms(a):
                        if s and s[0] == "f" and s[1] == ("this",) and p.ty(p.decls[s[2]]["ty"]).get("cls") is not None:
                            vec.add(s)
            if ev.obj is not None and field_of(ev.obj) == Q and b02.is_q(p, d) and ev.args and ev.args[-1][0] == "f":
                fly.add(ev.args[-1])
        return None
    trace(p, snd, c, slabel, force=True, calls=lambda p, d: b02.is_write(p, d), opaque=i01.opq(p, snd, ("check_send_cc",)))
    if not comps or not fly:
        raise Broken("write completion of %s" % p.classes[c]["qn"])

    def cells(t):
        return t and t[0] == "f" and t[1] == ("f", ("this",), S) and t[2] in cnt

    # who writes
    rd = None
    for fn in class_functions(p, c):
        if fn.name == "reset" or p.decls[fn.id].get("ctor"):
            continue
        w = {y["d"] for y in (wr(fn, x) for x in fn.st if x) if y is not None and y["d"] in cnt and under(fn, y, S)}
        if w & {SM, SB} and fn.id not in comps:
            ctx.violation("send counters in %s" % fn.qn, fn.where(), "the counters of sending are changed outside the write completion", (), p.tu)
        if w & {RM, RB}:
            receive(ctx, p, c, fn, S, RM, RB)
            ctx.count("receive_counters")
            rd = rd or set()
            rd.add(fn.id)
    if not rd:
        ctx.violation("receive counters of %s" % p.classes[c]["qn"], "", "received messages are not counted", (), p.tu)
    for i in comps:
        complete(ctx, p, c, p.fns[i], S, SM, SB, fly, vec)
    # every successful read counts once
    if rd:
        import d02
        for i in d01.starter(d02._Null(), d01.Env(p, c)):
            fn = p.fns[i]
            paths, ex = trace(p, fn, c, lambda ex, st, ev: ("N", ev.line, len(st.rule)) if ev.kind == "call" and ev.d in rd else None, force=True, opaque=lambda p, d: d["id"] in rd or d["n"] in ("parse_msg", "do_recv_msg", "on_recv_error", "on_unpack_error", "pre_handle_msg", "handle_error"))
            ctx.analysed(fn)
            for q in paths:
                if q.kind == "throw":
                    continue
                ctx.count("read_completions")
                n = len(q.all("N"))
                if n > 1:
                    ctx.violation("counted twice in %s" % fn.qn, q.where, "one read is counted more than once", q.trail[-8:], p.tu)


field_of = b02.field_of


def wr(fn, x):
    """the member an expression assigns or increments"""
    if x["k"] == "bin" and x["op"] in ("=", "+=", "-=") or x["k"] == "un" and x["op"] in ("++", "--"):
        y = fn.st[fn.strip(x["c"][0])]
        return y if y["k"] == "mem" else None
    return None


def under(fn, y, S):
    for k in [y.get("obj", -1)] + list(y.get("c", [])):
        if k is not None and k >= 0:
            z = fn.st[fn.strip(k)]
            if z["k"] == "mem" and z["d"] == S:
                return True
    return False


def complete(ctx, p, c, fn, S, SM, SB, fly, vec):
    def label(ex, st, ev):
        if ev.kind == "write" and ev.loc and ev.loc[0] == "f" and ev.loc[1] == ("f", ("this",), S) and ev.loc[2] in (SM, SB):
            return ("W", ev.loc[2], ev.val, ev.line, len(st.rule))
        if ev.kind == "call" and ev.obj in fly | vec and ev.name in ("clear", "swap", "pop_front", "erase"):
            return ("CLR", ev.obj, ev.line, len(st.rule))
    paths, ex = trace(p, fn, c, label, force=True, opaque=i01.opq(p, fn))
    ctx.analysed(fn)
    for q in paths:
        if q.kind == "throw":
            continue
        err = d01.err_fact(q)
        ctx.count("write_completions")

        def bad(rule, msg, line=None):
            ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-8:], p.tu)
        for f, what in ((SM, "messages"), (SB, "bytes")):
            w = [l for l in q.all("W") if l[1] == f]
            if err and w:
                bad("counted failure", "a failed write is counted", w[0][3])
            if not err and len(w) != 1:
                bad("counted %s" % what, "a successful write counts its %s %d times" % (what, len(w)))
            if err or len(w) != 1:
                continue
            old = ("v", ("f", ("f", ("this",), S), f))
            v = w[0][2]
            add = None
            if v and v[0] == "bin" and v[1] == "+" and old in v[2:]:
                add = v[3] if v[2] == old else v[2]
            if f == SB:
                if add != ("arg", 1):
                    bad("counted bytes", "the bytes counted are not those transferred", w[0][3])
            else:
                many = {x for x in fly if i01.is_container(p, field_of(x))}
                if many:
                    src = [x for x in many | vec if has(add, lambda s: s == x) and add[0] in ("pure", "call")] if add else []
                    if not src or "size" not in add[1]:
                        bad("counted messages", "the number of messages counted is not the number written", w[0][3])
                    elif any(l[0] == "CLR" and l[1] in src for l in q.labels[:q.labels.index(w[0])]):
                        bad("counted messages", "the messages are counted after they were removed", w[0][3])
                elif add != ("c", 1):
                    bad("counted messages", "one message written is not counted as one", w[0][3])


def receive(ctx, p, c, fn, S, RM, RB):
    READ = ("size", "empty", "begin", "end", "cbegin", "cend", "get_size_in_byte", "front", "back")

    def label(ex, st, ev):
        if ev.kind == "write" and ev.loc and ev.loc[0] == "f" and ev.loc[1] == ("f", ("this",), S) and ev.loc[2] in (RM, RB):
            return ("W", ev.loc[2], ev.val, ev.line, len(st.rule))
        if ev.kind == "call" and ev.name not in READ:
            t = [a for a in [ev.obj] + list(ev.args) if a is not None and a[0] == "f" and a[1] == ("this",) and i01.is_container(p, a[2])]
            if t:
                return ("USE", t[0], ev.name, ev.line, len(st.rule))
        return loops.label(ex, st, ev)
    paths, ex = trace(p, fn, c, label, force=True, prune=loops.prune, opaque=lambda p, d: d["n"] in ("get_size_in_byte", "on_msg", "handled_msg", "dispatch_msg", "recv_msg", "on_msg_handle") and d["id"] != fn.id or b02.is_q(p, d))
    ctx.analysed(fn)
    for q in paths:
        if q.kind == "throw":
            continue

        def bad(rule, msg, line=None):
            ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-8:], p.tu)
        src = {}
        for f, what in ((RM, "messages"), (RB, "bytes")):
            w = [l for l in q.all("W") if l[1] == f]
            if len(w) != 1:
                bad("counted %s" % what, "received %s are counted %d times" % (what, len(w)))
                continue
            old = ("v", ("f", ("f", ("this",), S), f))
            v = w[0][2]
            add = (v[3] if v[2] == old else v[2]) if v and v[0] == "bin" and v[1] == "+" and old in v[2:] else None
            if add is None:
                bad("counted %s" % what, "received %s do not increase the counter" % what, w[0][3])
                continue
            cs = [s for s in subterms(add) if s and s[0] == "f" and s[1] == ("this",) and isinstance(s[2], int) and i01.is_container(p, s[2])]
            kind = [s[1] for s in subterms(add) if s and s[0] in ("pure", "call") and isinstance(s[1], str)]
            if f == RM and (not cs or not any(k.split("::")[-1] == "size" for k in kind)):
                bad("counted messages", "the number of messages counted is not the number received", w[0][3])
            elif f == RB and not any(k.split("::")[-1] == "get_size_in_byte" for k in kind):
                its = [i for i in loops.iterations(q.labels) if not loops.stepping(i)]
                if not (has(add, lambda s: s[0] == "h") and its or add == ("c", 0) and any(l[0] == "LT" for l in q.labels)):
                    bad("counted bytes", "the bytes counted are not the total size of the messages received", w[0][3])
            for x in cs:
                src[x] = min(src.get(x, 1 << 30), q.labels.index(w[0]))
                u = [l for l in q.labels[:q.labels.index(w[0])] if l[0] == "USE" and l[1] == x]
                # a size taken earlier is still good when it was taken before the first use
                if u and not (f == RB and any(s[0] == "call" and s[1].endswith("get_size_in_byte") for s in subterms(add) if s and isinstance(s[1], str))):
                    bad("counted %s" % what, "received messages are counted after they were handed on", w[0][3])
        if len(src) > 1:
            bad("counted batch", "the number and the size counted belong to different messages")


def sizes(ctx, p):
    """the helper that totals the size of a container"""
    n = 0
    for fn in list(p.fns.values()):
        if fn.name != "get_size_in_byte" or fn.cls is not None:
            continue
        n += 1
        ctx.analysed(fn)
        names = {p.decls[d]["n"] for _, d in fn.fnrefs()} | {p.decls[x["d"]]["n"] for _, x in fn.calls() if x.get("d") is not None}
        for g in p.fns.values():
            pass
        add = "operator+=" in names or any(x and x["k"] == "bin" and x["op"] == "+=" for x in fn.st)
        lam = any(x and x["k"] == "lambda" for x in fn.st)
        if not (add and "size" in names) and not lam:
            ctx.violation("size in %s" % fn.qn, fn.where(), "the total size of a container is not the sum of its elements' sizes", (), p.tu)
    ctx.count("size_helpers", n)


def pools(ctx, p):
    for c in p.leaf_classes(NS + "object_pool"):
        b = base_class(p, c, NS + "object_pool")
        fn = own_method(p, b, "get_statistic")
        sc = stat_class(p)

        def label(ex, st, ev):
            if ev.kind == "call" and ev.d is not None:
                if ev.name == "operator+=":
                    a = [b03.deep(ex, st, x) for x in ev.args]
                    return ("ADD", ev.obj if ev.obj is not None else ev.args[0], tuple(t for x in a for t in targets(p, x)), tuple(a), ev.res, ev.line, len(st.rule))
                if ev.name == "do_something_to_all":
                    return ("ALL", tuple(b03.deep(ex, st, x) for x in ev.args), ev.line)
                if ev.name == "<ctor>" and p.decls[ev.d].get("cls") == sc and ev.args:
                    return ("CP", ev.args[0], ev.line, len(st.rule))
            return loops.label(ex, st, ev)
        paths, ex = trace(p, fn, c, label, force=True, prune=loops.prune, opaque=("do_something_to_all",))
        ctx.analysed(fn)
        for q in paths:
            if q.kind == "throw":
                continue
            ctx.count("pool_totals")
            add = q.all("ADD")
            its = loops.iterations(q.labels)
            ok = True
            if q.all("ALL"):
                get = [l for l in add if any(p.decls[t]["n"] == "get_statistic" for t in l[2])]
                ok = len(q.all("ALL")) == 1 and len(add) == 1 and len(get) == 1 and (any(l[1] == add[0][1] for l in q.all("CP")) if q.all("CP") else has(q.val, lambda s: s == add[0][1]))
            elif any(l[0] == "LT" for l in q.labels):
                ok = not any(loops.stepping(i) for i in its) and len(add) == len(its)
            else:
                ok = False
            if not ok:
                ctx.violation("total in %s" % fn.qn, q.where, "the pool's total does not add every socket's statistics exactly once", q.trail[-6:], p.tu)


def unit(ctx, p):
    sc = stat_class(p)
    for m in p.classes[sc].get("ms", []):
        fn = p.fns.get(m)
        if fn is None:
            continue
        if fn.name in ("operator+=", "operator-="):
            fieldwise(ctx, p, sc, fn, fn.name[8])
        elif fn.name in ("operator+", "operator-"):
            valuewise(ctx, p, sc, fn, fn.name + "=")
        elif fn.name == "reset":
            zeroed(ctx, p, sc, fn, True)
        elif fn.name == "<ctor>" and not fn.params:
            zeroed(ctx, p, sc, fn, True)
        elif fn.name == "to_string":
            printed(ctx, p, sc, fn)
    durations(ctx, p)
    scoped(ctx, p)
    sizes(ctx, p)
    for c in p.leaf_classes(NS + "socket"):
        counting(ctx, p, c)
    pools(ctx, p)


def run(ctx):
    ctx.each(LIB, unit)
    ctx.need("field_operations", 60)
    ctx.need("field_resets", 20)
    ctx.need("duration_operations", 10)
    ctx.need("write_completions", 20)
    ctx.need("receive_counters", 20)
    ctx.need("pool_totals", 8)
