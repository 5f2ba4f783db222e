RULE = """A socket enters the table of active sockets only when, under the same hold of the table's lock, the table was found smaller than its maximum, under the key that is
its own id, and the adding function reports success exactly when the entry was made; the only other insertion gives a socket already in the table a new id, whose entry
must be new before the old one is removed, and then the id is changed to that key under the same lock hold. The id of a socket is assigned nowhere else than there and on
creation, where it is taken exactly once from an atomic counter that only moves on, before the application learns of the socket. The functions that add a socket report
success, return it, start it and take extra thread references only when the table accepted it. A lookup returns the entry found under that id, or nothing when none is."""
EXPLANATION = """Every path of every function of the pool, of the service classes that add sockets and of the callers that hand the socket to the application, with the
branch facts on size, insertion result and lookup result."""
ASSUMPTIONS = ["the map refuses an insertion under a key it already has", "the id counter does not wrap around 64 bits, and the application sets the first id only right after construction, as documented"]
import loops
import a03
from a03 import Pool, pools, canon, strip_v, is_key_of, inserted, rekeyed, present, exempt
from b03 import deep
from f01 import ctor_only, callers
from lib import *
from witness_units import LIB, DEMO


def id_field(p):
    out = set()
    for b in p.cls_by_qn(NS + "socket"):
        for m in p.classes[b].get("ms", []):
            if p.decls[m]["n"] == "id" and m in p.fns and not p.fns[m].params:
                for x in p.fns[m].st:
                    if x and x["k"] == "mem" and p.decls[x["d"]]["k"] == "field":
                        out.add(x["d"])
    return out


def size_below(P, l):
    """('size below maximum' value) a branch says"""
    c, pol = l[1], l[2]
    while c and c[0] == "un" and c[1] == "!":
        c, pol = c[2], not pol
    if not c or c[0] != "bin" or c[1] not in ("<", ">", "<=", ">="):
        return None
    a, b, op = c[2], c[3], c[1]
    if not is_size(P, a):
        a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
    if not is_size(P, a) or not is_max(P, b):
        return None
    return {"<": pol, ">=": not pol}.get(op)


def is_size(P, t):
    return has(t, lambda q: q[0] in ("pure", "call") and str(q[1]).split("::")[-1] == "size" and has(q, lambda s: s == P.T)) and not has(t, lambda q: q[0] == "bin")


def is_max(P, t):
    return has(t, lambda q: q == ("f", ("this",), P.size)) and not has(t, lambda q: q[0] == "bin")


def pool(ctx, P, idf):
    p = P.p
    for fn in P.fns:
        if exempt(p, fn):
            continue
        acc = []

        def extra(ex, st, ev, held):
            out = []
            if ev.kind == "write" and ev.loc and ev.loc[0] == "f" and ev.loc[2] in idf:
                out.append(("IDW", strip_v(ev.loc[1][1]) if ev.loc[1] and ev.loc[1][0] == "deref" else ev.loc[1], ev.val, ev.op, ev.line, len(st.rule)))
            if ev.kind == "call" and ev.d is not None:
                n = ev.name
                if n in ("fetch_add", "fetch_sub", "store", "exchange", "operator=", "operator++", "operator--", "operator+=", "operator-=", "compare_exchange_strong", "compare_exchange_weak", "load") and ev.obj and ev.obj[0] == "f" and ev.obj[1] == ("this",) and "atomic" in p.ty(p.decls[ev.obj[2]]["ty"])["s"]:
                    out.append(("CTR", n, ev.obj[2], tuple(deep(ex, st, a) for a in ev.args), ev.res, ev.line, len(st.rule)))
                if n == "on_create":
                    out.append(("CR", strip_v(deep(ex, st, ev.args[0])) if ev.args else None, ev.line))
            return out
        paths, ex = a03.explore(P, fn, acc, extra)
        fn_in = any(l[0] == "IN" and l[1] == "T" for q in paths for l in q.labels)
        fn_id = any(l[0] in ("IDW", "CTR") for q in paths for l in q.labels)
        if not (fn_in or fn_id):
            continue
        ctx.analysed(fn)
        own = fn_in and any(l[0] == "IN" and l[1] == "T" and keyed(P, l) for q in paths for l in q.labels)
        for q in paths:
            ctx.count("paths")
            if q.kind != "exit":
                continue

            def bad(rule, msg, line=None):
                ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-12:], p.tu)
            ins = [(i, l) for i, l in enumerate(q.labels) if l[0] == "IN" and l[1] == "T"]
            for i, l in ins:
                ctx.count("insertions")
                o = canon(p, l[4][-1]) if l[4] else None
                if l[2] not in ("emplace", "insert", "try_emplace") or len(l[4]) != 2:
                    bad("overwriting insertion", "a socket is put into the table of active sockets by an operation that may replace another one (%s)" % l[2], l[6])
                    continue
                if keyed(P, l):
                    room = [(j, size_below(P, b)) for j, b in enumerate(q.labels[:i]) if b[0] == "BR" and size_below(P, b) is not None]
                    if not (room and room[-1][1] is True):
                        bad("capacity", "a socket is put into the table of active sockets without the table having been found smaller than its maximum", l[6])
                    elif any(m[0] == "rel" for m in q.labels[max([j for j, m in enumerate(q.labels[:i]) if m[0] == "SZ"] or [0]):i]):
                        bad("capacity", "the lock is released between the test of the capacity and the insertion", l[6])
                else:
                    ok = inserted(P, q, ex, l)
                    w = [(j, m) for j, m in enumerate(q.labels) if m[0] == "IDW" and m[1] == o]
                    if not present_any(P, q, ex, o):
                        bad("foreign key", "a socket is put into the table of active sockets under a key that is not its id", l[6])
                    elif ok is True:
                        ctx.count("rekeys")
                        if len(w) != 1 or not same_key(w[0][1][2], l) or w[0][0] < i or any(m[0] == "rel" for m in q.labels[i:w[0][0]]):
                            bad("stale id", "a socket entered under a new id does not get that id under the same hold of the lock", l[6])
                        if q.val is not None and q.val == T0:
                            bad("answer", "the id was changed but the call reports failure")
                    elif ok is None and w:
                        bad("id conflict", "a socket gets a new id although that id may belong to another active socket", l[6])
            if own and is_bool(p, p.decls[fn.id]):
                v = q.val
                if not ins:
                    if v != T0:
                        bad("answer", "the call may report success although the socket was not added")
                else:
                    ok = inserted(P, q, ex, ins[-1][1])
                    if not (v and v[0] in ("f", "fv") and v[1] == ins[-1][1][5] or v and v[0] == "c" and ok is not None and bool(v[1]) == ok or v and v[0] == "v" and has(v, lambda t: t == ins[-1][1][5])):
                        bad("answer", "the call does not report whether the socket was added")
            if own and not ins and q.kind == "exit":
                # refusing needs a reason: no object, or no room
                full = [size_below(P, b) for b in q.labels if b[0] == "BR" and size_below(P, b) is not None]
                if full and full[-1] is True:
                    bad("needless refusal", "a socket is refused although the table has room")
            for i, m in enumerate(q.labels):
                if m[0] == "IDW":
                    ctx.count("id_writes")
                    rk = any(l[0] == "IN" and l[1] == "T" and canon(p, l[4][-1]) == m[1] and i > j and inserted(P, q, ex, l) for j, l in enumerate(q.labels))
                    if rk:
                        continue
                    fresh = [c for c in q.labels[:i] if c[0] == "CTR" and c[1] == "fetch_add" and has(m[2], lambda t: t == c[4])]
                    if not fresh:
                        bad("id assignment", "a socket gets an id that was neither taken from the id counter nor checked against the table", m[4])
                        continue
                    if sum(1 for x in q.labels if x[0] == "IDW" and x[1] == m[1]) != 1:
                        bad("id assignment", "a new socket gets more than one id", m[4])
                    cr = [j for j, x in enumerate(q.labels) if x[0] == "CR"]
                    if any(j < i for j in cr):
                        bad("late id", "the application learns of a new socket before it has its id", m[4])
                    if not offset(m[2], fresh[0][4]):
                        bad("id assignment", "the id of a new socket is not the counter's value plus a constant", m[4])
                    ctx.count("fresh_ids")
                elif m[0] == "CTR":
                    if m[1] == "fetch_add" and m[3] and m[3][0][0] == "c" and m[3][0][1] > 0 or m[1] in ("operator++", "load"):
                        continue
                    if m[1] == "store" and m[3] and has(m[3][0], lambda t: t[0] == "arg") and fn.params and not any(x[0] in ("IN", "IDW", "CR") for x in q.labels):
                        continue  # the documented setter
                    bad("id counter", "the id counter is not moved on by a positive amount", m[5])
                elif m[0] == "CR":
                    ctx.count("creations")
                    if not any(x[0] == "IDW" and x[1] == m[1] for x in q.labels[:i]):
                        bad("missing id", "a created socket is reported to the application without a new id", m[2])


def same_key(v, l):
    """the value an id gets is the key of the insertion (an argument passed by reference keeps its value)"""
    v = strip_v(v)
    return v == strip_v(l[4][0]) or bool(v) and v[0] == "out" and l[5] is not None and l[5][0] == "call" and v[1] == l[5][2] and v[2] == 0


def keyed(P, l):
    if not l[4] or len(l[4]) != 2:
        return False
    k = is_key_of(P, l[4][0])
    return k is not None and strip_v(k) == canon(P.p, l[4][1])


def present_any(P, q, ex, o):
    if present(P, q, ex, o):
        return True
    for l in q.labels:
        if l[0] == "RM" and l[1] == "T" and canon(P.p, a03.removed(P, q, 0, l)) == o and truth(ex, q.facts, ("bin", ">", l[5], T0)):
            return True
    return False


def offset(v, c):
    """is the value counter + constant"""
    v = a03.unconv(v)
    if v == c:
        return True
    return bool(v) and v[0] == "bin" and v[1] in ("+", "-") and (v[2] == c and v[3][0] == "c" or v[3] == c and v[2][0] == "c" and v[1] == "+")


def foreign_ids(ctx, p, idf, P0):
    """nobody but the pool assigns ids"""
    own = {P.b for P in P0}
    m = callers(p)
    setters = set()
    for fn in p.fns.values():
        if fn.cls is None or not p.classes[fn.cls]["qn"].startswith(NS):
            continue
        if fn.name == "id" and len(fn.params) == 1 and any(x and x["k"] == "mem" and x["d"] in idf for x in fn.st):
            setters.add(fn.id)
    if not setters:
        raise Broken("no function sets a socket's id")
    for fn in p.fns.values():
        if fn.id in setters or fn.cls in own:
            continue
        for i, x in fn.calls():
            if x.get("d") in setters:
                ctx.violation("id assignment in %s" % fn.qn, fn.where(x.get("l")), "a socket's id is set outside the pool", (), p.tu)
        if any(x and x["k"] == "mem" and x["d"] in idf for x in fn.st) and not p.decls[fn.id].get("ctor") and not p.decls[fn.id].get("const"):
            if ctor_only(p, fn, m):
                continue
            for q in trace(p, fn, fn.cls, lambda ex, st, ev: ("W", ev.line, len(st.rule)) if ev.kind == "write" and ev.loc and ev.loc[0] == "f" and ev.loc[2] in idf else ("BR", ev.cond, ev.taken) if ev.kind == "branch" else None, force=True, opaque=lambda p, d: True)[0]:
                for i, l in enumerate(q.labels):
                    if l[0] != "W" or any(unset(b, idf) for b in q.labels[:i] if b[0] == "BR"):
                        continue
                    ctx.violation("id assignment in %s" % fn.qn, fn.where(l[1]), "a socket's id is changed outside the pool", q.trail, p.tu)


def unset(l, idf):
    """does this branch say that the socket has no id yet (it still is the initial all-ones value)"""
    c, pol = l[1], l[2]
    while c and c[0] == "un" and c[1] == "!":
        c, pol = c[2], not pol
    if not c or c[0] != "bin" or c[1] not in ("==", "!=") or pol != (c[1] == "=="):
        return False
    for a, b in ((c[2], c[3]), (c[3], c[2])):
        if a and a[0] == "c" and a[1] in (-1, 2**64 - 1) and has(b, lambda t: t[0] in ("f", "fv") and t[2] in idf):
            return True
    return False


def adders(ctx, p):
    """functions that call add_object, and those that hand the added socket out"""
    seen = set()
    for c in p.leaf_classes(NS + "object_pool"):
        for fn in class_functions(p, c):
            if (fn.id, c) in seen or fn.cls is None or p.classes[fn.cls]["qn"] == NS + "object_pool":
                continue
            names = {p.decls[x["d"]]["n"] for _, x in fn.calls() if x.get("d") is not None}
            if not names & {"add_object", "add_socket"} or fn.name not in ("add_socket", "add_client") and "add_object" not in names and "object_ptr" not in p.ty(p.decls[fn.id]["ty"])["s"] and "shared_ptr" not in p.ty(p.decls[fn.id]["ty"])["s"]:
                continue
            seen.add((fn.id, c))
            ctx.analysed(fn)
            ctx.count("adders")

            def label(ex, st, ev):
                if ev.kind == "branch":
                    return ("BR", ev.cond, ev.taken, len(st.rule))
                if ev.kind == "call" and ev.d is not None and not ev.inlined:
                    if ev.name == "add_object":
                        return ("ADD", strip_v(deep(ex, st, ev.args[0])), ev.res, ev.line)
                    if ev.name in ("start", "add_io_context_refs") and ev.obj is not None and ev.obj[0] == "deref":
                        return ("USE", ev.name, strip_v(ev.obj[1]), ev.line, len(st.rule))
                    if ev.name == "reset" and not ev.args and ev.res and ev.res[0] == "call":
                        return ("PR", ev.res[2], len(st.rule))
                    if ev.name == "is_service_started":
                        return ("SS", ev.res)
            paths, ex = trace(p, fn, c, label, force=True, opaque=("add_object", "create_object", "start", "add_io_context_refs", "show_info", "is_service_started"), calls=("add_object",))
            for q in paths:
                if q.kind != "exit":
                    continue
                ctx.count("adder_paths")

                def bad(rule, msg, line=None):
                    ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-12:], p.tu)
                add = [(i, l) for i, l in enumerate(q.labels) if l[0] == "ADD"]
                if len(add) > 1:
                    bad("double add", "a socket is added twice")
                ok = truth(ex, q.facts, add[-1][1][2]) if add else False
                for i, l in enumerate(q.labels):
                    if l[0] == "USE":
                        if not add or ok is not True or i < add[-1][0] or add[-1][1][1] != l[2]:
                            bad("refused socket used", "%s() is called for a socket the pool has not accepted" % l[1], l[3])
                        ss = [x for x in q.labels[:i] if x[0] == "SS"]
                        if l[1] == "start" and not (ss and truth(ex, q.facts, ss[-1][1])):
                            bad("early start", "an added socket is started although the services are not", l[3])
                if ok is True:
                    ss = [x for x in q.labels if x[0] == "SS"]
                    started = truth(ex, q.facts, ss[-1][1]) if ss else None
                    n = sum(1 for l in q.labels if l[0] == "USE" and l[1] == "start")
                    if started is not False and n != 1:
                        bad("not started", "a socket added while the services are running is not started exactly once")
                v = q.val
                if is_bool(p, p.decls[fn.id]):
                    if v and v[0] == "c":
                        if bool(v[1]) != (ok is True) or ok is None:
                            bad("answer", "the call does not report whether the pool accepted the socket")
                    elif not (add and v == add[-1][1][2]):
                        bad("answer", "the call does not report whether the pool accepted the socket")
                elif v is not None:
                    w = strip_v(v)
                    empty = w and w[0] == "obj" and not w[2] or v == T0 or any(l[0] == "BR" and is_null(l, w) or l[0] == "PR" and w == ("out", l[1], "obj") for l in q.labels)
                    if ok is not True and not empty:
                        bad("refused socket returned", "a socket the pool has not accepted is returned to the caller")
                    if ok is True and (empty or add[-1][1][1] != w):
                        bad("added socket lost", "the added socket is not returned to the caller")
                    if ok is True:
                        ctx.count("handed_out")


def is_null(l, o):
    c, pol = l[1], l[2]
    while c and c[0] == "un" and c[1] == "!":
        c, pol = c[2], not pol
    if c and c[0] == "bin" and c[1] in ("==", "!=") and c[3] == T0:
        pol = pol if c[1] == "!=" else not pol
        c = c[2]
    while c and c[0] == "un" and c[1] == "!":
        c, pol = c[2], not pol
    if c and c[0] == "pure" and c[2] and strip_v(c[2][0]) == o:
        return pol if c[1] == "operator!" else not pol
    return False


def lookups(ctx, P):
    p = P.p
    for name in ("find", "exist", "invalid_object_find"):
        fn = own_method(p, P.b, name)
        ctx.analysed(fn)
        paths, ex = a03.explore(P, fn, [])
        for q in paths:
            ctx.count("lookup_paths")

            def bad(msg):
                ctx.violation("lookup in %s" % fn.qn, q.where, msg, q.trail[-12:], p.tu)
            if q.kind != "exit":
                continue
            v = canon(p, q.val)
            fd = [l for l in q.labels if l[0] == "FD" and l[1] == "T"]
            lt = [l for l in q.labels if l[0] == "LT"]
            if name == "exist":
                c = strip_v(q.val)
                if counted(P, ex, q):
                    continue
                if fd and lt and fd[0][2] and strip_v(fd[0][2][0]) == ("arg", 0) or fd and lt and strip_v(fd[0][2][0]) == ("var", fn.params[0], 0):
                    if q.val == ("c", 1 if lt[-1][3] else 0):
                        continue
                if not fd_term(P, q, fn):
                    bad("the answer is not whether the table has an entry under the id")
                continue
            if name == "find":
                key = bool(fd) and key_is_arg(fd[0][2], fn)
                if fd and lt and lt[-1][1] == fd[0][3]:
                    if lt[-1][3] and not (v == ("f", ("deref", fd[0][3]), "value") and key):
                        bad("the socket returned is not the one found under the id")
                    if not lt[-1][3] and not (v and v[0] == "obj" and not v[2]):
                        bad("something is returned although no socket has the id")
                    continue
                bad("the answer does not follow from a lookup of the id")
            else:
                if not lt:
                    continue
                if lt[-1][3]:
                    if not (v and v[0] == "deref" and v[1] == lt[-1][1]):
                        bad("the socket returned is not the one found under the id")
                elif not (v and v[0] == "obj" and not v[2]):
                    bad("something is returned although no socket has the id")


def key_is_arg(vals, fn):
    if not vals:
        return False
    k = strip_v(vals[0])
    return k == ("arg", 0) or bool(k) and k[0] == "var" and k[1] == fn.params[0]


def counted(P, ex, q):
    """count(id) > 0 / != 0, as a value or as the branch taken"""
    def cnt(t):
        return has(t, lambda s: s[0] in ("pure", "call") and str(s[1]).split("::")[-1] in ("count", "contains") and has(s, lambda x: x == P.T))
    v = q.val
    if v and v[0] == "c":
        for l in q.labels:
            if l[0] == "BR" and cnt(l[1]):
                c, pol = l[1], l[2]
                while c and c[0] == "un" and c[1] == "!":
                    c, pol = c[2], not pol
                if c and c[0] == "bin":
                    pol = {">": pol, "!=": pol, "==": not pol, "<=": not pol}.get(c[1], pol) if c[3] == T0 else {"<": pol, "!=": pol, "==": not pol, ">=": not pol}.get(c[1], pol)
                return bool(v[1]) == pol
        return False
    if not v or not cnt(v):
        return False
    pol = True
    while v and v[0] == "un" and v[1] == "!":
        v, pol = v[2], not pol
    if v[0] == "bin":
        if v[3] == T0:
            return pol == {">": True, "!=": True, "==": False, "<=": False}.get(v[1])
        if v[2] == T0:
            return pol == {"<": True, "!=": True, "==": False, ">=": False}.get(v[1])
        if v[3] == ("c", 1):
            return pol == {">=": True, "==": True}.get(v[1])
        return False
    return pol


def fd_term(P, q, fn):
    v, pol = q.val, True
    while v and v[0] == "un" and v[1] == "!":
        v, pol = v[2], not pol
    t = loops.test(v) if v else None
    return t is not None and t[2] == pol and any(l[0] == "FD" and l[3] == t[0] and key_is_arg(l[2], fn) for l in q.labels)


def unit(ctx, p):
    idf = id_field(p)
    if not idf:
        raise Broken("the id of a socket was not found")
    ps = pools(p)
    for P in ps:
        ctx.count("pools")
        pool(ctx, P, idf)
        lookups(ctx, P)
    if ps:
        foreign_ids(ctx, p, idf, ps)
        adders(ctx, p)


def run(ctx):
    ctx.each(LIB + DEMO, unit)
    ctx.need("pools", 12)
    ctx.need("insertions", 100)
    ctx.need("rekeys", 12)
    ctx.need("fresh_ids", 12)
    ctx.need("creations", 12)
    ctx.need("adders", 30)
    ctx.need("handed_out", 10)
    ctx.need("lookup_paths", 60)
