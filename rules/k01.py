RULE = """An accept is started only while the server's lock is held and the listening state was found (or just made) true under that hold, and its completion is bound to the very
socket it accepts into. Every completion of an accept leads to exactly one new accept when the accept succeeded, or failed in a way the hook tolerates, and the server
still listens, and to none otherwise; an accepted socket is added exactly when the application's hook agrees. The listening state becomes true only in the function that
opened, bound and put the acceptor into listening mode: when that function reports success, all of it succeeded, the state is true and every created socket is being
accepted into; when it reports failure, the state is not true and a bound acceptor was closed, so that it can be tried again. Stopping makes the state false and closes the
acceptor under the same lock; stopping the service stops listening, starting it reports success only when listening succeeded, and the default error hook gives up only on
cancellation or after it stopped listening."""
EXPLANATION = """Every path of the accept completion, of the functions that start and stop listening, and of every other function that starts an accept or changes the listening
state, with a lock automaton and the branch facts on the listening state, the error codes and the hooks' answers, in every concrete server class."""
ASSUMPTIONS = ["closing an acceptor completes its pending accepts with operation_aborted", "creating a socket object fails only when memory is exhausted"]
import locks, loops
from a03 import strip_v
from b03 import deep
from lib import *
from witness_units import LIB, DEMO

LOGS = ("error_out", "info_out", "warning_out", "fatal_out", "debug_out", "all_out")


class Server:
    def __init__(self, p, c):
        self.p, self.c = p, c
        self.b = base_class(p, c, NS + "tcp::generic_server")
        f = getter_field(p, self.b, "is_listening")
        self.listening = ("f", ("this",), f)
        self.lname = p.decls[f]["n"]
        self.fns = class_functions(p, c)


def err_of(q, res):
    """did the operation with this result report an error on this path (through its error_code out-argument)"""
    if not res or res[0] not in ("call", "pure"):
        return None
    sites = {res[2]} if res[0] == "call" else {t[1] for t in subterms(res) if t[0] == "out"}
    for l in q.labels:
        if l[0] == "BR" and has(l[1], lambda t: t[0] == "out" and t[1] in sites and t[2] != "obj"):
            v = l[2]
            c = l[1]
            while c and c[0] in ("un", "bin"):
                if c[0] == "un" and c[1] == "!":
                    c, v = c[2], not v
                elif c[0] == "bin" and c[1] in ("!=", "==") and T0 in (c[2], c[3]):
                    v = v if c[1] == "!=" else not v
                    c = c[2] if c[3] == T0 else c[3]
                else:
                    break
            if c and c[0] in ("pure", "call") and str(c[1]).endswith("operator!"):
                v = not v
            return v
    return None


def explore(S, fn):
    p = S.p

    def label(ex, st, ev):
        out = []
        r = st.rule
        ls = r[0][1] if r and r[0][0] == "LS" else locks.LockState.empty()
        ns, evs = locks.step(p, ex, st, ev, ls)
        for e in evs:
            out.append((e[0], e[1], len(r)))
        if ns != ls:
            st.rule = (("LS", ns),) + tuple(x for x in r if x[0] != "LS")
        held = ns[0]
        n = len(r)
        if ev.kind == "branch":
            if has(ev.cond, lambda t: t == S.listening):
                c, v = ev.cond, ev.taken
                while c and c[0] == "un" and c[1] == "!":
                    c, v = c[2], not v
                if c and c[0] in ("v", "rd", "f", "call") or c == S.listening:
                    out.append(("LIS", v, held, n))
            t = loops.test(ev.cond)
            if t is not None:
                out.append(("LT", t[0], t[1], t[2] == ev.taken, ev.line, n))
            out.append(("BR", ev.cond, ev.taken, n))
        elif ev.kind == "write" and ev.loc == S.listening:
            out.append(("SET", ev.val, held, ev.line, n))
        elif ev.kind == "call" and ev.d is not None:
            nm = ev.name
            if nm in ("operator++", "operator--"):
                out.append(("LI", ev.obj if ev.obj is not None else ev.args[0], nm, ev.line, n))
            elif nm == "async_accept" and not ev.inlined and ev.obj is not None and ev.obj[0] == "f":
                out.append(("ACC", held, deep(ex, st, ev.args[0]), deep(ex, st, ev.args[-1]) if len(ev.args) < 3 else tuple(deep(ex, st, a) for a in ev.args[1:]), ev.line, n))
            elif nm == "operator()" and not ev.inlined and ev.obj is not None:
                v = deep(ex, st, ev.obj)
                for t in targets(p, v):
                    if t in p.fns and accepts(p, p.fns[t]):
                        out.append(("ACC", held, tuple(deep(ex, st, a) for a in ev.args), None, ev.line, n))
                        break
            elif nm in ("bind", "listen", "open", "close", "cancel") and ev.obj is not None and ev.obj[0] == "f" and ev.obj[1] == ("this",) and "acceptor" in p.ty(p.decls[ev.obj[2]]["ty"])["s"]:
                out.append(("OP", nm, ev.res, held, ev.line, n))
            elif nm in ("on_accept", "on_accept_error"):
                if not ev.inlined:
                    out.append(("HOOK", nm, ev.res, ev.line, n))
            elif nm in ("add_object",):
                out.append(("ADD", strip_v(deep(ex, st, ev.args[0])), ev.res, ev.line, n))
            elif nm == "create_object":
                out.append(("NEW", ev.res, n))
            if nm in ("emplace_back", "push_back", "emplace_front", "push_front") and ev.obj is not None:
                out.append(("KEEP", ev.obj, n))
        return out or None

    def op(p, d):
        return d["n"] in LOGS or d["n"] in ("create_object", "add_object", "show_info", "on_accept", "async_accept_num", "force_shutdown") or d["n"] == "on_accept_error" and d["id"] != fn.id
    return trace(p, fn, S.c, label, force=True, opaque=op, fields=(S.lname,), calls=("async_accept", "add_object", "bind", "listen"), bodies=lambda f: f.name == "do_something_to_all" and f.cls is None, prune=prune, cap=400)


def prune(ex, st, ev):
    if ev.kind != "branch":
        return False
    t = loops.test(ev.cond)
    if t is not None and t[2] == ev.taken:
        return sum(1 for l in st.rule if l[0] == "LT" and l[4] == ev.line and l[3]) >= 2
    if ev.line and not has(ev.cond, lambda t: t[0] == "c" and False):
        # a counting loop: two rounds are enough
        return sum(1 for l in st.rule if l[0] == "BR" and l[1] == ev.cond and l[2] == ev.taken) >= 3
    return False


_acc = {}


def accepts(p, fn, depth=0):
    k = (p.tu, fn.id)
    if k in _acc:
        return _acc[k]
    _acc[k] = False
    r = False
    for _, x in fn.calls():
        d = x.get("d")
        if d is None:
            continue
        if p.decls[d]["n"] == "async_accept" and d not in p.fns:
            r = True
        elif d in p.fns and depth < 3 and accepts(p, p.fns[d], depth + 1):
            r = True
    _acc[k] = r
    return r


def handlers(p, S):
    out = set()
    for fn in S.fns:
        for q in (explore(S, fn)[0] if direct(p, fn) else ()):
            for l in q.labels:
                if l[0] == "ACC" and l[3] is not None:
                    for t in targets(p, l[3] if isinstance(l[3], tuple) else ()):
                        if t in p.fns:
                            out.add(t)
    return out


def direct(p, fn):
    return any(x.get("d") is not None and p.decls[x["d"]]["n"] == "async_accept" for _, x in fn.calls()) and fn.cls is not None


def written(p, S, fn):
    return touches(fn, (S.lname,))


def acc_ok(ctx, S, fn, q, p):
    """every accept on this path is started in the listening state, under the lock"""
    for i, l in enumerate(q.labels):
        if l[0] != "ACC":
            continue
        ctx.count("accept_starts")
        if not l[1]:
            ctx.violation("unlocked accept in %s" % fn.qn, fn.where(l[4]), "an accept is started without the server's lock", q.trail[-12:], p.tu)
            continue
        st = None
        for m in reversed(q.labels[:i]):
            if m[0] == "rel":
                break
            if m[0] == "LIS":
                st = m[1]
                break
            if m[0] == "SET":
                st = m[1] == ("c", 1)
                break
        if st is not True:
            ctx.violation("accept after stop in %s" % fn.qn, fn.where(l[4]), "an accept is started without knowing, under the lock, that the server listens", q.trail[-12:], p.tu)
        if l[3] is not None and isinstance(l[3], tuple):
            b = next((t for t in subterms(l[3]) if t and t[0] in ("pure", "call") and str(t[1]).split("::")[-1] == "bind" and any(x in p.fns for x in targets(p, t))), None)
            if b is not None:
                a = b[2] if b[0] == "pure" else b[4]
                hs = [x for x in targets(p, b) if x in p.fns][0]
                cand = [strip_v(x) for x in a[1:]]
                base = [x for x in cand if x and x != ("addr", ("this",)) and x != ("this",) and has(l[2], lambda t: t == x or strip_v(t) == x)]
                if not base:
                    ctx.violation("wrong socket in %s" % fn.qn, fn.where(l[4]), "the completion of an accept is not bound to the socket it accepts into", q.trail[-12:], p.tu)


def null_created(q):
    """the path where creating a socket failed"""
    return failed(q, *[m[1] for m in q.labels if m[0] == "NEW"])


def failed(q, *news):
    for l in q.labels:
        if l[0] == "BR":
            if any(has(l[1], lambda t: t == x) for x in news if x):
                c, v = l[1], l[2]
                while c and c[0] in ("un", "bin"):
                    if c[0] == "un" and c[1] == "!":
                        c, v = c[2], not v
                    elif c[0] == "bin" and c[1] in ("!=", "==") and T0 in (c[2], c[3]):
                        v = v if c[1] == "!=" else not v
                        c = c[2] if c[3] == T0 else c[3]
                    else:
                        break
                if c and c[0] == "pure" and c[1] == "operator!":
                    v = not v
                if not v:
                    return True
    return False


def slot(p, q):
    """the application registered a callback that may replace the built-in function (P01 decides that wrapper)"""
    return any(l[0] == "BR" and has(l[1], lambda t: t[0] == "f" and "::callbacks::" in (p.classes[p.decls[t[2]]["cls"]]["qn"] if p.decls[t[2]].get("cls") is not None else "")) for l in q.labels)


def handler(ctx, S, fn):
    p = S.p
    ctx.analysed(fn)
    paths, ex = explore(S, fn)
    for q in paths:
        if q.kind != "exit":
            continue
        ctx.count("completion_paths")

        def bad(rule, msg):
            ctx.violation("%s in %s" % (rule, fn.qn), q.where, msg, q.trail[-12:], p.tu)
        n = len(q.all("ACC"))
        lis = [l for l in q.labels if l[0] == "LIS"]
        last = lis[-1][1] if lis else None
        hook = [l for l in q.labels if l[0] == "HOOK"]
        okc = [l for l in hook if l[1] == "on_accept"]
        errh = [l for l in hook if l[1] == "on_accept_error"]
        adds = q.all("ADD")
        ec = None
        for l in q.labels:
            if l[0] == "BR" and has(l[1], lambda t: t in (("arg", 0), ("param", 0))) and not has(l[1], lambda t: t[0] == "call" and str(t[1]).split("::")[-1].startswith("on_accept")):
                c, v = l[1], l[2]
                while c and c[0] in ("un", "bin"):
                    if c[0] == "un" and c[1] == "!":
                        c, v = c[2], not v
                    elif c[0] == "bin" and c[1] in ("!=", "==") and T0 in (c[2], c[3]):
                        v = v if c[1] == "!=" else not v
                        c = c[2] if c[3] == T0 else c[3]
                    else:
                        break
                if c and c[0] == "pure" and c[1] == "operator!":
                    v = not v
                ec = v
                break
        if ec is None:
            bad("outcome", "the completion of an accept does not look at its error code")
            continue
        if not ec:
            if len(okc) != 1 or errh:
                bad("hook", "an accepted connection is not offered to the application exactly once")
                continue
            yes = truth(ex, q.facts, okc[0][2])
            if yes is None:
                bad("hook", "the application's answer about an accepted connection is ignored")
            elif yes and (len(adds) != 1 or adds[0][1] not in (("param", 1), ("arg", 1))):
                bad("accepted socket", "a connection the application accepted is not added exactly once")
            elif not yes and adds:
                bad("accepted socket", "a connection the application refused is added")
            go = True
        else:
            if len(errh) != 1 or okc:
                bad("hook", "a failed accept is not reported to the application exactly once")
                continue
            if adds:
                bad("accepted socket", "the socket of a failed accept is added")
            go = truth(ex, q.facts, errh[0][2])
            if go is None:
                bad("hook", "the application's answer about a failed accept is ignored")
                continue
        if not go:
            if n:
                bad("accept after refusal", "a new accept is started although the application's error hook declined")
        elif n == 0:
            if last is False or null_created(q) or slot(p, q):
                ctx.count("stopped")
            else:
                bad("accept chain broken", "the server still listens but no new accept follows a finished one")
        elif n > 1:
            bad("accept chain doubled", "more than one accept follows a finished one")
        else:
            ctx.count("continued")
            if hook and q.labels.index(hook[0]) > q.index("ACC"):
                pass


def starter(ctx, S, fn, paths, ex):
    p = S.p
    acc = False
    for q in paths:
        if q.kind != "exit":
            continue
        ctx.count("listen_paths")

        def bad(rule, msg, line=None):
            ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-12:], p.tu)
        sets = q.all("SET")
        ops = q.all("OP")
        for s in sets:
            if not s[2]:
                bad("unlocked state", "the listening state is changed without the server's lock", s[3])
        v = q.val
        good = v is not None and v[0] == "c" and v[1] != 0
        if v is None or v[0] != "c":
            bad("answer", "the call does not say whether the server listens")
            continue
        state = sets[-1][1] if sets else None
        if good:
            ctx.count("listening_started")
            if state != ("c", 1):
                bad("state", "success is reported but the listening state is not true")
            for nm in ("bind", "listen"):
                o = [x for x in ops if x[1] == nm]
                if len(o) != 1 or err_of(q, o[0][2]) is not False:
                    bad("setup", "success is reported although %s() was not seen to succeed" % nm)
            if any(x[1] in ("close",) for x in ops) and ops[-1][1] == "close":
                bad("setup", "success is reported but the acceptor is closed")
            if q.all("ACC"):
                acc = True
            marks = [l for l in q.labels if l[0] in ("NEW", "KEEP", "BR", "ACC")]
            for i, l in enumerate(marks):
                if l[0] == "NEW" and l[1] and not failed(q, l[1]):
                    nxt = next((k for k in range(i + 1, len(marks)) if marks[k][0] == "NEW"), len(marks))
                    if not any(m[0] == "KEEP" or m[0] == "ACC" and has(m[2], lambda t: t == l[1]) for m in marks[i:nxt]):
                        bad("lost socket", "a socket created for accepting is neither kept nor accepted into")
            keep = {l[1] for l in q.labels if l[0] == "KEEP"}
            for it in loops.iterations([l for l in q.labels if l[0] in ("LT", "LI")]):
                if not any(has(it.c, lambda t: t == k) for k in keep):
                    continue
                mine = [l for l in q.labels if l[0] == "ACC" and has(l[2], lambda t: t == ("deref", it.x))]
                if it.closed and len(mine) != 1 and not null_elem(q, it):
                    bad("idle socket", "a socket created for accepting is not accepted into exactly once", it.line)
                w = loops.stepping(it)
                if w:
                    bad("idle socket", "the walk over the sockets created for accepting %s" % w, it.line)
                ctx.count("initial_accepts")
        else:
            if state == ("c", 1):
                bad("state", "failure is reported but the listening state stays true")
            b = [i for i, x in enumerate(q.labels) if x[0] == "OP" and x[1] == "bind" and err_of(q, x[2]) is False]
            if b and not any(x[0] == "OP" and x[1] == "close" for x in q.labels[b[-1]:]):
                bad("stuck acceptor", "failure is reported but the acceptor stays bound, so listening can never be tried again")
    if not acc:
        ctx.violation("idle server in %s" % fn.qn, fn.where(), "listening is started but no accept is", (), p.tu)


def null_elem(q, it):
    return any(l[0] == "BR" and has(l[1], lambda t: t == ("deref", it.x)) for l in q.labels)


def server(ctx, S):
    p = S.p
    hs = handlers(p, S)
    if not hs:
        raise Broken("no accept completion found in %s" % p.classes[S.c]["qn"])
    for h in hs:
        ctx.count("completions")
        handler(ctx, S, p.fns[h])
    started = False
    entry = {f.id for n in ("init", "uninit", "on_accept_error") for f in methods_all(p, S.c, n)}
    for fn in S.fns:
        if p.decls[fn.id].get("ctor") or fn.id in hs or fn.name in ("<dtor>",):
            continue
        if not (written(p, S, fn) or accepts(p, fn) or caller_of_starter(p, S, fn)):
            continue
        paths, ex = explore(S, fn)
        own = any(l[0] == "SET" and l[1] == ("c", 1) for q in paths for l in q.labels)
        top = touches(fn, (S.lname,)) or own and not any(x.get("d") in p.fns and touches(p.fns[x["d"]], (S.lname,)) for _, x in fn.calls())
        if own and any(l[0] == "OP" and l[1] == "listen" for q in paths for l in q.labels) and is_bool(p, p.decls[fn.id]) and fn.name != "init":
            ctx.analysed(fn)
            started = True
            starter(ctx, S, fn, paths, ex)
        elif own and not caller_of_starter(p, S, fn):
            for q in paths:
                for l in q.labels:
                    if l[0] == "SET" and l[1] == ("c", 1):
                        ctx.violation("state in %s" % fn.qn, fn.where(l[3]), "the listening state becomes true without the acceptor being put into listening mode", q.trail, p.tu)
        helper = in_helper(p, S, fn)
        for q in paths:
            if not (direct(p, fn) and helper):
                acc_ok(ctx, S, fn, q, p)
            if helper and fn.id not in entry and not any(l[0] == "acq" for l in q.labels):
                continue
            for i, l in enumerate(q.labels):
                if l[0] == "SET" and l[1] == T0 and not any(m[0] == "SET" and m[1] == ("c", 1) for m in q.labels[:i]):
                    ctx.count("stops")
                    if not l[2]:
                        ctx.violation("unlocked state in %s" % fn.qn, fn.where(l[3]), "the listening state is changed without the server's lock", q.trail, p.tu)
                    tail = q.labels[i:]
                    j = next((k for k, m in enumerate(tail) if m[0] == "rel"), len(tail))
                    if not any(m[0] == "OP" and m[1] == "close" for m in tail[:j]) and not any(m[0] == "OP" and m[1] == "close" for m in q.labels[:i]):
                        ctx.violation("open acceptor in %s" % fn.qn, fn.where(l[3]), "listening stops but the acceptor is not closed under the same hold of the lock", q.trail, p.tu)
                elif l[0] == "SET" and l[1] not in (T0, ("c", 1)):
                    ctx.violation("state in %s" % fn.qn, fn.where(l[3]), "the listening state gets a value that is neither true nor false", q.trail, p.tu)
    if not started:
        raise Broken("no function starts listening in %s" % p.classes[S.c]["qn"])
    # service start and stop, and the default error hook
    for name in ("init", "uninit", "on_accept_error"):
        for fn in methods_all(p, S.c, name)[:1] if name != "on_accept_error" else [own_method(p, S.b, name)]:
            ctx.analysed(fn)
            paths, ex = explore(S, fn)
            for q in paths:
                if q.kind != "exit":
                    continue
                ctx.count("service_paths")
                sets = q.all("SET")
                if name == "uninit":
                    if not (sets and sets[-1][1] == T0):
                        ctx.violation("service stop in %s" % fn.qn, q.where, "stopping the service does not stop listening", q.trail, p.tu)
                elif name == "init":
                    ok = bool(sets) and sets[-1][1] == ("c", 1)
                    if q.val is None or q.val[0] != "c" or bool(q.val[1]) != ok:
                        ctx.violation("service start in %s" % fn.qn, q.where, "starting the service does not report whether the server listens", q.trail, p.tu)
                else:
                    if q.val == T0 and not (sets and sets[-1][1] == T0) and not aborted(q):
                        ctx.violation("silent stop in %s" % fn.qn, q.where, "the default error hook ends the accepting without stopping to listen", q.trail, p.tu)


def aborted(q):
    for l in q.labels:
        if l[0] == "BR" and has(l[1], lambda t: t in (("arg", 0), ("param", 0))):
            c, v = l[1], l[2]
            while c and c[0] == "un" and c[1] == "!":
                c, v = c[2], not v
            if c and c[0] in ("pure", "bin", "call"):
                n = str(c[1]).split("::")[-1]
                if n in ("operator!=", "!="):
                    return not v
                if n in ("operator==", "=="):
                    return v
    return False


def caller_of_starter(p, S, fn):
    return any(x.get("d") in p.fns and touches(p.fns[x["d"]], (S.lname,)) and not p.decls[x["d"]].get("const") for _, x in fn.calls())


def in_helper(p, S, fn):
    """a helper other functions of the class call: judged inside its callers, where the state and the lock are known"""
    return any(g.id != fn.id and (any(x.get("d") == fn.id for _, x in g.calls()) or fn.id in [t for x in g.st if x and x["k"] in ("fnref", "memptr", "ref") and x.get("d") == fn.id for t in [fn.id]]) for g in S.fns)


def unit(ctx, p):
    seen = set()
    for c in p.leaf_classes(NS + "object_pool"):
        if any(p.classes[b]["qn"] == NS + "tcp::generic_server" for b in p.bases(c)):
            ctx.count("servers")
            server(ctx, Server(p, c))


def run(ctx):
    ctx.each(LIB + DEMO, unit)
    ctx.need("servers", 20)
    ctx.need("completion_paths", 100)
    ctx.need("continued", 40)
    ctx.need("accept_starts", 60)
    ctx.need("listening_started", 20)
    ctx.need("initial_accepts", 20)
    ctx.need("stops", 20)
    ctx.need("service_paths", 60)
