RULE = """Every element access, copy and transfer the proxy clients make in their buffers stays inside the buffer, as the checks made before it (on the same path, or by every function that sets
the fields involved) imply. A request is the gap-free sequence of the pieces built for this attempt, as long as what is sent, and no reply is read into a buffer that holds a request to
be sent again. The bytes received so far are counted from zero after every request, and a reply continues where the last part ended, with room for at least one byte. The link counts as
connected, or the next request is sent, only on paths where the reply that belongs to the last request is complete, exactly as long as the protocol says, and carries the success code;
only an incomplete reply is waited for. Setting a target decides every field by which the request chooses its target."""
EXPLANATION = """Linear inequalities along every path of every entry function of the proxy client classes, with inequalities on their fields that every writing function establishes, and the
request that precedes each reply found from the bytes it writes and the step it leaves."""
ASSUMPTIONS = ["an asynchronous read or write completes with no more bytes than it was asked for, and a write without error with all of them", "the replies are those of SOCKS4 and SOCKS5 (RFC 1928, RFC 1929)"]
from b03 import deep
from f02 import core, wrapped
from lib import *
from linear import *
from witness_units import LIB


def canon(t):
    while isinstance(t, tuple) and t and t[0] in ("v", "rd", "addr") or isinstance(t, tuple) and t and t[0] == "param":
        if t[0] == "param":
            return ("arg", t[1])
        t = t[1]
    return t


class Proxy:
    def __init__(self, p, b, c):
        self.p, self.b, self.c = p, b, c
        self.fs = p.classes[b].get("fs", [])
        self.cap = {}
        for f in self.fs:
            t = p.ty(p.decls[f]["ty"])
            if "char" in t["s"] and ("[" in t["s"] or "array<" in t["s"]):
                self.cap[f] = t["size"]
        self.ms = [p.fns[m] for m in p.classes[b].get("ms", []) if m in p.fns]
        self.lam = []
        todo = list(self.ms)
        refs = set()
        while todo:
            fn = todo.pop()
            for _, x in fn.fnrefs():
                refs.add(x)
        self.entries = [fn for fn in self.ms if p.decls[fn.id].get("virt") or fn.id in refs or p.decls[fn.id].get("acc") == "public" or fn.name in ("connect_handler",)]
        called = {x["d"] for fn in self.ms for _, x in fn.calls() if x.get("d") is not None}
        self.entries += [fn for fn in self.ms if fn not in self.entries and fn.id not in called]
        self.entries = [fn for fn in self.entries if not fn.name.startswith(("~", "<dtor"))]
        self._paths = {}
        self.strings = {}   # invariants: list of forms over ("size", field) atoms
        self.inv = []
        self.inv_f = {}

    def cover(self, t):
        """(buffer field, offset term) of an address or location in a buffer"""
        while isinstance(t, tuple) and t:
            if t[0] == "f" and t[2] in self.cap:
                return t[2], ("c", 0)
            if t[0] in ("addr", "v", "rd", "conv", "deref"):
                t = t[-1] if t[0] == "conv" else t[1]
                continue
            if t[0] in ("pure", "call") and Env.name(t) in ("next", "data", "begin", "advance", "c_array"):
                a = t[2] if t[0] == "pure" else (t[4] if len(t) > 4 and t[4] else (t[3],))
                r = self.cover(a[0]) if a else None
                if r and len(a) > 1:
                    return r[0], ("bin", "+", r[1], a[1])
                return r
            if t[0] == "bin" and t[1] == "+":
                r = self.cover(t[2])
                if r:
                    return r[0], ("bin", "+", r[1], t[3])
                r = self.cover(t[3])
                if r:
                    return r[0], ("bin", "+", r[1], t[2])
                return None
            if t[0] == "idx":
                r = self.cover(t[1])
                return (r[0], ("bin", "+", r[1], t[2])) if r else None
            return None
        return None

    def paths(self, fn):
        if fn.id not in self._paths:
            p = self.p

            def width(ev):
                for x in ev.frame.fn.st:
                    if x and x["k"] == "bin" and x.get("op") == "=" and x.get("l") == ev.line:
                        y = ev.frame.fn.st[ev.frame.fn.strip(x["c"][0])]
                        if y and "ty" in y:
                            return p.ty(y["ty"]).get("size")
                return None

            def label(ex, st, ev):
                if ev.kind == "branch":
                    return ("B", ev.cond, ev.taken, ev.line)
                if ev.kind == "write":
                    return ("W", ev.loc, ev.val, ev.op, ev.line, width(ev) if ev.loc and ev.loc[0] == "deref" else 1)
                if ev.kind == "call" and ev.d is not None:
                    D = p.decls[ev.d]
                    n = ev.name
                    if n in ("memcpy", "memmove", "memset", "copy", "copy_n", "strcpy", "strncpy"):
                        a = tuple(deep(ex, st, x) for x in ev.args)
                        if n == "copy" and len(a) == 3:
                            n, a = "memcpy", (a[2], a[0], ("bin", "-", a[1], a[0]))
                        elif n == "copy_n" and len(a) == 3:
                            n, a = "memcpy", (a[2], a[0], a[1])
                        return ("COPY", n, a, ev.line)
                    if n == "buffer":
                        return ("BUF", tuple(ev.args), ev.line, ev.res)
                    if n in ("operator=", "assign", "clear", "swap") and ev.obj is not None:
                        return ("SET", n, canon(ev.obj), tuple(canon(a) for a in ev.args), ev.line)
                    if n == "set_addr":
                        return ("SET", n, canon(ev.args[0]) if ev.args else None, (), ev.line)
                    if n == "connect_handler" and not ev.inlined:
                        return ("DONE", ev.line)
                    if n == "force_shutdown":
                        return ("END", ev.line)
                    if n in ("to_v4", "to_v6"):
                        return ("FAM", n[-2:], ev.line)
                    if n in ("async_read", "async_write", "async_read_some", "async_write_some", "async_send", "async_receive"):
                        ts = set()

                        def reach(x, n=0):
                            x = deep(ex, st, x)
                            r = set(targets(p, x))
                            for y in subterms(x) if n < 6 else ():
                                if isinstance(y, tuple) and y and y[0] in ("tmp", "var") and y != x:
                                    r |= reach(y, n + 1)
                            return r
                        for x in ev.args:
                            ts |= reach(x)
                        return ("INIT", n, tuple(sorted(ts)), ev.line)
            self._paths[fn.id] = trace(p, fn, self.c, label, force=True, cap=200, inline_all=True,
                                       opaque=lambda p, d: d["qn"].startswith(NS) and not d["qn"].startswith(NS + "tcp::proxy::") or d["n"] == "connect_handler" and d.get("cls") != self.b)[0]
        return self._paths[fn.id]

    def atoms(self, env):
        def f(t):
            n = Env.name(t)
            if t[0] == "bin" and t[1] == "-" and Env.name(t[2]) in ("end", "cend") and Env.name(t[3]) in ("begin", "cbegin", "data", "c_str"):
                x, y = [canon(z[2][0] if z[0] == "pure" else z[3]) for z in t[2:]]
                if x == y:
                    return f(("pure", "size", (x,)))
            if n in ("size", "length") and Env.args(t):
                a = ("size", canon(Env.args(t)[0]))
            elif n in ("size", "length") and t[0] == "call" and len(t) > 3 and t[3]:
                a = ("size", canon(t[3]))
            else:
                return None
            env.cs.append({a: 1})
            return {a: 1}
        return f

    def env(self, fn):
        e = Env(self.p, self.inv + self.inv_f.get(fn.id, []))
        e.atoms = self.atoms(e)
        return e

    def field(self, t):
        t = canon(t)
        return t[2] if isinstance(t, tuple) and len(t) == 3 and t[0] == "f" and t[1] == ("this",) and t[2] in self.fs else None


def invariants(P):
    """inequalities on the sizes of string fields that every function that sets one establishes; upper bounds of the integer fields"""
    p = P.p
    sets = []
    for fn in P.entries:
        for q in P.paths(fn):
            if q.kind not in ("exit", "void"):
                continue
            env, sub, touched = P.env(fn), {}, set()
            for l in q.labels:
                if l[0] == "B":
                    env.assume(l[1], l[2])
                if l[0] == "SET":
                    f = P.field(l[2]) if l[2] else None
                    if f is not None and "string" in p.ty(p.decls[f]["ty"])["s"]:
                        touched.add(f)
                        sub[("size", ("f", ("this",), f))] = {("size", l[3][0]): 1} if l[1] in ("operator=", "assign") and l[3] else const(0) if l[1] == "clear" else {("?", fn.id, f): 1}
            if touched:
                sets.append((fn, env, sub, touched))
    cand = []
    for fn, env, sub, touched in sets:
        back = {list(v)[0]: k for k, v in sub.items() if len(v) == 1 and 1 not in v}
        for c in env.cs:
            if any(m in back for m in c) and all(m == 1 or m in back or m in sub for m in c):
                r = {}
                for m, v in c.items():
                    r[back.get(m, m)] = v
                if r.get(1, 0) >= 0:
                    cand.append(r)
    # a candidate holds if every path that sets one of its fields leaves it true
    ok = []
    for r in cand:
        fs = {m for m in r if m != 1}
        good = True
        for fn, env, sub, touched in sets:
            if not any(m in sub for m in fs):
                continue
            g = {}
            for m, v in r.items():
                g = add(g, scale(sub[m], v)) if m in sub else add(g, {m: v})
            if not proves(env.cs + ok, g):
                good = False
        if good and r not in ok:
            ok.append(r)
    P.inv = ok
    ints = [f for f in P.fs if p.ty(p.decls[f]["ty"]).get("int") and "char" not in p.ty(p.decls[f]["ty"])["s"]]
    for f in ints:
        P.inv += [] if p.ty(p.decls[f]["ty"]).get("sg", True) else [{("f", ("this",), f): 1}]
    return ints


def bounds_of_fields(P, ints):
    """f <= capacity for the integer fields, by induction over every write"""
    p = P.p
    caps = sorted(set(P.cap.values()))
    cand = {f: caps[0] for f in ints if not p.ty(p.decls[f]["ty"]).get("sg", True)}
    base = list(P.inv)
    ch = True
    while ch:
        ch = False
        P.inv = base + [add(const(n), {("f", ("this",), f): 1}, -1) for f, n in cand.items()]
        for fn in P.entries:
            for q in P.paths(fn):
                env = P.env(fn)
                for l in q.labels:
                    if l[0] == "B":
                        env.assume(l[1], l[2])
                    elif l[0] == "W":
                        f = P.field(l[1])
                        if f in cand and not env.ge0(add(const(cand[f]), env.form(l[2]), -1)):
                            up = [n for n in caps if n > cand[f]]
                            if up:
                                cand[f] = up[0]
                            else:
                                del cand[f]
                            ch = True
            if ch:
                break
    P.inv = base + [add(const(n), {("f", ("this",), f): 1}, -1) for f, n in cand.items()]


def reads_and_writes(P):
    """initiations: (function, path, index, kind, buffer field, offset term, length term, handlers)"""
    out = []
    for fn in P.entries:
        for q in P.paths(fn):
            if q.kind not in ("exit", "void"):
                continue
            buf = None
            for i, l in enumerate(q.labels):
                if l[0] == "BUF":
                    buf = l
                elif l[0] == "INIT" and buf is not None:
                    r = P.cover(buf[1][0])
                    if r:
                        n = buf[1][1] if len(buf[1]) > 1 else ("c", P.cap[r[0]])
                        out.append((fn, q, i, "read" if "read" in l[1] or "receive" in l[1] else "write", r[0], r[1], n, l[2], l[1]))
                    buf = None
    return out


def final(P, q, f, upto=None):
    """the term an integer field holds at the end (or before label upto)"""
    v = ("v", ("f", ("this",), f))
    for l in q.labels[:upto]:
        if l[0] == "W" and P.field(l[1]) == f:
            v = l[2]
    return v


def replay(P, fn, q, upto=None):
    env = P.env(fn)
    for l in q.labels[:upto]:
        if l[0] == "B":
            env.assume(l[1], l[2])
    return env


def unit(ctx, p):
    seen = set()
    for c in p.leaf_classes(NS + "tcp::generic_client_socket"):
        for b in p.bases(c):
            if p.classes[b]["qn"].startswith(NS + "tcp::proxy::") and b not in seen and p.classes[b].get("fs"):
                seen.add(b)
                proxy(ctx, Proxy(p, b, c))


def proxy(ctx, P):
    p = P.p
    ctx.count("proxy_classes")
    if not P.cap:
        raise Broken("no buffers in %s" % p.classes[P.b]["qn"])
    told = set()

    def bad(k, fn, q, why, line=None):
        ctx.violation("%s in %s" % (k, fn.qn), fn.where(line) if line else q.where, why, q.trail[-10:], p.tu)
    for fn in P.entries:
        ctx.analysed(fn)
    ints = invariants(P)
    # what completes where
    io = reads_and_writes(P)
    if not any(x[3] == "read" for x in io) or not any(x[3] == "write" for x in io):
        raise Broken("no negotiation in %s" % p.classes[P.b]["qn"])
    rh = {h for x in io if x[3] == "read" for h in x[7] if h in p.fns and len(p.decls[h].get("ps", [])) == 2}
    wh = {h for x in io if x[3] == "write" for h in x[7] if h in p.fns and len(p.decls[h].get("ps", [])) == 2}
    counter = None
    for h in rh:
        for q in P.paths(p.fns[h]):
            for l in q.labels:
                f = P.field(l[1]) if l[0] == "W" else None
                if f in ints:
                    e = P.env(p.fns[h]).form(l[2])
                    if e == {("f", ("this",), f): 1, ("arg", 1): 1}:
                        counter = f
    step = None
    for h in wh:
        for q in P.paths(p.fns[h]):
            for l in q.labels:
                f = P.field(l[1]) if l[0] == "W" else None
                if f in ints and l[3] in ("++", "+=", "="):
                    e = P.env(p.fns[h]).form(l[2])
                    if e == {("f", ("this",), f): 1, 1: 1}:
                        step = f
    C = ("f", ("this",), counter)
    for h in wh:
        P.inv_f.setdefault(h, [])
        if counter is not None:
            P.inv_f[h] += [{C: -1}, {C: 1}]
    for x in io:
        if x[3] != "read":
            continue
        for h in x[7]:
            if h in rh:
                e = replay(P, x[0], x[1], x[2])
                n = e.form(x[6])
                room = add(e.form(x[5]), n)
                f = [{("arg", 1): 1}]
                if counter is not None:
                    k = value(room)
                    f += [{C: 1}] + ([add(const(k), {C: 1, ("arg", 1): 1}, -1)] if k is not None else [])
                elif value(n) is not None:
                    f += [add(const(value(n)), {("arg", 1): 1}, -1)]
                P.inv_f.setdefault(h, [])
                old = P.inv_f[h]
                P.inv_f[h] = f if not old else [g for g in old if g in f or proves(f, g)]
    bounds_of_fields(P, ints)
    for fn in P.entries:
        for q in P.paths(fn):
            if q.kind in ("exit", "void"):
                accesses(ctx, P, fn, q, bad)
                families(ctx, P, fn, q, bad)
    P.mark = markers(ctx, P, bad)
    begins(ctx, P, io, P.mark, bad)
    transfers(ctx, P, io, counter, rh, wh, bad)
    protocol(ctx, P, io, counter, step, rh, wh, bad)
    target(ctx, P, bad)


def accesses(ctx, P, fn, q, bad):
    p = P.p
    env = P.env(fn)

    def inside(f, off, n, line, what):
        ctx.count("accesses")
        o, k = env.form(off), n if isinstance(n, dict) else env.form(n)
        for w, t in env.wraps:
            if not env.ge0(w):
                return bad("length wraps", fn, q, "%s: a length computed by subtraction can wrap around" % what, line)
        if not env.ge0(o) or not env.ge0(k) or not env.ge0(add(add(const(P.cap[f]), o, -1), k, -1)):
            bad("outside %s" % p.decls[f]["n"], fn, q, "%s can reach outside '%s' (%d bytes)" % (what, p.decls[f]["n"], P.cap[f]), line)
    for l in q.labels:
        if l[0] == "B":
            for t in subterms(l[1]):
                if isinstance(t, tuple) and t and t[0] == "idx":
                    r = P.cover(t)
                    if r:
                        inside(r[0], r[1], const(1), l[3], "a byte that is read")
            env.assume(l[1], l[2])
        elif l[0] == "W":
            r = P.cover(l[1]) if l[1] and l[1][0] in ("idx", "deref") else None
            if r:
                inside(r[0], r[1], const(l[5] or 1), l[4], "a byte that is written")
            for t in subterms(l[2]):
                if isinstance(t, tuple) and t and t[0] == "idx":
                    r = P.cover(t)
                    if r:
                        inside(r[0], r[1], const(1), l[4], "a byte that is read")
        elif l[0] == "COPY":
            for i in (0, 1):
                r = P.cover(l[2][i]) if i < len(l[2]) else None
                if r:
                    if l[1] not in ("memcpy", "memmove", "memset", "strncpy"):
                        bad("unbounded copy", fn, q, "a copy without a length touches '%s'" % p.decls[r[0]]["n"], l[3])
                    else:
                        inside(r[0], r[1], l[2][2], l[3], "a copy")
                        src = l[2][1] if i == 0 and l[1] != "memset" else None
                        if src and Env.name(src) in ("data", "c_str", "begin", "cbegin") and P.field((Env.args(src) or (src[3],) if src[0] == "call" else Env.args(src))[0]) is not None:
                            g = canon((Env.args(src) or (src[3],) if src[0] == "call" else Env.args(src))[0])
                            ctx.count("names_copied")
                            if not env.eq0(add(env.form(l[2][2]), env.form(("pure", "size", (g,))), -1)):
                                bad("name cut", fn, q, "the request may carry another length than that of '%s'" % p.decls[g[2]]["n"], l[3])
        elif l[0] == "BUF":
            r = P.cover(l[1][0])
            if r and len(l[1]) > 1:
                inside(r[0], r[1], l[1][1], l[2], "a transfer")


def pieces(P, fn, q, f, upto, env):
    """the pieces written into buffer f on this path, as (offset form, length form, value)"""
    out = []
    for l in q.labels[:upto]:
        if l[0] == "W" and l[1] and l[1][0] in ("idx", "deref"):
            r = P.cover(l[1])
            if r and r[0] == f:
                out.append((env.form(r[1]), const(l[5] or 1), l[2]))
        elif l[0] == "COPY":
            r = P.cover(l[2][0]) if l[2] else None
            if r and r[0] == f and len(l[2]) > 2:
                out.append((env.form(r[1]), env.form(l[2][2]), None))
    return out


def chain(env, ps, total):
    """do the pieces follow each other from 0 to total without a gap"""
    end, left = {}, list(ps)
    pos = []
    while left:
        nx = [x for x in left if not {m: v for m, v in add(x[0], end, -1).items() if v}]
        if not nx:
            break
        x = nx[-1]
        pos.append(x)
        left = [y for y in left if y not in nx]
        end = add(end, x[1])
    return env.eq0(add(end, total, -1)), pos, end


def families(ctx, P, fn, q, bad):
    """an address is taken as v4 or v6 only where it is known to be"""
    is4 = None
    for l in q.labels:
        if l[0] == "B":
            k, v = core(l[1], l[2])
            if Env.name(k) in ("is_v4", "is_v6"):
                x = v == (Env.name(k) == "is_v4")
                is4 = x if x or v or is4 is None else is4
        elif l[0] == "FAM":
            ctx.count("address_families")
            if is4 != (l[1] == "v4"):
                bad("address family", fn, q, "an address is converted as IP%s where it may not be one: the conversion throws" % l[1], l[2])


def ec_of(q, upto=None):
    ec = None
    for l in q.labels[:upto]:
        if l[0] == "B":
            e = wrapped(core(l[1], l[2])[0])
            if e and e[0] in ("param", "arg") and e[1] == 0:
                ec = core(l[1], l[2])[1]
    return ec


def markers(ctx, P, bad):
    """(field, value it has while no target is set): what a successful connect looks at before it passes the connect on"""
    out, first, P.set_to = {}, {}, {}
    srcs = [P.p.fns[m] for m in P.p.classes[P.b].get("ms", []) if m in P.p.fns and P.p.decls[m].get("ctor")]
    srcs += [fn for fn in P.entries if fn.name == "set_target_addr"]  # a refusal decides before a constructor
    for fn in srcs:
        own = {}
        for q in P.paths(fn):
            if fn.name != "set_target_addr" or q.kind == "exit" and q.val == ("c", 0):
                for f in P.fs:
                    own.setdefault(f, set()).add(final(P, q, f))
        for f, vs in own.items():
            if len(vs) == 1 and next(iter(vs))[0] == "c":
                first[f] = next(iter(vs))[1]
    for fn in P.entries:
        if fn.name != "connect_handler":
            continue
        for q in P.paths(fn):
            if ec_of(q) is not True and any(l[0] == "DONE" for l in q.labels):
                for l in q.labels:
                    if l[0] == "B":
                        for t in subterms(l[1]):
                            f = P.field(t) if isinstance(t, tuple) else None
                            if f is not None and f in first and P.p.ty(P.p.decls[f]["ty"]).get("int"):
                                out[f] = first[f]
    for fn in P.entries:
        if fn.name == "set_target_addr":
            for q in P.paths(fn):
                if q.kind != "exit" or q.val not in (("c", 0), ("c", 1)):
                    continue
                ctx.count("targets_decided")
                for f, k in out.items():
                    v = final(P, q, f)
                    if q.val[1]:
                        P.set_to.setdefault(f, set()).add(v[1] if v[0] == "c" else None)
                    if q.val[1] and (v[0] != "c" or v[1] == k):
                        bad("target not marked", fn, q, "a target is set, but '%s' still says that there is none, so the negotiation would be skipped" % P.p.decls[f]["n"])
                    if not q.val[1] and v[0] == "c" and v[1] != k:
                        bad("refused target used", fn, q, "a refused target leaves '%s' saying that one is set" % P.p.decls[f]["n"])
    for m in P.p.classes[P.b].get("ms", []):
        if m in P.p.fns and P.p.decls[m].get("ctor"):
            fn = P.p.fns[m]
            for q in P.paths(fn):
                for f, k in out.items():
                    ctx.count("targets_initial")
                    if final(P, q, f) != ("c", k):
                        bad("target from the start", fn, q, "a new client has '%s' saying that a target is set" % P.p.decls[f]["n"])
    return out


def equals(l, f, P):
    """(constant, truth) of a label that compares field f with a constant"""
    k, v = l[1], l[2]
    while k[0] == "un" and k[1] == "!":
        k, v = k[2], not v
    if k[0] == "bin" and k[1] in ("==", "!="):
        for a, b in ((k[2], k[3]), (k[3], k[2])):
            if a[0] == "c" and P.field(b) == f:
                return a[1], v == (k[1] == "==")
    if k[0] == "bin" and k[1] in ("<", ">", "<=", ">="):  # against a bound of an unsigned or small field
        return None
    if P.field(k) == f:
        return 0, not v
    return None


def begins(ctx, P, io, mark, bad):
    """the negotiation begins exactly after a successful connect with a target; without a target the link is up at once"""
    p = P.p
    if not mark:
        raise Broken("nothing tells whether a target is set in %s" % p.classes[P.b]["qn"])
    for fn in P.entries:
        if fn.name != "connect_handler":
            continue
        for q in P.paths(fn):
            if q.kind not in ("exit", "void"):
                continue
            ec, set_ = ec_of(q), None
            for f, k in mark.items():
                cs, ne = P.env(fn), set()
                for l in q.labels:
                    if l[0] == "B":
                        r = equals(l, f, P)
                        if r and not r[1]:
                            ne.add(r[0])
                        cs.assume(l[1], l[2])
                x = cs.form(("v", ("f", ("this",), f)))

                def can(v):
                    return v not in ne and not unsat(related(cs.cs, x) + [add(x, const(v), -1), scale(add(x, const(v), -1), -1)])
                if not can(k):
                    set_ = True
                elif not any(v is None or can(v) for v in P.set_to.get(f, ())):
                    set_ = False
            sends = [x for x in io if x[1] is q and x[3] == "write"]
            done = any(l[0] == "DONE" for l in q.labels)
            ctx.count("connects")
            if sends and ec is not False:
                bad("negotiation after a failed connect", fn, q, "the negotiation begins although the connect may have failed")
            if sends and set_ is not True:
                bad("negotiation without a target", fn, q, "the negotiation begins although no target may be set")
            if done and ec is not True and set_ is not False:
                bad("negotiation skipped", fn, q, "the link counts as connected right after the connect to the proxy although a target may be set")
            if not done and not sends and not any(l[0] == "END" for l in q.labels):
                bad("connect dropped", fn, q, "a connect neither begins the negotiation nor is passed on")


def ports(P):
    """fields that hold the port of a target, by the kind of target they belong to"""
    name, addr = set(), set()
    for fn in P.entries:
        if fn.name != "set_target_addr":
            continue
        for q in P.paths(fn):
            if q.kind != "exit" or q.val != ("c", 1):
                continue
            for l in q.labels:
                if l[0] == "W" and P.field(l[1]) is not None and has(l[2], lambda t: isinstance(t, tuple) and t[:2] == ("arg", 0)):
                    name.add(P.field(l[1]))
                if l[0] == "SET" and l[1] == "set_addr" and P.field(l[2]) is not None:
                    addr.add(P.field(l[2]))
    return name, addr


def port_piece(ctx, P, fn, q, ps, named, bad):
    """the last piece of the address is the port of the same target in network order"""
    name, addr = ports(P)
    for o, k, v in ps:
        if v is None or value(k) != 2:
            continue
        ctx.count("ports_sent")
        if Env.name(v) not in ("htons", "host_to_network_short", "native_to_big", "htobe16", "__bswap_16", "hton"):
            bad("byte order", fn, q, "the port in the request is not converted to network byte order")
        fs = {t[2] for t in subterms(v) if isinstance(t, tuple) and len(t) == 3 and t[0] == "f" and t[2] in P.fs}
        # set in this call (SOCKS4): the address just filled in
        if fs and not fs & (name if named else addr):
            bad("other port", fn, q, "the request carries a port that does not belong to the target it names")


def transfers(ctx, P, io, counter, rh, wh, bad):
    p = P.p
    held = {}
    for h in sorted(wh):
        for q in P.paths(p.fns[h]):
            if q.kind in ("exit", "void") and not any(l[0] == "END" or l[0] == "INIT" for l in q.labels):
                bad("attempt left open", p.fns[h], q, "a request that could not be sent does not end the attempt")
    for fn, q, i, kind, f, off, n, hs, name in io:
        ctx.count("transfers")
        env = replay(P, fn, q, i)
        if not any(h in p.fns and len(p.decls[h].get("ps", [])) == 2 for h in hs):
            bad("no completion", fn, q, "a transfer of the negotiation has no completion that is told its result")
        o, k = env.form(off), env.form(n)
        if kind == "read":
            if fn.id in wh and any(l[0] == "END" for l in q.labels):
                bad("goes on after its end", fn, q, "the negotiation goes on with a link that was just given up")
            if fn.id in wh and ec_of(q, i) is not False and not any(env.eq0(add({("arg", 1): 1}, env.form(w[6]), -1)) for w in io if w[3] == "write" and fn.id in w[7]):
                bad("write error ignored", fn, q, "a reply is awaited although the request may not have been sent")
            if not env.ge0(add(k, const(-1))):
                bad("empty read", fn, q, "a read can be started with no room left, and would complete at once again and again")
            if counter is not None and name.endswith("_some"):
                at = env.form(final(P, q, counter, i))
                if not env.eq0(add(o, at, -1)):
                    bad("misplaced reply", fn, q, "a part of a reply is read to another place than after the bytes counted so far")
        else:
            if value(o) != 0:
                bad("request start", fn, q, "a request is sent from the middle of its buffer")
            ps = pieces(P, fn, q, f, i, env)
            if not env.ge0(add(k, const(-1))) and not {P.field(n[1] if n[0] in ("v", "rd") else n)} & set(P.mark):
                bad("empty request", fn, q, "a request without a byte can be sent")
            if ps:
                ok, pos, end = chain(env, ps, k)
                ctx.count("requests_built")
                if not ok:
                    bad("request length", fn, q, "the request that is sent is not the gap-free sequence of the pieces just built (built: %s)" % len(pos))
            else:
                held.setdefault(f, []).append((fn, q, n))
            if counter is not None and not env.eq0(env.form(final(P, q, counter, i))):
                bad("reply not counted from zero", fn, q, "a request is sent while the count of reply bytes is not zero")
    for f, xs in held.items():
        for fn, q, i, kind, g, off, n, hs, name in io:
            if kind == "read" and g == f:
                bad("request overwritten", fn, q, "the reply is read into '%s', which holds the request that the next attempt sends again" % p.decls[f]["n"])
        # built elsewhere: where the length is set, the pieces must add up to it
        lens = {P.field(n[1] if n[0] in ("v", "rd") else n) for _, _, n in xs}
        for fn in P.entries:
            for q in P.paths(fn):
                for i, l in enumerate(q.labels):
                    if l[0] == "W" and P.field(l[1]) in lens and l[3] == "=" and l[2] != ("c", 0):
                        env = replay(P, fn, q, i)
                        ctx.count("requests_built")
                        port_piece(ctx, P, fn, q, pieces(P, fn, q, f, i, env), False, bad)
                        ok, pos, end = chain(env, pieces(P, fn, q, f, i, env), env.form(l[2]))
                        if not ok:
                            bad("request length", fn, q, "the length of the request is not that of the gap-free sequence of its pieces", l[4])


def known(P, env, q, f, i):
    """constant the path found at byte i of buffer f"""
    for l in q.labels:
        if l[0] == "B":
            k, v = l[1], l[2]
            while k[0] == "un" and k[1] == "!":
                k, v = k[2], not v
            if k[0] == "bin" and k[1] in ("==", "!=") and v == (k[1] == "=="):
                for a, b in ((k[2], k[3]), (k[3], k[2])):
                    if a[0] == "c":
                        r = P.cover(b)
                        if r and r[0] == f and value(env.form(r[1])) == i:
                            return a[1]
            elif k[0] in ("v", "rd", "idx") and v is False:
                r = P.cover(k)
                if r and r[0] == f and value(env.form(r[1])) == i:
                    return 0
    return None


def protocol(ctx, P, io, counter, step, rh, wh, bad):
    p = P.p
    # what each write sends, by its first bytes
    kinds = {}
    version = None
    for fn, q, i, kind, f, off, n, hs, name in io:
        if kind == "write":
            env = replay(P, fn, q, i)
            b = {value(o): v for o, k, v in pieces(P, fn, q, f, i, env) if value(o) is not None and v is not None}
            if not b:
                t = "request4"
            elif b.get(0) == ("c", 1):
                t = "auth"
            elif b.get(0) == ("c", 5) and 3 in b and b.get(1) == ("c", 1) and b.get(2) == ("c", 0) and b[3][0] == "c" and (value(env.form(n)) or 99) > 4:
                t = "request"
            elif b.get(0) == ("c", 5):
                t = "method"
            elif b.get(0) == ("c", 4):
                t = "request4"
            else:
                t = None
            if t is None:
                bad("unknown request", fn, q, "a request is sent that is none of the protocol")
                continue
            s = env.form(final(P, q, step, i)) if step is not None else {}
            kinds.setdefault(t, []).append((fn, q, i, s, env, b, n, f))
            shape(ctx, P, t, fn, q, i, env, b, n, f, bad)
    at = {}
    for t, xs in kinds.items():
        vs = set()
        for fn, q, i, s, env, b, n, f in xs:
            if step is None:
                continue
            v = next((k for k in range(-1, 8) if env.eq0(add(s, const(k), -1))), None)
            vs.add(v)
        if step is not None:
            if len(vs) != 1 or None in vs:
                bad("step unclear", xs[0][0], xs[0][1], "the step that a %s message belongs to is not the same on every path" % t)
            at[t] = vs.pop() if vs else None
    if step is not None and len(set(at.values())) != len(at):
        x = next(iter(kinds.values()))[0]
        bad("steps mixed", x[0], x[1], "two different messages of the protocol belong to the same step, so their replies cannot be told apart")
    # the methods offered are those the credentials allow
    creds = {g for t, xs in kinds.items() if t == "auth" for x in xs for l in x[1].labels[:x[2]] if l[0] == "COPY" for t2 in subterms(l[2][1]) if isinstance(t2, tuple) for g in [P.field(t2)] if g is not None}
    for fn, q, i, s, env, b, n, f in kinds.get("method", []):
        e = P.env(fn)
        for l in q.labels[:i]:
            if l[0] == "B":
                e.assume(l[1], l[2])
        z = [{("size", ("f", ("this",), g)): 1} for g in sorted(creds)]
        k = b.get(1)
        ctx.count("method_offers")
        if k == ("c", 2) and z and all(e.eq0(x) for x in z):
            bad("auth offered without credentials", fn, q, "authentication is offered although no credentials are set")
        if k == ("c", 1) and any(e.ge0(add(x, const(-1))) for x in z):
            bad("auth not offered", fn, q, "authentication is not offered although credentials are set")
    sent = set(kinds)
    final_kind = "request4" if "request4" in sent else "request"
    for h in sorted(rh):
        fn = p.fns[h]
        f = next(x[4] for x in io if x[3] == "read" and h in x[7])
        for q in P.paths(fn):
            if q.kind not in ("exit", "void"):
                continue
            done = any(l[0] == "DONE" for l in q.labels)
            nxt = [(t, x) for t, xs in kinds.items() for x in xs if x[1] is q]
            more = [x for x in io if x[1] is q and x[3] == "read"]
            ctx.count("reply_paths")
            if not (done or nxt or more):
                if not any(l[0] == "END" for l in q.labels):
                    bad("attempt left open", fn, q, "a reply that is not used does not end the attempt")
                continue
            if any(l[0] == "END" for l in q.labels):
                bad("goes on after its end", fn, q, "the negotiation goes on with a link that was just given up")
            env = replay(P, fn, q)
            ec = None
            for l in q.labels:
                if l[0] == "B":
                    e = wrapped(core(l[1], l[2])[0])
                    if e and e[0] in ("param", "arg") and e[1] == 0:
                        ec = core(l[1], l[2])[1]
            if ec is not False:
                bad("error ignored", fn, q, "a reply is used although the read may have failed")
            if step is not None:
                s = env.form(("v", ("f", ("this",), step)))
                of = [t for t, k in at.items() if k is not None and env.eq0(add(s, const(k + 1), -1))]
                t = of[0] if len(of) == 1 else None
            else:
                t = final_kind
            if t is None:
                bad("reply of no request", fn, q, "a reply is used without knowing which request it answers")
                continue
            code = known(P, env, q, f, 1)
            got = env.form(final(P, q, counter)) if counter is not None else {("arg", 1): 1}
            if more and not (done or nxt):
                if counter is None:
                    bad("reads on", fn, q, "a reply that was read whole is waited for again")
                elif not (env.ge0(add(const(1 if t in ("method", "auth") else 5), got, -1)) or t == "request" and longer(P, env, q, f, got)):
                    bad("complete reply waited on", fn, q, "more bytes are awaited although the reply to the %s may be complete" % t)
                continue
            if done:
                ctx.count("negotiations_completed")
                if t != final_kind:
                    bad("connected before the request", fn, q, "the link counts as connected after the reply to the %s" % t)
                    continue
                if code != (90 if t == "request4" else 0):
                    bad("failure accepted", fn, q, "the link counts as connected although the reply does not say success")
                if t == "request4":
                    if not env.eq0(add(got, const(8), -1)):
                        bad("partial reply accepted", fn, q, "the link counts as connected after a reply that is not 8 bytes long")
                else:
                    a = known(P, env, q, f, 3)
                    L = {1: const(10), 4: const(22)}.get(a)
                    if a == 3:
                        u = [t for l in q.labels if l[0] in ("B", "W") for x in l[1:3] if isinstance(x, tuple) for t in subterms(x) if isinstance(t, tuple) and t and t[0] == "idx" and P.cover(t) and P.cover(t)[0] == f and value(env.form(P.cover(t)[1])) == 4]
                        L = add(const(7), env.form(u[0])) if u else None
                        if u and not env.ge0(env.form(u[0])) and not any(unsigned(p, l[1:3], u[0]) for l in q.labels if l[0] in ("B", "W")):
                            bad("length taken as signed", fn, q, "the length of the name in the reply is taken as a signed number: a reply that announces 128 bytes or more can count as complete")
                            continue
                        if L is not None and not env.eq0(add(got, L, -1)):
                            v = next((x for l in q.labels if l[0] in ("B", "W") for y in l[1:3] if isinstance(y, tuple) for x in subterms(y) if isinstance(x, tuple) and x and (x[0] in ("conv", "trunc", "zext") or x[0] == "bin" and x[1] == "&") and has(x, lambda t: t == u[0])), None)
                            if v is not None:
                                L = add(const(7), env.form(v))
                    if L is None:
                        if a is None and not env.ge0(add(got, const(6), -1)):
                            bad("partial reply accepted", fn, q, "the link counts as connected after a reply shorter than its fixed part")
                    elif not env.eq0(add(got, L, -1)):
                        bad("partial reply accepted", fn, q, "the link counts as connected although the reply is not exactly as long as its address type says")
            for k, x in nxt:
                ctx.count("next_requests")
                allowed = {("method", 0): "request", ("method", 2): "auth", ("auth", 0): "request"}
                if allowed.get((t, code)) != k:
                    bad("wrong next step", fn, q, "a %s message follows the reply to the %s with code %s" % (k, t, code))
                e2 = x[4]
                g = e2.form(grown(P, q, counter)) if counter is not None else None
                if g is not None and not e2.eq0(add(g, const(2), -1)):
                    bad("partial reply accepted", fn, q, "the next message is sent before the reply to the %s is complete" % t)


def unsigned(p, terms, u):
    """does the byte pass through an unsigned type"""
    return any(isinstance(x, tuple) and any(isinstance(t, tuple) and t and (t[0] == "zext" or t[0] == "bin" and t[1] == "&" and t[3] == ("c", 255)) and has(t, lambda y: y == u) for t in subterms(x)) for x in terms)


def grown(P, q, counter):
    """the count right after this reply's bytes were added"""
    for l in q.labels:
        if l[0] == "W" and P.field(l[1]) == counter:
            return l[2]
    return ("v", ("f", ("this",), counter))


def longer(P, env, q, f, got):
    a = known(P, env, q, f, 3)
    for l in q.labels:
        if l[0] == "B" and has(l[1], lambda t: isinstance(t, tuple) and t and t[0] == "arg"):
            pass
    if a in (1, 4):
        return env.ge0(add(const({1: 9, 4: 21}[a]), got, -1))
    return a == 3


def shape(ctx, P, t, fn, q, i, env, b, n, f, bad):
    """the bytes of a message"""
    ps = pieces(P, fn, q, f, i, env)
    ctx.count("message_shapes")
    total = env.form(n)
    if t == "method":
        k = b.get(1)
        if not k or k[0] != "c" or value(total) != 2 + k[1] or b.get(2) != ("c", 0) or k[1] == 2 and b.get(3) != ("c", 2):
            bad("method message", fn, q, "the list of authentication methods is not as long as it says, or offers others than 0 and 2")
    elif t in ("auth", "request"):
        # a copied piece of variable length is announced by the byte before it
        for o, k, v in ps:
            if v is None and value(k) is None:
                pre = [x for x in ps if x[2] is not None and not {m: y for m, y in add(add(x[0], const(1)), o, -1).items() if y}]
                if not pre or add(env.form(pre[-1][2]), k, -1):
                    bad("announced length", fn, q, "a %s message announces another length than it copies" % t)
        if t == "request":
            a = b.get(3)
            port_piece(ctx, P, fn, q, ps, a[1] == 3, bad)
            want = {1: 10, 4: 22}.get(a[1])
            if a[1] not in (1, 3, 4) or want is not None and value(total) != want:
                bad("request shape", fn, q, "the request is not as long as its address type says")


def target(ctx, P, bad):
    """fields of the target that the request branches on first are decided by every successful set_target_addr"""
    p = P.p
    sel = set()
    for fn in P.entries:
        if fn.name == "set_target_addr" or p.decls[fn.id].get("acc") == "public":
            continue
        for q in P.paths(fn):
            for l in q.labels:
                if l[0] == "B":
                    k, v = core(l[1], l[2])
                    if Env.name(k) in ("empty", "size", "length"):
                        for t in subterms(k):
                            g = P.field(t) if isinstance(t, tuple) else None
                            if g is not None:
                                sel.add(g)
    for fn in P.entries:
        if fn.name != "set_target_addr":
            continue
        touched = set()
        qs = [q for q in P.paths(fn) if q.kind == "exit" and q.val == ("c", 1)]
        W = [{P.field(l[2]) for l in q.labels if l[0] == "SET" and l[2] is not None} for q in qs]
        mine = set().union(*W) & sel if W else set()
        ctx.count("targets_set", len(qs))
        for q, w in zip(qs, W):
            for g in sorted(mine - w):
                bad("%s kept" % p.decls[g]["n"], fn, q, "setting a target leaves '%s' of the previous target, which the request prefers" % p.decls[g]["n"])


def run(ctx):
    ctx.each(LIB, unit)
    ctx.need("proxy_classes", 6)
    ctx.need("accesses", 300)
    ctx.need("transfers", 50)
    ctx.need("requests_built", 15)
    ctx.need("negotiations_completed", 20)
    ctx.need("next_requests", 20)
    ctx.need("targets_set", 20)
