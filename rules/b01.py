RULE = """Every function that starts or completes a transport read or write of an established link can run only inside the socket's I/O strand,
and every function that delivers messages to the application only inside its dispatch strand: it is reached from strand-bound handlers and
tasks alone, never by a direct call from a public or protected function, a timer callback or a handler bound outside the strand."""
EXPLANATION = """Execution-context inference per concrete socket class: every deferral site (asynchronous operation, task, timer) is traced with
value flow to find which functions it will run and in which strand; contexts are then propagated over the synchronous call graph with
virtual calls resolved in that class. The obligations are the read/write starters (the overrides of the socket's two transfer hooks), the
functions their initiations are bound to, and the caller of the message hook."""
ASSUMPTIONS = ["asio runs a strand-bound handler only inside that strand", "application code calls only public and protected members"]
from lib import *
from a01 import handler_of, resolve
from witness_units import LIB, DEMO


CLOSING = ("async_shutdown", "async_close")


def deferrals(p, c, ctx):
    """-> list of (functions run later, strand field or None, site, operation)"""
    out = []
    fns = class_functions(p, c)
    tm = ("set_timer", "create_or_update_timer", "update_timer_info")

    def label(ex, st, ev):
        if ev.kind != "call" or ev.d is None:
            return None
        d = p.decls[ev.d]
        if ev.name in tm:
            r = []
            for a in ev.args:
                r += targets(p, resolve(ex, st, ev, a))
            if r:
                out.append((frozenset(r), None, ev.frame.fn.where(ev.line), "timer", ex.entry.id))
            return None
        if ev.inlined or not is_initiation(p, d):
            return None
        ts, strand = set(), None
        for i, a in enumerate(ev.args):
            for v in {a, resolve(ex, st, ev, a)}:
                ts |= set(targets(p, v))
                for t in subterms(v):
                    if t and t[0] == "f" and len(t) == 3 and isinstance(t[2], int) and "strand" in p.ty(p.decls[t[2]]["ty"])["s"]:
                        strand = t[2]
        if ev.obj is not None and ev.obj[0] == "f" and "strand" in p.ty(p.decls[ev.obj[2]]["ty"])["s"]:
            strand = ev.obj[2]
        if strand is not None and not effective(p, ev):
            strand = None
        if ts:
            out.append((frozenset(ts), strand, ev.frame.fn.where(ev.line), ev.name, ex.entry.id))
        return None
    own = {}

    def opaque(p, d):
        """a function that creates its own handlers and takes none is analysed as an entry of its own"""
        i = d["id"]
        if i not in own:
            f = p.fns.get(i)
            r = False
            if f is not None:
                r = any(x and (x["k"] == "lambda" or (x["k"] == "ref" and p.decls[x["d"]]["k"] == "fn" and x["d"] in p.fns)) for x in f.st)
                if r and any(any(w in p.ty(q["ty"])["s"] for w in ("function", "bind", "binder", "lambda")) for q in d.get("ps", [])):
                    r = False
            own[i] = r
        return own[i] and i != cur[0]
    cur = [None]
    todo, done = list(fns), set()
    while todo:
        fn = todo.pop(0)
        if fn.id in done:
            continue
        done.add(fn.id)
        cur[0] = fn.id
        for x in fn.st:
            if x and x["k"] == "lambda" and x["d"] in p.fns:
                todo.append(p.fns[x["d"]])
        trace(p, fn, c, label, opaque=opaque, calls=lambda p, d: is_initiation(p, d) or d["n"] in tm, relevant=())
    return out


def effective(p, ev):
    """asio sees the strand: it is an argument (or the object) of the initiating call, or the handler's own type carries it.  A handler whose type
    was erased (boost::function around the strand-bound handler) runs wherever asio likes."""
    if ev.obj is not None and ev.obj[0] == "f" and "strand" in p.ty(p.decls[ev.obj[2]]["ty"])["s"]:
        return True
    for q in p.decls[ev.d].get("ps", []):
        s = p.ty(q["ty"])["s"]
        if "executor_binder<" in s or "wrapped_handler<" in s or "strand" in s.split("<")[0]:
            return True
    return False


def sync_edges(p, c, fns):
    """caller -> set of callees run synchronously on the same object, or anywhere in the project"""
    g = {}
    todo = list(fns)
    while todo:
        f = todo.pop()
        if f.id in g:
            continue
        s = set()
        for sid, x in f.calls():
            d = x.get("d")
            if d is None:
                continue
            if x["k"] == "call" and x.get("vd"):
                q = p.final(c, d)
                if q is not None:
                    d = q
            if d in p.fns:
                s.add(d)
                todo.append(p.fns[d])
        g[f.id] = s
    return g


def reach(g, seeds):
    seen, todo, why = set(seeds), list(seeds), {}
    while todo:
        a = todo.pop()
        for b in g.get(a, ()):
            if b not in seen:
                seen.add(b)
                why[b] = a
                todo.append(b)
    return seen, why


def unit(ctx, p):
    for c in p.leaf_classes(NS + "tracked_executor"):
        b = base_class(p, c, NS + "socket")
        io = getter_field(p, b, "dispatch_in_io_strand")
        dis = getter_field(p, b, "post_in_dis_strand")
        if io == dis:
            ctx.violation("one strand", own_method(p, b, "post_in_dis_strand").where(), "I/O and delivery share one strand", (), p.tu)
        fns = class_functions(p, c)
        ids = {f.id for f in fns}
        for f in fns:
            ctx.analysed(f)
        defs = deferrals(p, c, ctx)
        g = sync_edges(p, c, fns)
        public = [f.id for f in fns if f.d.get("acc") in (0, 1, "public", "protected") and not f.d.get("ctor") and f.name not in ("do_recv_msg", "do_send_msg")]
        # obligations: the transfer hooks' overrides (and overridden versions that are called), and what their initiations run
        core = {}
        for f in fns:
            if f.name in ("do_recv_msg", "do_send_msg") and f.d.get("virt") and (not f.params or p.ty(p.decls[f.params[0]]["ty"])["s"] == "bool"):
                core[f.id] = "transfer starter"
        if len({p.fns[k].name for k in core}) < 2:
            raise Broken("transfer hooks not found in " + p.classes[c]["full"][:80])
        for ts, strand, site, op, entry in defs:
            if op in CLOSING and entry in p.fns:
                core.setdefault(entry, "closing handshake")
        entries = frozenset(core)
        ninit = 0
        for ts, strand, site, op, entry in defs:
            if entry in entries and op.startswith("async_") and op != "async_wait":
                ninit += 1
                for t in ts:
                    if t in p.fns:
                        core.setdefault(t, "completion of " + op)
            elif entry in entries and strand == io:
                for t in ts:
                    if t in p.fns:
                        core.setdefault(t, "queued completion")
        ctx.count("transfer_initiations", ninit)
        if ninit < 2:
            ctx.count("thin_classes")
        deliver = {}
        for f in fns:
            for sid, x in f.calls():
                d = x.get("d")
                if d is not None and p.decls[d]["n"] == "on_msg_handle" and p.decls[d].get("virt") and x.get("vd") is not None and f.name != "on_msg_handle":
                    deliver[f.id] = "message delivery"
        ctx.count("delivery_functions", len(deliver))
        for want, strand, what in ((core, io, "I/O strand"), (deliver, dis, "dispatch strand")):
            seeds = {}
            for i in public:
                if i not in want or p.fns[i].d.get("acc") in (0, "public"):
                    seeds[i] = ("called by application code", None)
            for ts, s, site, op, entry in defs:
                if s != strand:
                    for t in ts:
                        seeds.setdefault(t, ("run by %s outside the strand" % op, site))
            seen, why = reach(g, seeds)
            for k, role in want.items():
                ctx.count("obligations")
                ctx.sample("%s %s must stay in the %s" % (p.fns[k].qn, role, what))
                if k in seen:
                    chain, a = [k], k
                    while a in why:
                        a = why[a]
                        chain.append(a)
                    how, site = seeds.get(a, ("", None))
                    names = [p.fns[x].qn for x in reversed(chain)]
                    ctx.violation("%s outside %s via %s" % (p.fns[k].qn, what, names[0]), site or p.fns[a].where(),
                                  "%s can run outside the %s: %s is %s" % (p.fns[k].qn, what, names[0], how), names, p.tu)


def run(ctx):
    ctx.each(LIB + DEMO, unit)
    ctx.need("obligations", 300)
    ctx.need("transfer_initiations", 600)
    ctx.need("delivery_functions", 15)
