RULE = """At every call that starts an asynchronous operation, timer wait or queued task from a member of a class derived from the
tracked executor, the completion handler passed must contain a copy of the executor's call indicator."""
EXPLANATION = """Path-sensitive value flow over the inlined control-flow graph of every member function of every concrete socket class in every
configuration: the handler term reaching each initiating call is inspected for the shared indicator. A handler that is only an argument of
the explored function is judged at the callers that supply it."""
ASSUMPTIONS = ["asio destroys a completion handler only after it ran or was abandoned", "a copy of a shared_ptr inside a functor lives as long as the functor"]
from lib import *
from witness_units import LIB, DEMO


def indicator(p):
    """the field whose sharing makes a socket 'busy'"""
    te = p.cls_by_qn(NS + "tracked_executor")
    if not te:
        raise Broken("no tracked executor")
    fn = method(p, te[0], "is_async_calling")
    out = [x["d"] for x in fn.st if x and x["k"] == "mem" and p.decls[x["d"]]["k"] == "field"]
    out = [d for d in out if "shared_ptr" in p.ty(p.decls[d]["ty"])["s"]]
    if len(set(out)) != 1:
        raise Broken("cannot identify the call indicator")
    return out[0]


def unresolved(h):
    return has(h, lambda t: t[0] in ("arg", "param", "?")) and not has(h, lambda t: t[0] in ("fnref", "lambda"))


def handler_of(args):
    hs = [a for a in args if a and a[0] not in ("c", "?") and a != ("void",)]
    return hs[-1] if hs else None


def unit(ctx, p):
    if any(p.derives(c, NS + "executor") for c in p.cls_by_qn(NS + "tracked_executor")):
        ctx.count("delay_close_units")
        return  # timed closing: no indicator in this configuration
    ind = indicator(p)
    seen = set()
    for c in p.leaf_classes(NS + "tracked_executor"):
        for fn in class_functions(p, c):
            def label(ex, st, ev):
                if ev.kind != "call" or ev.d is None or ev.inlined or not is_initiation(p, p.decls[ev.d]):
                    return None
                h = handler_of(ev.args)
                if h is None:
                    return None
                h = resolve(ex, st, ev, h)
                f = ev.frame.fn
                key = "%s in %s" % (ev.name, f.qn)
                ok = has(h, lambda t: t[0] == "f" and t[2] == ind)
                own = f.cls is not None and p.classes[f.cls]["qn"] == NS + "tracked_executor"
                if ok or own or not unresolved(h):
                    if (ev.site, c) not in seen:
                        seen.add((ev.site, c))
                        ctx.count("initiations")
                        ctx.sample("%s %s: %s" % (f.where(ev.line), ev.name, ",".join(sorted({p.decls[t]["n"] for t in targets(p, h)}))))
                    if not ok:
                        who = sorted({p.decls[t]["n"] for t in targets(p, h) if "qn" in p.decls[t] and NS in p.decls[t]["qn"]})
                        ctx.violation("unheld %s(%s) from %s" % (ev.name, ",".join(who), ex.entry.qn), f.where(ev.line),
                                      "%s started without holding the call indicator (handler %s)" % (ev.name, ",".join(who) or show(p, h)), ex.trail(st)[-12:], p.tu)
                return None
            ctx.analysed(fn)
            trace(p, fn, c, label, calls=is_initiation, relevant=())


def resolve(ex, st, ev, h):
    """the value a handler argument denotes"""
    n = 0
    while h and h[0] in ("var", "tmp", "f", "deref", "idx") and n < 6:
        v = ex.load(st, h)
        if v == h or v == ("v", h):
            break
        h = v
        n += 1
    return h


def run(ctx):
    ctx.each(LIB + DEMO, unit)
    ctx.need("initiations", 300)
