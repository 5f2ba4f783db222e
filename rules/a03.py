RULE = """Each of the pool's two tables (the one that maps ids to active sockets, the list of discarded ones) has one lock that every access to it holds, exclusively
when it changes the table. A socket taken out of the active table is put into the list of discarded sockets exactly once (directly, or through a local list that is
handed over whole), or stays active under its new id; nothing else is ever put into that list, except the socket that was just taken out of it and is not handed
out. A socket is taken out of the list of discarded sockets (to be freed or handed out) only when that very list entry was found to be the only reference and
obsolete, without the list's lock having been released in between. A discarded socket handed out by the creating functions was reset first."""
EXPLANATION = """Every path of every function of the pool class is followed, helpers inlined, with a lock automaton and with the branch facts on 'only reference' and
'obsolete' bound to the list position they were asked for; loops are followed for two iterations from a havocked state."""
ASSUMPTIONS = ["boost::shared_ptr::unique() is exact while the list's lock is held: another reference could only be taken through the list or from an existing reference",
               "the container accessor is used before the service pump is started, as documented", "inserting into the list of discarded sockets fails only when memory is exhausted"]
import locks, loops
from b03 import deep
from lib import *
from witness_units import LIB, DEMO

REMOVE = ("erase", "pop_front", "pop_back", "clear", "remove", "remove_if", "resize", "swap", "extract", "assign", "unique", "merge", "erase_if")
INSERT = ("emplace_back", "push_back", "emplace_front", "push_front", "insert", "emplace", "try_emplace", "insert_or_assign", "operator[]", "emplace_hint")
LOGS = ("error_out", "info_out", "warning_out", "fatal_out", "debug_out", "all_out")


class Pool:
    def __init__(self, p, c):
        self.p, self.c = p, c
        self.b = base_class(p, c, NS + "object_pool")
        t, i = [], []
        for f in p.classes[self.b]["fs"]:
            k = p.ty(p.decls[f]["ty"]).get("cls")
            if k is None:
                continue
            n = p.classes[k]["qn"].split("::")[-1]
            if "map" in n:
                t.append(f)
            elif n in ("list", "vector", "deque"):
                i.append(f)
        if len(t) != 1 or len(i) != 1:
            raise Broken("the pool's tables were not found")
        self.T, self.I = ("f", ("this",), t[0]), ("f", ("this",), i[0])
        self.names = (p.decls[t[0]]["n"], p.decls[i[0]]["n"])
        self.size = getter_field(p, self.b, "max_size")
        self.fns = [f for f in p.fns.values() if f.cls == self.b]

    def table(self, t):
        """which table a location or iterator is derived from"""
        if t == self.T or has(t, lambda q: q == self.T):
            return "T"
        if t == self.I or has(t, lambda q: q == self.I):
            return "I"
        return None


def pools(p):
    out = {}
    for c in p.leaf_classes(NS + "object_pool"):
        if any(m in p.fns for m in p.classes[base_class(p, c, NS + "object_pool")].get("ms", [])):
            out.setdefault(base_class(p, c, NS + "object_pool"), Pool(p, c))
    return list(out.values())


def unconv(t):
    while t and t[0] == "conv":
        t = t[2]
    return t


def owner(t):
    """the entry (its location) behind a smart pointer dereference or a copy of it"""
    t = unconv(t)
    if t and t[0] in ("v", "rd"):
        return t[1]
    if t and t[0] == "deref":
        return owner(t[1]) if t[1] and t[1][0] in ("v", "rd") else t
    return t


def guard(ex, cond, taken):
    """[('unique'/'obsoleted', entry location, value)] a branch establishes"""
    atom, pol = cond, taken
    while atom and atom[0] == "un" and atom[1] == "!":
        atom, pol = atom[2], not pol
    if atom and atom[0] == "bin" and atom[1] in ("==", "!=") and T0 in (atom[2], atom[3]) and not has(atom, lambda t: t[0] in ("pure", "call") and str(t[1]).endswith("use_count")):
        pol = pol if atom[1] == "!=" else not pol
        atom = atom[2] if atom[3] == T0 else atom[3]
    while atom and atom[0] == "un" and atom[1] == "!":
        atom, pol = atom[2], not pol
    if not atom:
        return None
    if atom[0] in ("pure", "call"):
        n = str(atom[1]).split("::")[-1]
        if n == "unique":
            o = atom[2][0] if atom[0] == "pure" else atom[3]
            return ("unique", owner(o), pol)
        if n == "obsoleted":
            o = atom[2][0] if atom[0] == "pure" else atom[3]
            return ("obsoleted", owner(o), pol)
    if atom[0] == "bin" and atom[1] in ("==", "!=", "<=", "<", ">", ">="):
        for a, b, op in ((atom[2], atom[3], atom[1]), (atom[3], atom[2], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(atom[1], atom[1]))):
            if a and a[0] in ("pure", "call") and str(a[1]).split("::")[-1] == "use_count" and b and b[0] == "c":
                o = owner(a[2][0] if a[0] == "pure" else a[3])
                one = {("==", 1): pol, ("!=", 1): not pol, ("<=", 1): pol, ("<", 2): pol, (">", 1): not pol, (">=", 2): not pol}.get((op, b[1]))
                if one is not None:
                    return ("unique", o, one)
    return None


def explore(P, fn, access, extra=None, args=None):
    """paths with: acq/rel, GU guards, RM removals, IN insertions, SP splices, RS reset calls, ID id assignments, LT loop tests"""
    p = P.p

    def label(ex, st, ev):
        out = []
        r = st.rule
        ls, sh = r[0][1] if r and r[0][0] == "LS" else (locks.LockState.empty(), ())
        nsh = sh
        if ev.kind == "call" and ev.x is not None and ev.x["k"] == "ctor" and ev.args and p.classes[ev.x["cls"]]["n"] in ("shared_lock", "shared_lock_guard"):
            nsh = tuple(set(sh) | {ev.args[0]})
        if ev.kind == "call" and ev.name in ("lock_shared",) and ev.obj is not None:
            nsh = tuple(set(sh) | {ev.obj})
        ns, evs = locks.step(p, ex, st, ev, ls)
        for e in evs:
            if e[0] == "rel":
                nsh = tuple(x for x in nsh if x != e[1])
            out.append((e[0], e[1], len(r)))
        if ns != ls or nsh != sh:
            st.rule = (("LS", (ns, nsh)),) + tuple(x for x in r if x[0] != "LS")
        held, shared = ns[0], nsh
        # iterators known to walk a table
        its = {l[1]: l[2] for l in r if l[0] == "LT"}

        def tab(t):
            if not isinstance(t, tuple):
                return None
            k = P.table(t)
            if k:
                return k
            for s in subterms(t):
                if s in its:
                    k = P.table(its[s])
                    if k:
                        return k
            return None

        def touch(k, write, what):
            access.append((k, held, shared, write, ev.frame.fn, ev.line, fn, what))
        if ev.kind == "branch":
            g = guard(ex, ev.cond, ev.taken)
            if g:
                out.append(("GU",) + g + (ev.line,))
            t = loops.test(ev.cond)
            if t is not None:
                out.append(("LT", t[0], t[1], t[2] == ev.taken, ev.line, len(r)))
            else:
                out.append(("BR", ev.cond, ev.taken, len(r)))
        elif ev.kind == "call" and ev.d is not None and not ev.inlined:
            n = ev.name
            k = "T" if ev.obj == P.T else "I" if ev.obj == P.I else None
            if k:
                d = p.decls[ev.d]
                touch(k, not d.get("const") and n not in ("find", "begin", "end", "count", "size", "empty", "at", "rbegin", "rend", "front", "back", "equal_range"), n)
                vals = tuple(deep(ex, st, a) for a in ev.args)
                if n == "splice":
                    src = ev.args[1] if len(ev.args) > 1 else None
                    if src == P.I or src == P.T:
                        touch("I" if src == P.I else "T", True, n)
                    out.append(("SP", k, src, tuple(unconv(a) for a in ev.args[2:]), vals, ev.line))
                elif n in REMOVE:
                    out.append(("RM", k, n, tuple(unconv(a) for a in ev.args), vals, ev.res, ev.line, len(r)))
                elif n in INSERT:
                    w = unconv(vals[0]) if len(vals) == 1 else None
                    if w and w[0] in ("pure", "obj") and "pair" in str(w[1]) and isinstance(w[2], tuple) and len(w[2]) == 2:
                        vals = w[2]
                    out.append(("IN", k, n, tuple(ev.args), vals, ev.res, ev.line, len(r)))
                elif n == "size":
                    out.append(("SZ", k, len(r)))
                elif n == "find":
                    out.append(("FD", k, vals, ev.res, ev.line))
            else:
                a = [x for x in ev.args if x in (P.T, P.I)]
                for x in a:
                    w = n in ("splice", "swap", "merge", "<ctor>")
                    touch("T" if x == P.T else "I", n in ("splice", "swap", "merge"), n)
                    if n == "splice":
                        out.append(("SPO", "T" if x == P.T else "I", ev.obj, tuple(unconv(y) for y in ev.args[2:]), ev.line))
                    elif n in ("swap", "merge"):
                        out.append(("RM", "T" if x == P.T else "I", n, (), (), ev.res, ev.line, len(r)))
                if ev.obj is not None and ev.obj[0] in ("var",) and n in INSERT + ("splice",):
                    out.append(("LOC", n, ev.obj, tuple(deep(ex, st, y) for y in ev.args), ev.line, ev.line, len(r)))
                if n == "operator=" or n in ("unique", "obsoleted", "operator->", "operator*") or n == "<ctor>":
                    # reading or copying an entry in place
                    for x in (ev.obj,) + tuple(ev.args):
                        if isinstance(x, tuple) and x and x[0] in ("deref", "f") and entry(x):
                            t = tab(x)
                            if t:
                                touch(t, False, n)
                elif n.startswith("find_if") or n in ("next", "advance", "for_each", "distance", "count_if"):
                    for x in ev.args:
                        t = tab(x)
                        if t and x and x[0] in ("pure", "h"):
                            touch(t, n == "remove_if", n)
                            break
                if n == "reset" and ev.obj is not None and ev.obj[0] == "deref":
                    out.append(("RS", owner(ev.obj), deep(ex, st, ev.obj[1]), ev.line))
                if n == "id" and len(ev.args) == 1 and ev.obj is not None:
                    out.append(("ID", deep(ex, st, ev.obj[1]) if ev.obj[0] == "deref" else ev.obj, deep(ex, st, ev.args[0]), ev.line))
        elif ev.kind == "write":
            if ev.loc in (P.T, P.I):
                touch("T" if ev.loc == P.T else "I", True, "assignment")
                out.append(("RM", "T" if ev.loc == P.T else "I", "assignment", (), (), None, ev.line, len(r)))
        if extra is not None:
            x = extra(ex, st, ev, held)
            if x:
                out.extend(x)
        return out or None

    def op(p, d):
        n = d["n"]
        return n in LOGS or n in ("obsoleted", "on_create", "is_equal_to", "show_info", "show_status", "get_statistic") or d["id"] == fn.id or n == "reset"
    return trace(p, fn, P.c, label, force=True, fields=P.names, opaque=op, prune=prune, calls=lambda p, d: d["n"] in ("unique", "obsoleted", "reset", "use_count", "emplace", "splice") or d["n"] == "id", cap=400)


def entry(x):
    """a table entry, not something reached through a copy of its value"""
    while x and x[0] == "f":
        x = x[1]
    return x and x[0] == "deref" and x[1] and x[1][0] in ("pure", "h", "call", "conv")


def prune(ex, st, ev):
    if ev.kind != "branch":
        return False
    t = loops.test(ev.cond)
    if t is not None and t[2] == ev.taken:
        n = sum(1 for l in st.rule if l[0] == "LT" and l[4] == ev.line and l[3])
        return n >= 2
    return False


def hold(q, i, j, L=None):
    """was the lock held from label i to label j without a release"""
    return not any(l[0] == "rel" for l in q.labels[i:j])


def is_key_of(P, key):
    """object (value) whose id this key is"""
    k = key
    while k and k[0] in ("v", "rd", "conv"):
        k = k[1] if k[0] != "conv" else k[2]
    if k and k[0] == "f" and k[1] and k[1][0] == "deref":
        return k[1][1]
    if key and key[0] in ("pure", "call") and str(key[1]).split("::")[-1] == "id":
        o = key[2][0] if key[0] == "pure" else key[3]
        while o and o[0] in ("deref", "addr"):
            o = o[1]
        return o
    return None


def strip_v(t):
    t = unconv(t)
    while t and t[0] in ("v", "rd") and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    return t


def removed(P, q, i, l):
    """the object a removal takes out (stripped value), or None"""
    k, n, args, vals = l[1], l[2], l[3], l[4]
    if n != "erase" or not args:
        return None
    a = args[0]
    if len(args) > 1:
        return None
    if k == "I":
        return ("deref", a)
    o = is_key_of(P, vals[0])
    if o is not None:
        return strip_v(o)
    x = a
    if x and (x[0] in ("call", "pure", "h")):
        f = second(P)
        return ("f", ("deref", x), f)
    # by a key: the entry found under the same key
    for m in reversed(q.labels[:i]):
        if m[0] == "FD" and m[1] == "T" and m[2] and m[2][0] == vals[0]:
            return ("f", ("deref", m[3]), second(P))
    return None


def second(P):
    """the 'socket' half of an entry of the table of active sockets"""
    return "value"


def canon(p, t):
    """an object value with the map entry's fields named, so that every instantiation of the entry type compares equal"""
    t = strip_v(t)
    if t and t[0] == "f" and t[1] and t[1][0] == "deref" and isinstance(t[2], int) and p.decls[t[2]]["n"] == "second":
        return ("f", t[1], "value")
    return t


def null(P, q, ex, o):
    """does the path say that this pointer value is empty"""
    for l in q.labels:
        if l[0] == "BR" and has(l[1], lambda t: canon(P.p, t) == o):
            c, pol = l[1], l[2]
            while c and c[0] == "un" and c[1] == "!":
                c, pol = c[2], not pol
            if c and c[0] == "bin" and c[1] in ("!=", "==") and c[3] == T0:
                pol = pol if c[1] == "!=" else not pol
                c = c[2]
            while c and c[0] == "un" and c[1] == "!":
                c, pol = c[2], not pol
            if c and c[0] == "pure":
                if c[1] == "operator!":
                    pol = not pol
                elif not (c[1].startswith("operator") and len(c[2]) == 1) and c[1] != "get":
                    continue
                if canon(P.p, c[2][0] if isinstance(c[2], tuple) and c[2] else None) == o and not pol:
                    return True
    return False


def local_empty(q, L, i):
    """a later test claims that the local list is empty"""
    for l in q.labels[i:]:
        if l[0] == "BR" and has(l[1], lambda t: t[0] in ("pure", "call") and str(t[1]).split("::")[-1] in ("size", "empty") and has(t, lambda s: s == L)):
            c, pol = l[1], l[2]
            while c and c[0] == "un" and c[1] == "!":
                c, pol = c[2], not pol
            if c and c[0] == "bin" and T0 in (c[2], c[3]):
                pol = {"==": not pol, "!=": pol, ">": pol, "<": pol, "<=": not pol, ">=": not pol}.get(c[1], pol)
                c = c[2] if c[3] == T0 else c[3]
            while c and c[0] == "un" and c[1] == "!":
                c, pol = c[2], not pol
            if c and c[0] in ("pure", "call") and str(c[1]).split("::")[-1] == "empty":
                pol = not pol
            if not pol:
                return True
    return False


def exempt(p, fn):
    d = p.decls[fn.id]
    if d.get("ctor") or fn.name in ("<dtor>", "<ctor>") or fn.name.startswith("~"):
        return True
    for o in d.get("ov", []) or []:
        if p.decls[o]["n"] == "finalize":
            return True
    return False


def pool(ctx, P):
    p = P.p
    access = []
    for fn in P.fns:
        if exempt(p, fn):
            continue
        acc = []
        paths, ex = explore(P, fn, acc)
        if not acc and not any(l[0] in ("RM", "IN", "SP") for q in paths for l in q.labels):
            continue
        ctx.analysed(fn)
        ctx.count("pool_functions")
        access += acc
        for q in paths:
            ctx.count("paths")
            judge(ctx, P, fn, q, ex)
    lockset(ctx, P, access)


def lockset(ctx, P, access):
    p = P.p
    for k, T in (("T", "table of active sockets"), ("I", "list of discarded sockets")):
        acc = [a for a in access if a[0] == k]
        ctx.count("table_accesses", len({(a[4].id, a[5], a[7]) for a in acc}))
        score = {}
        for a in acc:
            for m in set(a[1]):
                score[m] = score.get(m, 0) + 1
        if not score:
            ctx.violation("lock of %s in %s" % (T, P.p.classes[P.b]["qn"]), P.fns[0].where(), "the %s is never accessed under a lock" % T, (), p.tu)
            continue
        best = max(score, key=lambda m: (score[m], str(m)))
        for a in acc:
            if best not in a[1]:
                ctx.violation("unlocked %s in %s" % (T, a[6].qn), a[4].where(a[5]), "the %s is accessed (%s) without its lock %s" % (T, a[7], show(p, best)), (), p.tu)
            elif a[3] and best in a[2]:
                ctx.violation("shared lock for %s in %s" % (T, a[6].qn), a[4].where(a[5]), "the %s is changed (%s) while its lock is only held for reading" % (T, a[7]), (), p.tu)


def judge(ctx, P, fn, q, ex):
    p = P.p
    L = q.labels

    def bad(rule, msg, line=None):
        ctx.violation("%s in %s" % (rule, fn.qn), fn.where(line) if line else q.where, msg, q.trail[-12:], p.tu)
    if q.kind != "exit":
        return
    outT, outI, ins, loc = [], [], [], {}
    for i, l in enumerate(L):
        if l[0] == "RM":
            if l[2] != "erase" or len(l[3]) != 1:
                bad("bulk removal", "sockets are removed (%s) without being checked one by one" % l[2], l[6])
                continue
            o = removed(P, q, i, l)
            if l[1] == "T":
                ok = truth(ex, q.facts, ("bin", ">", l[5], T0)) if l[5] is not None else None
                if ok is None and l[5] is not None:
                    ok = truth(ex, q.facts, l[5])
                if ok is None and l[5] is not None:
                    e = truth(ex, q.facts, ("bin", "==", l[5], T0))
                    ok = None if e is None else not e
                byit = o is not None and has(o, lambda t: t == ("deref", l[3][0]))
                if ok is None and o is not None and any(t[0] == "LT" and t[3] and ("f", ("deref", t[1]), "value") == o for t in L[:i]):
                    ok = True
                outT.append([i, o, True if byit else ok, l[6], 0])
            else:
                ctx.count("discarded_removals")
                outI.append((i, o, l[6]))
                checked(ctx, P, q, ex, i, l[3][0], l[6], bad)
        elif l[0] == "SPO":
            if l[1] == "T" or len(l[3]) != 1:
                bad("bulk removal", "sockets are moved out of a table without being checked one by one", l[4])
            else:
                outI.append((i, ("deref", l[3][0]), l[4]))
                checked(ctx, P, q, ex, i, l[3][0], l[4], bad)
        elif l[0] == "LOC":
            if l[1] in INSERT:
                loc.setdefault(l[2], []).append((i, canon(p, l[3][-1]), l[5]))
        elif l[0] == "IN":
            if l[1] == "I":
                ins.append((i, canon(p, l[4][-1]) if l[4] else None, l[6]))
            else:
                pass
        elif l[0] == "SP" and l[1] == "I":
            src = l[2]
            if src in (P.I,):
                continue
            if len(l[3]) == 0:
                ctx.count("handed_over_lists")
                for j, o, line in loc.pop(src, []):
                    ins.append((i, o, line))
            else:
                bad("partial hand-over", "only part of a local list is handed over to the list of discarded sockets", l[5])
    # local lists that were never handed over: contents lost unless a test says the list is empty
    for src, v in loc.items():
        if any(o is not None and any(r[1] == o for r in outT) for _, o, _ in v):
            if local_empty(q, src, v[0][0]):
                return
            bad("lost socket", "sockets taken out of the active table are not put into the list of discarded sockets", v[0][2])
            for _, o, _ in v:
                for r in outT:
                    if r[1] == o:
                        r[4] += 1
    for i, o, line in ins:
        ctx.count("discards")
        r = [r for r in outT if o is not None and r[1] in aliases(P, q, o)]
        if r:
            r[0][4] += 1
            if r[0][2] is not True:
                bad("duplicate discard", "a socket is put into the list of discarded sockets without knowing that it was in the active table", line)
            continue
        b = [x for x in outI if same_entry(x[1], o)]
        if b:
            if handed(q, o):
                bad("double owner", "a socket is put back into the list of discarded sockets and handed out as well", line)
            continue
        if null(P, q, ex, o):
            continue
        e = [l for l in L if l[0] == "BR"]
        if o is not None and o[0] in ("obj",):
            continue  # an empty pointer: no path puts it there (tested by its caller)
        if o is not None and has(o, lambda t: t[0] in ("arg", "param")) and helper_only(p, P.b, fn):
            continue  # a helper that is handed the socket: judged in the functions that call it
        bad("foreign discard", "something is put into the list of discarded sockets that was not just taken out of a table", line)
    for i, o, ok, line, n in outT:
        ctx.count("active_removals")
        if ok is False:
            continue
        if n > 1:
            bad("duplicate discard", "a socket enters the list of discarded sockets twice", line)
        if n == 0:
            o = next((a for a in aliases(P, q, o) if rekeyed(P, q, ex, a)), o) if o is not None else None
            if o is not None and rekeyed(P, q, ex, o):
                ctx.count("rekeyed")
                if ok is not True and not present(P, q, ex, o):
                    bad("brought back", "a socket gets a new entry in the table of active sockets without knowing that it still is in that table", line)
                continue
            if ok is None and o is None:
                pass
            if o is not None and null(P, q, ex, o):
                continue
            bad("lost socket", "a socket taken out of the active table is not put into the list of discarded sockets", line)


def aliases(P, q, o):
    """objects the path says are the same pointer"""
    out = [o]
    for b in q.labels:
        if b[0] == "BR":
            c, pol = b[1], b[2]
            while c and c[0] == "un" and c[1] == "!":
                c, pol = c[2], not pol
            if c and c[0] in ("pure", "bin"):
                n, a = (c[1], c[2]) if c[0] == "pure" else ("operator" + c[1], c[2:4])
                if n in ("operator==", "operator!=") and len(a) == 2 and pol == (n == "operator=="):
                    v = [canon(P.p, t) for t in a]
                    if o in v:
                        out += [x for x in v if x != o]
    return out


def same_entry(a, b):
    return a is not None and (a == b or strip_v(a) == strip_v(b))


def inserted(P, q, ex, l):
    """True/False/None: did this insertion take place on this path"""
    for k, v in q.facts.items():
        if k[0] == "b" and k[1] and k[1][0] in ("f", "fv") and k[1][1] == l[5]:
            return v
    for b in q.labels:
        if b[0] == "BR":
            c, pol = b[1], b[2]
            while c and c[0] == "un" and c[1] == "!":
                c, pol = c[2], not pol
            if c and c[0] in ("f", "fv", "v") and has(c, lambda t: t == l[5]):
                return pol
    return None


def handed(q, o):
    return q.val is not None and strip_v(q.val) == o


def checked(ctx, P, q, ex, i, x, line, bad):
    """the removal at label i of list position x was preceded by both tests under the same hold of the lock"""
    got = {}
    for j in range(i - 1, -1, -1):
        l = q.labels[j]
        if l[0] == "rel":
            break
        if l[0] == "GU" and l[2] == ("deref", x):
            got.setdefault(l[1], l[3])
    if got.get("unique") is not True:
        bad("referenced removal", "a socket is taken out of the list of discarded sockets (freed or reused) although it may be referenced elsewhere", line)
    if got.get("obsoleted") is not True:
        bad("live removal", "a socket is taken out of the list of discarded sockets (freed or reused) although it may not be obsolete", line)


def rekeyed(P, q, ex, o):
    for l in q.labels:
        if l[0] == "IN" and l[1] == "T" and canon(P.p, l[4][-1]) == o and inserted(P, q, ex, l):
            return True
    return False


def present(P, q, ex, o):
    """does the path know that this very object is in the table of active sockets"""
    for l in q.labels:
        if l[0] == "FD" and l[1] == "T" and l[2] and is_key_of(P, l[2][0]) is not None and strip_v(is_key_of(P, l[2][0])) == o:
            there = any(t[0] == "LT" and t[1] == l[3] and t[3] for t in q.labels)
            x = ("deref", l[3])
            for b in q.labels:
                if b[0] == "BR":
                    c, pol = b[1], b[2]
                    while c and c[0] == "un" and c[1] == "!":
                        c, pol = c[2], not pol
                    if c and c[0] in ("pure", "bin"):
                        n, a = (c[1], c[2]) if c[0] == "pure" else ("operator" + c[1], c[2:4])
                        if n in ("operator==", "operator!=") and len(a) == 2 and pol == (n == "operator=="):
                            v = [canon(P.p, t) for t in a]
                            if o in v and ("f", x, "value") in v and there:
                                return True
    return False


def creators(ctx, P):
    """functions that create sockets hand out discarded ones only after a reset"""
    p = P.p
    for fn in P.fns:
        if not any(p.decls[x["d"]]["n"] == "init_object" for _, x in fn.calls() if x.get("d") is not None):
            continue
        ctx.count("creators")
        acc = []
        paths, ex = explore(P, fn, acc)
        for q in paths:
            if q.kind != "exit":
                continue
            for i, l in enumerate(q.labels):
                if l[0] == "RM" and l[1] == "I":
                    ctx.count("reused")
                    o = ("deref", l[3][0])
                    if null(P, q, ex, o):
                        continue
                    if not any(m[0] == "RS" and (m[1] == o or strip_v(m[2]) == o) for m in q.labels[i:]):
                        ctx.violation("unreset reuse in %s" % fn.qn, fn.where(l[6]), "a discarded socket is handed out again without being reset", q.trail[-12:], p.tu)


def unit(ctx, p):
    for P in pools(p):
        ctx.count("pools")
        pool(ctx, P)
        creators(ctx, P)


def run(ctx):
    ctx.each(LIB + DEMO, unit)
    ctx.need("pools", 12)
    ctx.need("pool_functions", 150)
    ctx.need("table_accesses", 400)
    ctx.need("active_removals", 40)
    ctx.need("discards", 40)
    ctx.need("discarded_removals", 40)
    ctx.need("rekeyed", 10)
    ctx.need("handed_over_lists", 10)
    ctx.need("creators", 10)
    ctx.need("reused", 1)
