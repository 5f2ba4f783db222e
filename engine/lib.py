"""Shared vocabulary of the rules: readable names for locations and terms, role lookup, and path traces."""
from interp import Explorer, Rule, subterms, has, Limit, T0

NS = "st_asio_wrapper::"


class Broken(Exception):
    """the analysis lost one of its anchors: neither a pass nor a violation"""


def fname(p, loc):
    """name of the innermost field/variable a location denotes"""
    if not isinstance(loc, tuple) or not loc:
        return None
    if loc[0] == "f":
        return p.decls[loc[2]]["n"]
    if loc[0] in ("var", "g"):
        return p.decls[loc[1]]["n"]
    return None


def fields_of(p, loc):
    """field names along a location, innermost first"""
    out = []
    while isinstance(loc, tuple) and loc and loc[0] in ("f", "idx", "deref", "addr", "v", "rd", "fv"):
        if loc[0] == "f":
            out.append(p.decls[loc[2]]["n"])
        elif loc[0] == "fv":
            out.append(p.decls[loc[2]]["n"])
        loc = loc[1]
    return out


def mentions_field(p, term, name):
    return has(term, lambda t: t[0] in ("f", "fv") and len(t) == 3 and isinstance(t[2], int) and p.decls[t[2]]["n"] == name)


def show(p, t, depth=0):
    """readable term"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth > 8:
        return "..."
    s = lambda x: show(p, x, depth + 1)
    k = t[0]
    if k == "c":
        return str(t[1])
    if k == "this":
        return "this"
    if k == "f":
        return s(t[1]) + "." + p.decls[t[2]]["n"] if t[1] != ("this",) else p.decls[t[2]]["n"]
    if k == "fv":
        return s(t[1]) + "." + p.decls[t[2]]["n"]
    if k in ("var", "g"):
        return p.decls[t[1]]["n"]
    if k in ("v", "rd"):
        return s(t[1])
    if k == "deref":
        return "*" + s(t[1])
    if k == "addr":
        return "&" + s(t[1])
    if k == "idx":
        return s(t[1]) + "[" + s(t[2]) + "]"
    if k in ("arg", "param"):
        return "arg%d" % t[1]
    if k == "fnref":
        return p.decls[t[1]]["n"]
    if k == "bin":
        return "(%s %s %s)" % (s(t[2]), t[1], s(t[3]))
    if k == "un":
        return t[1] + s(t[2])
    if k == "pure":
        return "%s(%s)" % (t[1], ", ".join(s(a) for a in t[2]))
    if k == "call":
        return "%s()" % (str(t[1]).split("::")[-1])
    if k == "obj":
        return "%s{%s}" % (str(t[1]).split("::")[-1], ", ".join(s(a) for a in t[2]) if isinstance(t[2], tuple) and t[2] and isinstance(t[2][0], tuple) else "")
    if k == "conv":
        return s(t[2])
    if k == "h":
        return "loop:" + s(t[3])
    if k == "out":
        return "changed"
    if k == "str":
        return '"%s"' % t[1]
    if k == "trunc":
        return "(%dbit)%s" % (t[1], s(t[2]))
    return k


def touches(fn, names):
    """does the body assign (or mutate through a call) a field or variable with one of these names"""
    for x in fn.st:
        if not x:
            continue
        if x["k"] == "mem" and fn.p.decls[x["d"]]["n"] in names:
            return True
    return False


def refs_field(fn, names):
    return touches(fn, names)


def targets(p, term):
    """functions a deferred-call term will eventually run: bound member functions and lambdas"""
    out = []
    for t in subterms(term):
        if isinstance(t, tuple) and len(t) >= 2 and t[0] == "fnref" and isinstance(t[1], int):
            out.append(t[1])
        elif isinstance(t, tuple) and len(t) == 3 and t[0] == "lambda" and isinstance(t[1], int):
            out.append(t[1])
    return out


def method(p, c, name, need=True):
    """the definition of method `name` an object of class c would run (non-overloaded or first with a body)"""
    seen = [m for m in p.methods(c, name)]
    for b in p.bases(c):
        for m in p.classes[b].get("ms", []):
            if p.decls[m]["n"] == name and m not in seen:
                seen.append(m)
    for m in seen:
        f = p.final(c, m) if p.decls[m].get("virt") else m
        if f in p.fns:
            return p.fns[f]
        if m in p.fns:
            return p.fns[m]
    if need:
        raise Broken("no body for %s::%s" % (p.classes[c]["qn"], name))
    return None


def methods_all(p, c, name):
    """all overloads with bodies visible in c, nearest class first"""
    out = []
    for b in p.bases(c):
        for m in p.classes[b].get("ms", []):
            if p.decls[m]["n"] == name and m in p.fns:
                out.append(p.fns[m])
    return out


def class_functions(p, c):
    """every function with a body that an object of class c can run (overridden versions included)"""
    out = []
    for b in p.bases(c):
        if not p.classes[b].get("proj"):
            continue
        for m in p.classes[b].get("ms", []):
            if m in p.fns:
                out.append(p.fns[m])
    return out


class Path:
    __slots__ = ("labels", "val", "facts", "trail", "store", "line", "where", "kind")

    def has(self, *l):
        return any(self.match(x, l) for x in self.labels)

    @staticmethod
    def match(x, l):
        return x[:len(l)] == l

    def index(self, *l):
        for i, x in enumerate(self.labels):
            if self.match(x, l):
                return i
        return -1

    def rindex(self, *l):
        for i in range(len(self.labels) - 1, -1, -1):
            if self.match(self.labels[i], l):
                return i
        return -1

    def all(self, *l):
        return [x for x in self.labels if self.match(x, l)]


class TraceRule(Rule):
    """records, per path, the sequence of labels `label(ex, st, ev)` returns (None = not interesting)"""

    def __init__(self, label, calls=None, fields=(), bodies=None, opaque=None, inline_all=False, cap=80, want_dtor=True, volatile=(), max_states=400000, max_depth=14, unknown=None, prune=None, relevant=None, keep=None, throws=None):
        self.label = label
        self.calls = calls
        self.flds = set(fields)
        self.bodies = bodies
        self.op = opaque
        self.always_inline = inline_all
        self.cap = cap
        self.volatile = volatile
        self.max_states = max_states
        self.max_depth = max_depth
        self.unk = unknown
        self.prune = prune
        self.relevant = relevant
        self.throws = throws
        self._keep = keep
        self.out = []
        self._bc = {}

    def keep(self, term):
        return self._keep is not None and self._keep(term)

    def interesting(self, p, d):
        if self.calls is None:
            return False
        if callable(self.calls):
            return self.calls(p, d)
        return d["n"] in self.calls

    def interesting_body(self, fn):
        r = self._bc.get(fn.id)
        if r is None:
            r = bool(self.flds and touches(fn, self.flds)) or bool(self.bodies and self.bodies(fn))
            self._bc[fn.id] = r
        return r

    def opaque(self, p, d):
        if self.op is None:
            return False
        if callable(self.op):
            return self.op(p, d)
        return d["n"] in self.op

    def unknown_code(self, ex, ev):
        if self.unk is not None:
            r = self.unk(ex, ev)
            if r is not None:
                return r
        return Rule.unknown_code(self, ex, ev)

    def event(self, ex, st, ev):
        if self.prune is not None and self.prune(ex, st, ev):
            return None
        if ev.kind in ("exit", "throw"):
            q = Path()
            q.labels, q.val, q.facts, q.store, q.line, q.kind = list(st.rule), ev.val, dict(st.facts), dict(st.store), ev.line, ev.kind
            q.trail = ex.trail(st)
            q.where = ev.frame.fn.where(ev.line)
            self.out.append(q)
            return st.rule
        l = self.label(ex, st, ev)
        if l is None:
            return st.rule
        ls = l if isinstance(l, list) else [l]
        r = st.rule
        for l in ls:
            if r and r[-1] == l:
                continue
            if len(r) >= self.cap:
                return r
            r = r + (l,)
        return r


def trace(p, entry, dyn, label, args=None, force=False, **k):
    r = TraceRule(label, **k)
    ex = Explorer(p, r, entry, dyn, args)
    if not ex.wanted(entry.id, dyn) and not r.always_inline and not force:
        return [], ex
    ex.run()
    return r.out, ex


def truth(ex, facts, term):
    """is the condition `term` known true/false under these facts"""
    class S:
        pass
    s = S()
    s.facts = facts
    atom, pol = ex.norm(term)
    v = ex.lookup(s, atom)
    return None if v is None else (v if pol else not v)


def is_initiation(p, d):
    """does calling this library function start an asynchronous operation or queue a task"""
    if d is None:
        return False
    f = d.get("f", "")
    if f.startswith("/repo/") or d["id"] in p.fns:
        return False
    n = d["n"]
    if n.startswith("async_") and ("boost" in d["qn"] or "asio" in d["qn"]):
        return True
    return n in ("post", "defer", "dispatch") and "boost::asio" in d["qn"]


def is_hook(p, d):
    """virtual function the application may override"""
    return bool(d.get("virt"))


def getter_fields(p, c, name, pred=None):
    """data members a public getter reads (role lookup that survives a rename)"""
    fn = own_method(p, c, name)
    out = []
    for x in fn.st:
        if x and x["k"] == "mem" and p.decls[x["d"]]["k"] == "field" and x["d"] not in out:
            if pred is None or pred(p.decls[x["d"]]):
                out.append(x["d"])
    return out


def getter_field(p, c, name, pred=None):
    o = getter_fields(p, c, name, pred)
    if len(o) != 1:
        raise Broken("%s::%s does not identify one data member" % (p.classes[c]["qn"], name))
    return o[0]


def is_bool(p, d):
    return p.ty(d["ty"])["s"].replace("volatile ", "") in ("bool", "_Bool")


def overrides(p, d, name, cls=None):
    """is declaration d the virtual `name` (any override)"""
    return d is not None and p.decls[d]["n"] == name


def base_class(p, c, qn):
    for b in p.bases(c):
        if p.classes[b]["qn"] == qn:
            return b
    raise Broken("%s does not derive from %s" % (p.classes[c]["qn"], qn))


def own_method(p, b, name, pred=None):
    """the body class b itself declares"""
    for m in p.classes[b].get("ms", []):
        if p.decls[m]["n"] == name and m in p.fns and (pred is None or pred(p.fns[m])):
            return p.fns[m]
    raise Broken("no body for %s::%s" % (p.classes[b]["qn"], name))


def const_of(p, c, name):
    """value of a class constant, nearest class first"""
    for b in p.bases(c):
        for i in p.classes[b].get("consts", []):
            if p.decls[i]["n"] == name:
                return p.decls[i].get("cv")
    return None


def all_field(p, names):
    return lambda t: t and t[0] == "f" and len(t) == 3 and p.decls[t[2]]["n"] in names


_taken, _callers = {}, {}


def helper_only(p, c, fn):
    """a function that only other functions of the class call: its callers are analysed with it, so it need not stand on its own"""
    d = p.decls[fn.id]
    if d.get("virt") or d.get("acc") == 0 or d.get("ctor") or fn.name.startswith(("~", "<")):
        return False
    k = p.tu
    if k not in _taken:
        t, cs = set(), {}
        for f in p.fns.values():
            t.update(i for _, i in f.fnrefs())
            for _, x in f.calls():
                if x.get("d") is not None and x["d"] != f.id:
                    cs.setdefault(x["d"], set()).add(f.id)
        _taken[k], _callers[k] = t, cs
    return fn.id not in _taken[k] and bool(_callers[k].get(fn.id))
