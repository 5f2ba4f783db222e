"""Path-sensitive typestate dataflow over the inlined control-flow graph.

Explorer walks every path of an entry function, inlining the project's own functions (virtual calls are
resolved against the dynamic class of the object when it is known), and feeds a rule with events.  Values
are access paths and uninterpreted terms; a branch contributes an equality/ordering fact about its condition
and a branch that contradicts the facts already held is not taken.  Loops: the first iteration is explored
as written, every later one from a state in which everything the loop changed is unknown, so the set of
states is finite and the exploration is a fixpoint.  Nothing is executed and no solver is involved.
"""
import sys
sys.setrecursionlimit(20000)

SMARTPTR = {"operator->", "operator*", "get"}
# external functions that neither change their arguments nor depend on anything but them
PURE = {
    "operator||", "operator&&", "size", "empty", "length", "data", "c_str", "front", "back", "end", "operator==", "operator!=", "operator<", "operator>", "operator||", "operator&&",
    "operator<=", "operator>=", "operator bool", "operator->", "operator*", "operator!", "get", "operator[]", "value", "use_count", "unique",
    "begin", "cbegin", "cend", "rbegin", "rend", "operator-", "operator+", "next", "prev", "min", "max", "ref", "cref", "bind", "addressof", "is_open",
    "lowest_layer", "next_layer", "get_executor", "to_string", "ntohs", "ntohl", "htons", "htonl", "make_pair", "distance", "unlambda",
    "if_then_else_return", "if_then", "placeholders", "operator,", "memcmp", "strlen", "strcmp", "code", "category", "buffer_size", "native_handle",
    "protocol", "local_endpoint", "remote_endpoint", "address", "is_unspecified", "port", "var", "max_size", "buffer", "buffer_cast", "first", "second",
    "empty_buffer", "owns_lock", "lambda_functor", "function", "forward", "move", "__builtin_expect", "valid", "bind_executor", "make_strand_handler", "wrap", "get_io_context", "context", "is_v4", "is_v6", "to_v4", "to_v6", "to_bytes", "to_ulong", "to_uint",
}


def has(term, pred):
    """does any subterm satisfy pred"""
    stack = [term]
    while stack:
        t = stack.pop()
        if isinstance(t, tuple) and t:
            if pred(t):
                return True
            stack.extend(t)
    return False


def subterms(term):
    stack = [term]
    while stack:
        t = stack.pop()
        if isinstance(t, tuple):
            yield t
            stack.extend(t)


def contains(term, sub):
    return has(term, lambda t: t == sub)


NEG = {"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<"}
T0 = ("c", 0)


EPOCH = ("epoch",)


class Frame:
    __slots__ = ("fn", "this", "dyn", "site", "parent", "depth", "retsid", "retblk", "retidx", "snap", "cons")

    def __init__(self, fn, this, dyn, site, parent, depth):
        self.fn, self.this, self.dyn, self.site, self.parent, self.depth = fn, this, dyn, site, parent, depth
        self.retsid = None

    def key(self):
        f, out = self, []
        while f:
            out.append((f.fn.id, f.site))
            f = f.parent
        return tuple(out)

    def chain(self):
        f, out = self, []
        while f:
            out.append(f.fn)
            f = f.parent
        return out


class Ev:
    """one event: kind in call/ret/write/dtor/branch/exit/throw/read"""
    __slots__ = ("kind", "d", "qn", "name", "obj", "args", "site", "loc", "val", "res", "inlined", "cond", "taken", "op", "frame", "line", "x", "dyn")

    def __init__(self, kind, **k):
        for s in self.__slots__:
            setattr(self, s, None)
        self.kind = kind
        for a, b in k.items():
            setattr(self, a, b)


class State:
    __slots__ = ("store", "facts", "rule", "regs", "trail", "snaps", "refs")

    def __init__(self, store, facts, rule, regs, trail, snaps, refs):
        self.store, self.facts, self.rule, self.regs, self.trail, self.snaps, self.refs = store, facts, rule, regs, trail, snaps, refs

    def copy(self):
        return State(dict(self.store), dict(self.facts), self.rule, dict(self.regs), self.trail, dict(self.snaps), dict(self.refs))


class Limit(Exception):
    pass


class Rule:
    """Base class; override what is needed."""
    volatile = ()          # field names whose reads are fresh every time
    max_depth = 14
    max_states = 400000
    always_inline = False
    exceptions = False
    throws = None          # which calls may let an exception escape (None: exceptions are not followed)
    relevant = None        # names of the fields whose values and tests must survive a return (None: everything)

    def keep(self, term):
        """facts about this term survive a return"""
        return False

    def start(self, ex):
        return ()

    def interesting(self, p, d):
        """primitive functions (by declaration) whose calls matter"""
        return False

    def interesting_body(self, fn):
        """functions whose own body contains something that matters (field writes...)"""
        return False

    def opaque(self, p, d):
        return False

    def unknown_code(self, ex, ev):
        """does this un-inlined call run application code (which may change any object)?"""
        if ev.d is None:
            return ev.x is not None and "callee" in ev.x
        if ev.name == "operator()" and "boost::function" in ev.qn:
            return True
        d = ex.p.decls[ev.d]
        return bool(d.get("virt")) and ev.d not in ex.p.fns and (d["f"].startswith("/repo") or d["f"].startswith("/verif"))

    def event(self, ex, st, ev):
        """return new rule state (hashable); None prunes the path; may call ex.report"""
        return st.rule


class Explorer:
    def __init__(self, prog, rule, entry, dyn=None, args=None):
        self.p, self.rule, self.entry = prog, rule, entry
        self.dyn = dyn
        self.reports = []
        self.seen = set()
        self.states = 0
        self.paths = 0
        self.inlined = set()
        self.truncated = set()
        self.init_args = args
        self._want = {}
        self._tiny = {}

    # ------------------------------------------------------------------ reporting
    def trail(self, st):
        out, t = [], st.trail
        while t:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def report(self, st, fn, line, msg, key=None):
        self.reports.append({"entry": self.entry.qn, "fn": fn.qn, "where": fn.where(line), "msg": msg, "path": self.trail(st)[-40:], "key": key or msg, "tu": self.p.tu})

    # ------------------------------------------------------------------ which callees to inline
    def wanted(self, d, dyn, seen=None):
        """does calling d (transitively) reach anything interesting"""
        k = (d, dyn)
        if k in self._want:
            return self._want[k]
        if seen is None:
            seen = set()
        if k in seen:
            return False
        seen.add(k)
        p = self.p
        fn = p.fns.get(d)
        if fn is None:
            r = bool(self.rule.interesting(p, p.decls[d]))
        elif self.rule.opaque(p, p.decls[d]):
            r = False
        elif self.rule.interesting_body(fn) or self.rule.interesting(p, p.decls[d]):
            r = True
        else:
            r = False
            for sid, x in fn.calls():
                if "d" not in x:
                    continue
                cd = x["d"]
                ndyn = None
                if x["k"] == "call" and self.is_this(fn, x):
                    ndyn = dyn
                    if x.get("vd") and dyn is not None:
                        f = p.final(dyn, cd)
                        if f is not None:
                            cd = f
                if self.rule.interesting(p, p.decls[cd]) or self.wanted(cd, ndyn, seen):
                    r = True
                    break
            if not r:
                for b in fn.blocks:
                    if not b:
                        continue
                    for e in b["e"]:
                        if isinstance(e, dict) and e["k"] == "dtor" and "fn" in e and (self.rule.interesting(p, p.decls[e["fn"]]) or self.wanted(e["fn"], None, seen)):
                            r = True
        if len(seen) == 1 or r:
            self._want[k] = r
        seen.discard(k)
        return r

    def is_this(self, fn, x):
        s = x.get("obj", -1)
        if s is None or s < 0:
            return False
        s = fn.strip(s)
        return fn.st[s]["k"] == "this"

    def tiny(self, fn):
        """single-block accessors are always inlined, so that getters do not hide fields"""
        r = self._tiny.get(fn.id)
        if r is None:
            nb = [b for b in fn.blocks if b and (b["e"])]
            r = len(nb) <= 1 and sum(len(b["e"]) for b in nb) <= 40
            if r:
                for sid, x in fn.calls():
                    if x.get("d") is not None and self.p.fns.get(x["d"]) is fn:
                        r = False
            self._tiny[fn.id] = r
        return r

    # ------------------------------------------------------------------ store
    @staticmethod
    def base_of(loc):
        return loc[1] if loc and loc[0] in ("f", "idx") else None

    def load(self, st, loc, line=None, frame=None):
        if loc is None:
            return ("?",)
        s = st.store
        if loc in s:
            v = s[loc]
            return v
        if loc[0] == "f":
            fd = self.p.decls[loc[2]]
            if fd["n"] in self.rule.volatile:
                return ("rd", loc, (frame.key() if frame else None), line)
            b = loc[1]
            path = [loc[2]]
            while b is not None:
                if b in s:
                    v = s[b]
                    for fdid in reversed(path):
                        v = ("fv", v, fdid)
                    return v
                if b[0] == "f":
                    path.append(b[2])
                    b = b[1]
                else:
                    break
        d = loc[2] if loc[0] == "f" else (loc[1] if loc[0] in ("g", "var") else None)
        if d is not None and "cv" in self.p.decls[d]:
            return ("c", self.p.decls[d]["cv"])
        ep = s.get(EPOCH)
        if ep is not None and self.root(loc)[0] not in ("var", "tmp") and not self.const_param(self.root(loc)):
            return ("v", loc, ep)
        return ("v", loc)

    def const_param(self, r):
        """a caller's object received by reference to const: assumed not to change behind the function's back"""
        if r[0] != "param" or not isinstance(r[1], int) or r[1] >= len(self.entry.params):
            return False
        s = self.p.ty(self.p.decls[self.entry.params[r[1]]]["ty"])["s"]
        return s.startswith("const ") and s.rstrip().endswith("&") and "*" not in s.split("<")[0]

    def havoc_heap(self, st, site):
        """unknown code ran: everything except this path's own locals may have changed"""
        for k in [k for k in st.store if k is not EPOCH and self.root(k)[0] not in ("var", "tmp")]:
            del st.store[k]
        self.drop_facts(st, site)
        st.store[EPOCH] = site

    def kill(self, st, loc):
        """forget everything stored at loc or inside it"""
        for k in [k for k in st.store if k == loc or self.inside(k, loc)]:
            del st.store[k]

    @staticmethod
    def inside(k, loc):
        while k and k[0] in ("f", "idx"):
            k = k[1]
            if k == loc:
                return True
        return False

    def write(self, st, loc, val):
        if loc is None:
            return
        self.kill(st, loc)
        st.store[loc] = val

    def drop_facts(self, st, term):
        for k in [k for k in st.facts if contains(k, term)]:
            del st.facts[k]

    # ------------------------------------------------------------------ conditions
    def norm(self, t):
        """condition term -> (atom, polarity) ; atom forms ('b',x) ('eq',a,b) ('lt',a,b)"""
        pol = True
        while True:
            if t[0] == "c":
                return (("const", 1 if t[1] else 0), pol)
            if t[0] == "un" and t[1] == "!":
                pol = not pol
                t = t[2]
                continue
            if t[0] == "pure" and t[1] == "operator!" and len(t[2]) == 1:
                pol = not pol
                t = ("pure", "operator bool", (t[2][0],))
                continue
            op = a = b = None
            if t[0] == "bin" and t[1] in NEG:
                op, a, b = t[1], t[2], t[3]
            elif t[0] == "pure" and t[1].startswith("operator") and t[1][8:] in NEG and len(t[2]) == 2:
                op, a, b = t[1][8:], t[2][0], t[2][1]
            if op is None:
                if t[0] == "pure" and t[1] == "empty" and len(t[2]) == 1:
                    return (("eq", ("c", 0), ("pure", "size", t[2])), pol)
                if t[0] == "pure" and t[1].startswith("operator ") and len(t[2]) == 1:
                    return (("b", ("truth", t[2][0])), pol)
                return (("b", t), pol)
            if op in ("!=", ">=", "<="):
                pol = not pol
                op = NEG[op]
            if op == ">":
                op, a, b = "<", b, a
            if op == "==":
                if b == T0 and a[0] in ("bin", "un") and a[1] in ("!", "==", "!=", "<", ">", "<=", ">=", "&&", "||"):
                    pol = not pol
                    t = a
                    continue
                if a == T0 and b[0] in ("bin", "un") and b[1] in ("!", "==", "!=", "<", ">", "<=", ">=", "&&", "||"):
                    pol = not pol
                    t = b
                    continue
                if a == T0 and b[0] == "pure" and b[1].startswith("operator ") and len(b[2]) == 1:
                    return (("b", ("truth", b[2][0])), not pol)
                if b == T0 and a[0] == "pure" and a[1].startswith("operator ") and len(a[2]) == 1:
                    return (("b", ("truth", a[2][0])), not pol)
                if repr(a) > repr(b):
                    a, b = b, a
                if a == b:
                    return (("const", 1), pol)
                if a[0] == "c" and b[0] == "c":
                    return (("const", int(a[1] == b[1])), pol)
                return (("eq", a, b), pol)
            if a == b:
                return (("const", 0), pol)
            if a[0] == "c" and b[0] == "c":
                return (("const", int(a[1] < b[1])), pol)
            return (("lt", a, b), pol)

    def lookup(self, st, atom):
        """truth of an atom under the facts: True/False/None"""
        if atom[0] == "const":
            return bool(atom[1])
        f = st.facts
        if atom in f:
            return f[atom]
        if atom[0] == "b":
            k = ("eq", ("c", 0), atom[1])
            if k in f:
                return not f[k]
            c = self.known_const(st, atom[1])
            if c is not None:
                return c != 0
        elif atom[0] == "eq":
            a, b = atom[1], atom[2]
            if a == T0 and ("b", b) in f:
                return not f[("b", b)]
            if a[0] == "c":
                c = self.known_const(st, b)
                if c is not None:
                    return c == a[1]
                if a[1] == 0 and f.get(("lt", ("c", 0), b)):
                    return False
                lo, hi = self.bounds(st, b)
                if (lo is not None and a[1] < lo) or (hi is not None and a[1] > hi):
                    return False
            if f.get(("lt", a, b)) or f.get(("lt", b, a)):
                return False
        elif atom[0] == "lt":
            a, b = atom[1], atom[2]
            if f.get(("lt", b, a)):
                return False
            k = ("eq",) + tuple(sorted((a, b), key=repr))
            if f.get(k):
                return False
            if a[0] == "c":
                lo, hi = self.bounds(st, b)
                if lo is not None and lo > a[1]:
                    return True
                if hi is not None and hi <= a[1]:
                    return False
            if b[0] == "c":
                lo, hi = self.bounds(st, a)
                if hi is not None and hi < b[1]:
                    return True
                if lo is not None and lo >= b[1]:
                    return False
        return None

    def bounds(self, st, t):
        if t[0] == "c":
            return t[1], t[1]
        lo = hi = None
        for k, v in st.facts.items():
            if k[0] == "lt":
                if k[1] == t and k[2][0] == "c":
                    c = k[2][1]
                    if v:
                        hi = c - 1 if hi is None else min(hi, c - 1)
                    else:
                        lo = c if lo is None else max(lo, c)
                elif k[2] == t and k[1][0] == "c":
                    c = k[1][1]
                    if v:
                        lo = c + 1 if lo is None else max(lo, c + 1)
                    else:
                        hi = c if hi is None else min(hi, c)
            elif k[0] == "eq" and v and k[2] == t and k[1][0] == "c":
                return k[1][1], k[1][1]
        return lo, hi

    def known_const(self, st, t):
        if t[0] == "c":
            return t[1]
        for k, v in st.facts.items():
            if k[0] == "eq" and v and k[2] == t and k[1][0] == "c":
                return k[1][1]
        return None

    def assume(self, st, t, truth):
        """add cond == truth; False if contradictory"""
        atom, pol = self.norm(t)
        want = truth if pol else not truth
        cur = self.lookup(st, atom)
        if cur is not None:
            return cur == want
        st.facts[atom] = want
        return True

    # ------------------------------------------------------------------ expressions
    def val(self, st, fr, sid):
        if sid is None or sid < 0:
            return ("?",)
        k = (fr.depth, sid)
        if k in st.regs:
            return st.regs[k]
        # not an element of its own (rare): evaluate on demand
        return self.eval_expr(st, fr, sid)

    def as_loc(self, v):
        """pointer value -> location"""
        if v and v[0] == "addr":
            return v[1]
        if v and v[0] == "pure" and v[1] in ("operator->", "get") and len(v[2]) == 1:
            return ("deref", v[2][0])
        return ("deref", v)

    def eval_expr(self, st, fr, sid):
        x = fr.fn.st[sid]
        if x is None:
            return ("?",)
        k = x["k"]
        c = x.get("c", [])
        p = self.p
        if "cv" in x and k not in ("call", "ctor") and not (k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=")):
            return ("c", x["cv"])
        if k == "ref":
            d = p.decls[x["d"]]
            dk = d["k"]
            if dk == "fn":
                return ("fnref", x["d"])
            if dk == "enumc":
                return ("c", d["cv"])
            if dk in ("var", "parm"):
                if d.get("global") or d.get("sdm"):
                    return ("g", x["d"])
                loc = ("var", x["d"], fr.depth)
                if p.ty(d["ty"]).get("ref"):
                    return st.refs.get(loc, ("deref", ("v", loc)))
                return loc
            return ("?", dk)
        if k == "this":
            return ("addr", fr.this)
        if k == "mem":
            d = p.decls[x["d"]]
            if d["k"] == "fn":
                return ("fnref", x["d"])
            if d["k"] in ("var",):
                return ("g", x["d"])
            if d["k"] == "enumc":
                return ("c", d["cv"])
            b = self.val(st, fr, c[0])
            loc = self.as_loc(b) if x.get("arrow") else b
            f = ("f", loc, x["d"])
            if p.ty(d["ty"]).get("ref"):
                r = st.refs.get(f)
                return r if r else ("deref", ("v", f))
            return f
        if k == "pass":
            if x.get("mat"):
                v = self.val(st, fr, c[0])
                loc = ("tmp", fr.depth, sid)
                inner = fr.fn.st[c[0]] if c else None
                if self.is_glv(fr, c[0]):
                    return v
                self.write(st, loc, v)
                return loc
            return self.val(st, fr, c[0]) if c else ("?",)
        if k == "cast":
            ck = x["ck"]
            v = self.val(st, fr, c[0])
            if ck == "LValueToRValue":
                return self.load(st, v, x["l"], fr)
            if ck in ("IntegralToBoolean", "PointerToBoolean", "MemberPointerToBoolean", "FloatingToBoolean"):
                if v[0] == "c":
                    return ("c", 1 if v[1] else 0)
                if v[0] == "addr" or v[0] == "fnref":
                    return ("c", 1)
                if v[0] == "bin" and v[1] in NEG or v[0] == "un" and v[1] == "!":
                    return v
                return ("bin", "!=", v, T0)
            if ck == "IntegralCast":
                t = p.ty(x["ty"])
                s = p.ty(fr.fn.st[c[0]]["ty"])
                if v[0] == "c" and t.get("int"):
                    n = v[1] & ((1 << t["int"]) - 1)
                    if t.get("sg") and n >> (t["int"] - 1):
                        n -= 1 << t["int"]
                    return ("c", n)
                if t.get("int") and s.get("int") and (t["int"] < s["int"]):
                    return ("trunc", t["int"], v)
                if t.get("int") and t["int"] == s.get("int") and t["int"] < 32 and s.get("sg") and not t.get("sg") and v[0] != "c":
                    return ("zext", t["int"], v)
                return v
            if ck == "ArrayToPointerDecay":
                return ("addr", v)
            if ck == "NullToPointer" or ck == "NullToMemberPointer":
                return T0
            return v
        if k == "un":
            op = x["op"]
            v = self.val(st, fr, c[0])
            if op == "&":
                return v if v[0] == "fnref" else ("addr", v)
            if op == "*":
                return self.as_loc(v)
            if op == "!":
                if v[0] == "c":
                    return ("c", int(not v[1]))
                return ("un", "!", v)
            if op in ("++", "--"):
                old = self.load(st, v, x["l"], fr)
                new = ("bin", "+" if op == "++" else "-", old, ("c", 1))
                if old[0] == "c":
                    new = ("c", old[1] + (1 if op == "++" else -1))
                self.do_write(st, fr, v, new, x["l"], op)
                if x.get("post"):
                    return old
                return v if x.get("lv") else new
            if op == "-" and v[0] == "c":
                return ("c", -v[1])
            return ("un", op, v)
        if k == "bin":
            op = x["op"]
            a = self.val(st, fr, c[0])
            if op == "&&" or op == "||":
                ch = st.regs.get((fr.depth, "t", sid))
                if ch == "short":
                    return ("c", 0 if op == "&&" else 1)
                return self.val(st, fr, c[1])
            b = self.val(st, fr, c[1])
            if op == ",":
                return b
            if op == "=":
                self.do_write(st, fr, a, b, x["l"], "=")
                return a
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                old = self.load(st, a, x["l"], fr)
                self.do_write(st, fr, a, self.arith(op[:-1], old, b), x["l"], op)
                return a
            return self.arith(op, a, b)
        if k == "cond":
            ch = st.regs.get((fr.depth, "t", sid))
            if ch == "then":
                return self.val(st, fr, c[1])
            if ch == "else":
                return self.val(st, fr, c[2])
            return ("?", sid)
        if k == "idx":
            b = self.val(st, fr, c[0])
            i = self.val(st, fr, c[1])
            if b and b[0] != "addr" and i and i[0] == "addr":
                b, i = i, b
            return ("idx", self.as_loc(b), i)
        if k == "lit":
            return ("c", x.get("cv", 0))
        if k == "str":
            return ("str", x.get("v"))
        if k == "null" or k == "zero":
            return T0
        if k == "flt":
            return ("flt", x["v"])
        if k == "sizeof":
            return ("c", x["cv"]) if "cv" in x else ("?",)
        if k == "new":
            return ("new", x["aty"], self.site(fr, sid))
        if k == "lambda":
            caps = tuple(("addr", fr.this) if q.get("this") else (self.val(st, fr, q["i"]) if "i" in q else ("?",)) for q in x["cap"])
            return ("lambda", x["d"], caps)
        if k == "init":
            return ("init",) + tuple(self.val(st, fr, q) for q in c)
        return ("x", k, tuple(self.val(st, fr, q) for q in c))

    def is_glv(self, fr, sid):
        return bool(fr.fn.st[sid].get("lv"))

    @staticmethod
    def arith(op, a, b):
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            try:
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "==": lambda: int(x == y), "!=": lambda: int(x != y),
                     "<": lambda: int(x < y), ">": lambda: int(x > y), "<=": lambda: int(x <= y), ">=": lambda: int(x >= y),
                     "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]()
                return ("c", r)
            except KeyError:
                pass
        if op == "+" and b == T0:
            return a
        if op == "+" and a == T0:
            return b
        if op == "-" and b == T0:
            return a
        return ("bin", op, a, b)

    def site(self, fr, sid):
        return (fr.key(), sid)

    def do_write(self, st, fr, loc, val, line, op):
        ev = Ev("write", loc=loc, val=val, frame=fr, line=line, op=op)
        self.fire(st, ev)
        self.write(st, loc, val)

    def fire(self, st, ev):
        r = self.rule.event(self, st, ev)
        if r is None:
            raise Prune()
        st.rule = r

    # ------------------------------------------------------------------ calls
    def run(self):
        """explore everything; returns reports"""
        p = self.p
        this = ("this",)
        st = State({}, {}, None, {}, None, {}, {})
        fr = Frame(self.entry, this, self.dyn, None, None, 0)
        st.rule = self.rule.start(self)
        for i, pd in enumerate(self.entry.params):
            d = p.decls[pd]
            loc = ("var", pd, 0)
            if p.ty(d["ty"]).get("ref"):
                st.refs[loc] = ("param", i)
            else:
                st.store[loc] = ("arg", i)
        if self.init_args:
            self.init_args(self, st, fr)
        work = [(fr, self.entry.entry, 0, st, None)]
        while work:
            fr, blk, idx, st, pred = work.pop()
            self.states += 1
            if self.states > self.rule.max_states:
                raise Limit("%s: more than %d states" % (self.entry.qn, self.rule.max_states))
            try:
                work.extend(self.step(fr, blk, idx, st, pred))
            except Prune:
                pass
        return self.reports

    def state_key(self, fr, blk, st):
        live = tuple(sorted(((k, v) for k, v in st.store.items()), key=repr)) if False else frozenset(st.store.items())
        return (fr.key(), blk, live, frozenset(st.facts.items()), st.rule, frozenset(st.regs.items()), frozenset(st.refs.items()))

    def enter_block(self, fr, blk, st, pred):
        """loop widening and state de-duplication; False if already seen"""
        fn = fr.fn
        if blk in fn.heads():
            k = (fr.key(), blk)
            if (pred, blk) in fn.back_edges():
                base = st.snaps.get(k)
                if base is not None:
                    ch = [loc for loc in set(st.store) | set(base) if st.store.get(loc) != base.get(loc)]
                    for loc in ch:
                        h = ("h", fn.id, blk, loc)
                        if st.store.get(loc) != h:
                            pass
                        st.store[loc] = h
                    # facts about values from the previous iteration of this loop are stale
                    for a in [a for a in st.facts if has(a, lambda t: t[0] == "h" and t[1] == fn.id and t[2] == blk)]:
                        del st.facts[a]
                    # terms produced by call sites inside the loop will be produced again
            else:
                st.snaps[k] = dict(st.store)
        key = self.state_key(fr, blk, st)
        if key in self.seen:
            return False
        self.seen.add(key)
        return True

    def step(self, fr, blk, idx, st, pred):
        """run block blk of frame fr from element idx; returns successor work items"""
        fn = fr.fn
        b = fn.blocks[blk]
        if idx == 0:
            if not self.enter_block(fr, blk, st, pred):
                return []
        if blk == fn.exit:
            return self.leave(fr, st, None)
        els = b["e"]
        n = len(els)
        extra = []
        while idx < n:
            e = els[idx]
            if isinstance(e, int):
                x = fn.st[e]
                k = x["k"]
                if k in ("call", "ctor"):
                    if self.rule.throws is not None and x.get("d") is not None and self.rule.throws(self.p, self.p.decls[x["d"]]):
                        extra += self.unwind(fr, blk, e, st, x)
                    r = self.do_call(fr, blk, idx, st, e, x)
                    if r is not None:
                        return extra + r
                elif k == "decl":
                    self.do_decl(fr, st, x)
                elif k == "ret":
                    v = self.val(st, fr, x["c"][0]) if x.get("c") else ("void",)
                    st.regs[(fr.depth, "ret")] = v
                    st.regs[(fr.depth, "retl")] = x["l"]
                elif k == "throw":
                    ev = Ev("throw", frame=fr, line=x["l"])
                    self.fire(st, ev)
                    return []
                elif k == "delete":
                    ev = Ev("call", d=None, qn="delete", name="delete", obj=None, args=[self.val(st, fr, x["c"][0])] if x.get("c") else [], site=self.site(fr, e), frame=fr, line=x["l"], x=x)
                    self.fire(st, ev)
                else:
                    st.regs[(fr.depth, e)] = self.eval_expr(st, fr, e)
            else:
                r = self.do_elem(fr, blk, idx, st, e)
                if r is not None:
                    return extra + r
            idx += 1
        return extra + self.terminate(fr, blk, st)

    def unwind(self, fr, blk, e, st, x):
        """an exception escapes the call e: the innermost handlers around it, here or in a caller, go on"""
        ns = st.copy()
        try:
            self.fire(ns, Ev("unwind", d=x["d"], name=self.p.decls[x["d"]]["n"], frame=fr, line=x["l"]))
        except Prune:
            return []
        while fr is not None:
            fn = fr.fn
            ts = sorted((t for t in fn.tries if e in t["s"]), key=lambda t: len(t["s"]))
            for t in ts:
                hs = [c for b in fn.blocks if b.get("t") == "CXXTryStmt" and b.get("tl") == t["l"] for c in b["s"] if c >= 0 and "catch" in fn.blocks[c]]
                if hs:
                    ns.trail = (ns.trail, "%s: an exception escapes %s" % (fn.where(x["l"]), self.p.decls[x["d"]]["n"]))
                    return [(fr, h, 0, ns.copy(), blk) for h in hs]
            if fr.parent is None or fr.retsid is None:
                break
            e, blk, fr = fr.retsid[0], fr.retsid[1], fr.parent
        ns.trail = (ns.trail, "%s: an exception escapes %s and is not caught" % (self.entry.where(x["l"]), self.p.decls[x["d"]]["n"]))
        try:
            self.fire(ns, Ev("throw", d=x["d"], name="uncaught", frame=fr or Frame(self.entry, None, None, None, None, 0), line=x["l"]))
        except Prune:
            pass
        return []

    def do_decl(self, fr, st, x):
        p = self.p
        for v in x["vs"]:
            d = p.decls[v["d"]]
            loc = ("var", v["d"], fr.depth)
            if d.get("slocal"):
                continue
            if p.ty(d["ty"]).get("ref"):
                if "i" in v:
                    val = self.val(st, fr, v["i"])
                    st.refs[loc] = val
                continue
            if (fr.depth, "ctor", v["d"]) not in st.regs:
                self.kill(st, loc)
            if "i" in v:
                s = fr.fn.strip(v["i"])
                if (fr.depth, "ctor", v["d"]) in st.regs:
                    cv = st.regs.pop((fr.depth, "ctor", v["d"]))
                    if cv is not None and not any(self.inside(k, loc) for k in st.store):
                        st.store[loc] = cv
                else:
                    val = self.val(st, fr, v["i"])
                    if val is not None and fr.fn.st[v["i"]].get("lv") and val[0] in ("var", "f", "deref", "this", "tmp", "g", "idx", "param"):
                        val = self.load(st, val, x["l"], fr)
                    st.store[loc] = val
                    self.fire(st, Ev("write", loc=loc, val=val, frame=fr, line=x["l"], op="decl"))
            else:
                st.store[loc] = ("undef", v["d"])

    def do_elem(self, fr, blk, idx, st, e):
        p = self.p
        if e["k"] == "init":
            if "d" in e:
                loc = ("f", fr.this, e["d"])
                d = p.decls[e["d"]]
                if p.ty(d["ty"]).get("ref"):
                    st.refs[loc] = self.val(st, fr, e["i"])
                    return None
                s = fr.fn.strip(e["i"])
                if fr.fn.st[s]["k"] != "ctor":
                    self.do_write(st, fr, loc, self.val(st, fr, e["i"]), e["l"], "init")
                else:
                    v = st.regs.get((fr.depth, s))
                    if v is not None and not any(self.inside(k, loc) for k in st.store):
                        self.do_write(st, fr, loc, v, e["l"], "init")
            return None
        if e["k"] == "dtor":
            loc = ("var", e["d"], fr.depth)
            fnid = e.get("fn")
            ev = Ev("dtor", d=fnid, loc=loc, frame=fr, line=e["l"], qn=p.decls[fnid]["qn"] if fnid is not None else None)
            ev.val = p.ty(p.decls[e["d"]]["ty"])
            self.fire(st, ev)
            if fnid is not None and fnid in p.fns and fr.depth < self.rule.max_depth and (self.wanted(fnid, None)):
                return self.push(fr, blk, idx, st, None, p.fns[fnid], loc, None, [], e["l"], ("d", e["d"], idx))
            self.kill(st, loc)
        return None

    def resolve(self, st, fr, x, objloc):
        """declaration actually called"""
        d = x.get("d")
        if d is None:
            return None, None
        dyn = None
        if objloc is not None and objloc == ("this",):
            dyn = self.dyn
        if x.get("vd"):
            if dyn is not None:
                f = self.p.final(dyn, d)
                if f is not None:
                    d = f
        return d, dyn

    def do_call(self, fr, blk, idx, st, sid, x):
        p = self.p
        fn = fr.fn
        objloc = None
        if "obj" in x and x["obj"] is not None and x["obj"] >= 0:
            ov = self.val(st, fr, x["obj"])
            ox = fn.st[x["obj"]]
            objloc = self.as_loc(ov) if x.get("arrow") else ov
            if not x.get("arrow") and not ox.get("lv") and ov and ov[0] not in ("var", "f", "deref", "this", "tmp", "g", "idx", "param"):
                objloc = ("tmp", fr.depth, x["obj"])
                st.store[objloc] = ov
        args = [self.val(st, fr, a) for a in x.get("c", [])]
        d, dyn = self.resolve(st, fr, x, objloc)
        dd = p.decls[d] if d is not None else None
        isctor = x["k"] == "ctor"
        dest = None
        if isctor:
            t = fn.dest().get(sid)
            if t is None:
                objloc = ("tmp", fr.depth, sid)
            elif t[0] == "var":
                objloc = ("var", t[1], fr.depth)
                dest = t[1]
            elif t[0] == "field":
                objloc = ("f", fr.this, t[1])
            else:
                objloc = fr.this
                dyn = fr.dyn
        # constructors that merely copy or convert one value keep that value
        if isctor and len(args) == 1 and (dd.get("implicit") or d not in p.fns or self.same_cls(p, x, fn, sid)) and not (t and t[0] == "base"):
            v = args[0]
            ax = fn.st[x["c"][0]]
            if ax.get("lv") and v and v[0] in ("var", "f", "deref", "this", "tmp", "g", "idx", "param"):
                v = self.load(st, v, x["l"], fr)
            same = self.same_cls(p, x, fn, sid)
            if not same:
                v = ("conv", p.classes[x["cls"]]["qn"], v)
            ev = Ev("call", d=d, qn=dd["qn"], name=dd["n"], obj=objloc, args=args, site=self.site(fr, sid), frame=fr, line=x["l"], x=x, res=v)
            self.fire(st, ev)
            st.regs[(fr.depth, sid)] = v
            if dest is not None:
                st.regs[(fr.depth, "ctor", dest)] = v
            elif objloc[0] == "tmp":
                st.store[objloc] = v
            return None
        callee = p.fns.get(d) if d is not None else None
        inl = False
        if callee is not None and not self.rule.opaque(p, dd):
            if callee in fr.chain() and sum(1 for q in fr.chain() if q is callee) >= 2:
                self.truncated.add(callee.qn)
            elif fr.depth >= self.rule.max_depth:
                if self.wanted(d, dyn):
                    self.truncated.add(callee.qn)
            else:
                inl = self.rule.always_inline or self.tiny(callee) or self.wanted(d, dyn)
        ev = Ev("call", d=d, qn=dd["qn"] if dd else None, name=dd["n"] if dd else None, obj=objloc, args=args, site=self.site(fr, sid), frame=fr, line=x["l"], x=x, inlined=inl, dyn=dyn)
        if inl:
            self.fire(st, ev)
            self.inlined.add(d)
            return self.push(fr, blk, idx, st, sid, callee, objloc, dyn, args, x["l"], sid, dest)
        # ---- opaque call
        res = None
        nm = dd["n"] if dd else None
        if isctor:
            res = ("obj", p.classes[x["cls"]]["qn"], tuple(self.argval(st, fr, a, v) for a, v in zip(x.get("c", []), args)), self.site(fr, sid) if not args else None)
        elif dd is not None and self.is_pure(dd, x):
            ops = []
            if objloc is not None:
                ops.append(self.load(st, objloc, x["l"], fr) if not (x.get("arrow")) or True else objloc)
            for a, v in zip(x.get("c", []), args):
                # a lambda variable or reference wrapper denotes the object, not its present value
                byref = nm == "var" and v and v[0] in ("f", "var", "deref", "g", "idx")
                ops.append(v if byref else self.argval(st, fr, a, v))
            res = ("pure", nm, tuple(ops))
        else:
            res = ("call", dd["qn"] if dd else "?", self.site(fr, sid), objloc, tuple(args))
            self.drop_facts(st, res)
        ev.res = res
        self.fire(st, ev)
        if not inl and (self.rule.unknown_code(self, ev) or nm in ("wait", "wait_for", "timed_wait", "wait_until") and "condition_variable" in ev.qn):
            self.havoc_heap(st, ev.site)  # user code ran, or the lock was given up while waiting
        pure = dd is not None and not isctor and self.is_pure(dd, x)
        if not pure:
            # by-reference arguments and the object itself may have changed
            if objloc is not None and dd is not None and not dd.get("const") and not isctor and objloc != ("this",):
                new = ("out", self.site(fr, sid), "obj")
                if nm == "operator=" and len(args) == 1:
                    new = self.argval(st, fr, x["c"][0], args[0])
                elif nm in ("operator++", "operator--") and not args:
                    res = objloc
                self.drop_facts(st, new) if new[0] == "out" else None
                self.write(st, objloc, new)
            if dd is not None:
                for i, (a, v) in enumerate(zip(x.get("c", []), args)):
                    if i < len(dd.get("ps", [])):
                        pt = p.ty(dd["ps"][i]["ty"])
                        if (pt.get("ref") and not pt.get("const")) and fn.st[a].get("lv") and v and v[0] in ("var", "f", "deref", "tmp", "idx", "param"):
                            self.write(st, v, ("out", self.site(fr, sid), i))
                        elif pt.get("ptr") and not pt.get("const") and v and v[0] == "addr" and v[1] != ("this",):
                            self.write(st, v[1], ("out", self.site(fr, sid), i))
        if isctor:
            st.regs[(fr.depth, sid)] = res
            if dest is not None:
                st.regs[(fr.depth, "ctor", dest)] = res
            elif objloc is not None and objloc[0] == "tmp":
                st.store[objloc] = res
            return None
        if x.get("lv"):
            res = self.ref_result(nm, res, objloc, st)
        st.regs[(fr.depth, sid)] = res
        return None

    def argval(self, st, fr, a, v):
        if fr.fn.st[a].get("lv") and v and v[0] in ("var", "f", "deref", "this", "tmp", "g", "idx", "param"):
            if v == ("this",):
                return v
            return self.load(st, v, fr.fn.st[a]["l"], fr)
        return v

    def ref_result(self, nm, res, objloc, st):
        """location denoted by a reference-returning opaque call"""
        if nm in ("operator=", "operator++", "operator--", "operator+=", "operator-=", "append", "assign", "operator<<") and objloc is not None:
            return objloc
        if res and res[0] == "pure" and nm in ("operator*", "operator->", "get") and len(res[2]) == 1:
            return ("deref", res[2][0])
        return ("deref", res)

    def same_cls(self, p, x, fn, sid):
        a = x.get("c", [])
        if len(a) != 1:
            return False
        t = p.ty(fn.st[a[0]]["ty"])
        return t.get("cls") == x.get("cls") and not t.get("ptr")

    def is_pure(self, dd, x):
        if dd["n"].startswith("operator ") and not dd.get("ps") and dd.get("const") and dd["id"] not in self.p.fns:
            return True  # conversion of an external value type
        if dd["n"] not in PURE:
            return False
        if dd["id"] in self.p.fns:
            return False
        if dd["n"] in ("move", "get") and dd["qn"].split("::")[-2:-1] in (["promise"], ["future"], ["unique_future"]):
            return False
        if dd["n"] in ("get",) and "future" in dd["qn"]:
            return False
        return True

    def push(self, fr, blk, idx, st, sid, callee, objloc, dyn, args, line, site, dest=None):
        p = self.p
        nf = Frame(callee, objloc, dyn, site, fr, fr.depth + 1)
        nf.retsid = (sid, blk, idx, dest, objloc)
        # forget a previous activation at this depth
        dpt = nf.depth
        for k in [k for k in st.store if self.root(k)[0] in ("var", "tmp") and self.root(k)[2 if self.root(k)[0] == "var" else 1] >= dpt]:
            del st.store[k]
        for k in [k for k in st.regs if k[0] >= dpt]:
            del st.regs[k]
        for k in [k for k in st.refs if k[0] == "var" and k[2] >= dpt]:
            del st.refs[k]
        fnx = fr.fn
        x = fnx.st[sid] if sid is not None else None
        csids = x.get("c", []) if x else []
        for i, pd in enumerate(callee.params):
            d = p.decls[pd]
            loc = ("var", pd, dpt)
            v = args[i] if i < len(args) else ("?",)
            if p.ty(d["ty"]).get("ref"):
                ok = v and v[0] in ("var", "f", "deref", "this", "tmp", "g", "idx", "param")
                if not ok:
                    tl = ("tmp", fr.depth, ("arg", csids[i] if i < len(csids) else i))
                    st.store[tl] = v
                    v = tl
                st.refs[loc] = v
            else:
                if i < len(csids) and fnx.st[csids[i]].get("lv") and v and v[0] in ("var", "f", "deref", "this", "tmp", "g", "idx", "param"):
                    v = self.load(st, v, line, fr)
                st.store[loc] = v
        st.trail = (st.trail, "%s -> %s" % (fr.fn.where(line), callee.qn.split("st_asio_wrapper::")[-1]))
        return [(nf, callee.entry, 0, st, None)]

    @staticmethod
    def root(k):
        while k and k[0] in ("f", "idx"):
            k = k[1]
        return k if k and len(k) > 1 else ("?", 0, 0)

    def leave(self, fr, st, _):
        p = self.p
        rv = st.regs.get((fr.depth, "ret"), ("void",))
        rl = st.regs.get((fr.depth, "retl"), fr.fn.le)
        if fr.parent is None:
            self.paths += 1
            self.fire(st, Ev("exit", val=rv, frame=fr, line=rl))
            return []
        pf = fr.parent
        sid, blk, idx, dest, objloc = fr.retsid
        # pop
        retref = sid is not None and pf.fn.st[sid]["k"] == "call" and pf.fn.st[sid].get("lv")
        if not retref and rv and rv[0] in ("var", "tmp") and sid is not None and self.p.ty(pf.fn.st[sid]["ty"]).get("cls") is not None:
            rv = self.load(st, rv)
        self.fire(st, Ev("ret", d=fr.fn.id, qn=fr.fn.qn, name=fr.fn.name, val=rv, frame=fr, line=rl, obj=objloc))
        dpt = fr.depth
        for k in list(st.store):
            r = self.root(k)
            if (r[0] == "var" and r[2] >= dpt) or (r[0] == "tmp" and r[1] >= dpt):
                del st.store[k]
        for k in [k for k in st.regs if k[0] >= dpt]:
            del st.regs[k]
        for k in [k for k in st.refs if k[0] == "var" and k[2] >= dpt]:
            del st.refs[k]
        for k in [k for k in st.snaps if len(k[0]) > dpt]:
            del st.snaps[k]
        if self.rule.relevant is not None:
            self.forget(st, rv)
        # facts about dead temporaries
        for k in [k for k in st.facts if has(k, lambda t: t[0] == "v" and len(t) == 2 and isinstance(t[1], tuple) and len(t[1]) == 3 and t[1][0] == "var" and isinstance(t[1][2], int) and t[1][2] >= dpt)]:
            del st.facts[k]
        if sid is None:
            self.kill(st, objloc) if objloc and objloc[0] == "var" else None
        else:
            x = pf.fn.st[sid]
            if x["k"] == "ctor":
                v = ("obj", p.classes[x["cls"]]["qn"], objloc)
                st.regs[(pf.depth, sid)] = v
                if dest is not None:
                    st.regs[(pf.depth, "ctor", dest)] = None
            else:
                st.regs[(pf.depth, sid)] = rv
        st.trail = (st.trail, "return from %s" % fr.fn.qn.split("st_asio_wrapper::")[-1])
        # continue the caller after the call element
        b = pf.fn.blocks[blk]
        return [(pf, blk, idx + 1, st, None)] if True else []

    def forget(self, st, rv):
        """summarise a finished call: drop what neither the rule nor any live local refers to"""
        rel, p = self.rule.relevant, self.p
        live = set()
        roots = list(st.regs.values()) + [rv]
        for k in list(st.store):
            if k is EPOCH or k == EPOCH:
                continue
            r = self.root(k)
            if r[0] in ("var", "tmp"):
                roots.append(st.store[k])
            elif not (k[0] == "f" and p.decls[k[2]]["n"] in rel):
                del st.store[k]
            else:
                roots.append(st.store[k])
        for v in roots:
            if isinstance(v, tuple):
                for t in subterms(v):
                    if t and t[0] in ("call", "out", "h", "rd", "arg", "param", "v", "pure", "bin", "new"):
                        live.add(t)
        for a in list(st.facts):
            ok = False
            for t in subterms(a):
                if not t:
                    continue
                if t in live or t[0] in ("arg", "param") or (t[0] == "f" and p.decls[t[2]]["n"] in rel) or self.rule.keep(t):
                    ok = True
                    break
            if not ok:
                del st.facts[a]

    # ------------------------------------------------------------------ branching
    def prune_regs(self, fr, st, blk):
        cross = fr.fn.cross()
        d = fr.depth
        for k in [k for k in st.regs if k[0] == d and isinstance(k[1], int) and k[1] not in cross]:
            del st.regs[k]

    def terminate(self, fr, blk, st):
        fn = fr.fn
        b = fn.blocks[blk]
        succ = b["s"]
        if b.get("noret"):
            return []
        live = [s for s in succ if s >= 0]
        if "t" not in b or len(succ) < 2:
            if not live:
                return []
            self.prune_regs(fr, st, blk)
            return [(fr, live[0], 0, st, blk)]
        t = b["t"]
        out = []
        if t == "SwitchStmt":
            cv = self.val(st, fr, b["tc"])
            consts = [fn.blocks[s].get("case") for s in succ if s >= 0 and "case" in fn.blocks[s]]
            for s in succ:
                if s < 0:
                    continue
                ns = st.copy()
                sb = fn.blocks[s]
                if "case" in sb:
                    if not self.assume(ns, ("bin", "==", cv, ("c", sb["case"])), True):
                        continue
                else:
                    ok = True
                    for k in consts:
                        if not self.assume(ns, ("bin", "==", cv, ("c", k)), False):
                            ok = False
                            break
                    if not ok:
                        continue
                ns.trail = (ns.trail, "%s: switch %s" % (fn.where(b["tl"]), sb.get("case", "default")))
                try:
                    for k in [sb["case"]] if "case" in sb else consts:
                        self.fire(ns, Ev("branch", cond=("bin", "==", cv, ("c", k)), taken="case" in sb, frame=fr, line=b["tl"]))
                except Prune:
                    continue
                self.prune_regs(fr, ns, blk)
                out.append((fr, s, 0, ns, blk))
            return out
        if t in ("CXXTryStmt",):
            return [(fr, s, 0, st.copy(), blk) for s in live]
        if "tc" not in b or b["tc"] < 0:
            return [(fr, s, 0, st.copy(), blk) for s in live]
        tc = b["tc"]
        # the operand this block actually tested
        forced = None
        while True:
            x = fn.st[tc]
            if x["k"] == "bin" and x["op"] in ("&&", "||") and st.regs.get((fr.depth, "t", tc)) == "short":
                forced = ("c", 0 if x["op"] == "&&" else 1)  # the whole condition is tested after its operands were joined
                break
            if x["k"] == "pass" and x.get("c"):
                tc2 = x["c"][0]
                if self.leafy(fn, tc2):
                    tc = tc2
                    continue
                break
            if x["k"] == "bin" and x["op"] in ("&&", "||") and t != "BinaryOperatorDone":
                tc = x["c"][1]
                continue
            break
        cond = self.val(st, fr, tc) if forced is None else forced
        if forced is None and fn.st[tc].get("lv") and cond and cond[0] in ("var", "f", "deref", "g", "idx", "tmp"):
            cond = self.load(st, cond, b["tl"], fr)
        for i, s in enumerate(succ[:2]):
            if s < 0:
                continue
            truth = i == 0
            ns = st.copy()
            if not self.assume(ns, cond, truth):
                continue
            if t == "BinaryOperator":
                op = b.get("top")
                short = (op == "&&" and not truth) or (op == "||" and truth)
                ns.regs[(fr.depth, "t", b["tid"])] = "short" if short else "full"
                if short:
                    self.decided(fr, ns, b["tid"], truth)
            elif t == "ConditionalOperator":
                ns.regs[(fr.depth, "t", b["tid"])] = "then" if truth else "else"
            ns.trail = (ns.trail, "%s: %s" % (fn.where(fn.st[tc]["l"]), "true" if truth else "false"))
            ev = Ev("branch", cond=cond, taken=truth, frame=fr, line=fn.st[tc]["l"])
            try:
                self.fire(ns, ev)
            except Prune:
                continue
            self.prune_regs(fr, ns, blk)
            out.append((fr, s, 0, ns, blk))
        return out

    def decided(self, fr, st, sid, v):
        """a short-circuited operand settles the operators around it without their own test being reached"""
        fn = fr.fn
        up = fn.parents()
        while sid in up:
            par = up[sid]
            x = fn.st[par]
            if x["k"] == "un" and x.get("op") == "!":
                v = not v
            elif x["k"] == "bin" and x["op"] in ("&&", "||"):
                if sid == x["c"][0]:
                    if v != (x["op"] == "||"):
                        return
                    st.regs[(fr.depth, "t", par)] = "short"
                else:
                    st.regs[(fr.depth, "t", par)] = "full"
            elif x["k"] == "cond":
                if sid == x["c"][0]:
                    st.regs[(fr.depth, "t", par)] = "then" if v else "else"
                return
            elif x["k"] != "pass":
                return
            sid = par

    def leafy(self, fn, s):
        x = fn.st[s]
        return x["k"] == "pass" or (x["k"] == "bin" and x["op"] in ("&&", "||"))


class Prune(Exception):
    pass
