"""Loads the extractor's output and answers questions about the resolved program."""
import json, re


class Fn:
    __slots__ = ("id", "d", "p", "blocks", "st", "entry", "exit", "f", "l", "le", "params", "tries", "_dest", "_cross", "_par",
                 "_loops", "_callees", "_back")

    def __init__(self, p, j):
        self.p = p
        self.id = j["id"]
        self.d = p.decls[j["id"]]
        self.blocks = j.get("b", [])
        self.st = j.get("st", [])
        self.entry = j.get("entry")
        self.exit = j.get("exit")
        self.f, self.l, self.le = j["f"], j["l"], j["le"]
        self.params = j["ps"]
        self.tries = j.get("try", [])
        self._dest = self._par = self._cross = self._loops = self._callees = self._back = None

    @property
    def qn(self):
        return self.d["qn"]

    @property
    def name(self):
        return self.d["n"]

    @property
    def cls(self):
        return self.d.get("cls")

    def where(self, line=None):
        return "%s:%d" % (short(self.f), line or self.l)

    # ---- static facts about the body
    def strip(self, s):
        """skip value-preserving wrappers"""
        while s >= 0:
            x = self.st[s]
            if x["k"] in ("pass",) and x.get("c"):
                s = x["c"][0]
            elif x["k"] == "cast" and x.get("ck") in (
                    "NoOp", "LValueToRValue", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion",
                    "FunctionToPointerDecay", "ArrayToPointerDecay", "BitCast", "BaseToDerived", "UserDefinedConversion"):
                s = x["c"][0]
            else:
                break
        return s

    def dest(self):
        """sid of a constructor expression -> what it initialises"""
        if self._dest is None:
            m = {}

            def put(s, tgt):
                while s >= 0:
                    x = self.st[s]
                    if x["k"] == "ctor":
                        m[s] = tgt
                        return
                    if x["k"] == "pass" or (x["k"] == "cast" and x.get("ck") in ("NoOp", "ConstructorConversion")):
                        s = x["c"][0]
                        continue
                    return
            for x in self.st:
                if x and x["k"] == "decl":
                    for v in x["vs"]:
                        if "i" in v:
                            put(v["i"], ("var", v["d"]))
            for b in self.blocks:
                if not b:
                    continue
                for e in b["e"]:
                    if isinstance(e, dict) and e["k"] == "init":
                        put(e["i"], ("field", e["d"]) if "d" in e else ("base",))
            self._dest = m
        return self._dest

    def parents(self):
        if self._par is None:
            self._par = {}
            for i, x in enumerate(self.st):
                if x and x["k"] in ("pass", "un", "bin", "cond"):
                    for k in x.get("c", ()):
                        self._par.setdefault(k, i)
        return self._par

    def cross(self):
        """sids whose value is needed in a block other than the one computing it"""
        if self._cross is None:
            where, used = {}, set()
            for bi, b in enumerate(self.blocks):
                if not b:
                    continue
                for e in b["e"]:
                    if isinstance(e, int):
                        where[e] = bi
            for bi, b in enumerate(self.blocks):
                if not b:
                    continue
                kids = []
                for e in b["e"]:
                    x = self.st[e] if isinstance(e, int) else None
                    if x is None:
                        kids.append(e.get("i", -1))
                        continue
                    kids += x.get("c", [])
                    if "obj" in x:
                        kids.append(x["obj"])
                    if "callee" in x:
                        kids.append(x["callee"])
                    for v in x.get("vs", []):
                        if "i" in v:
                            kids.append(v["i"])
                    if x["k"] == "new" and "asz" in x:
                        kids.append(x["asz"])
                if "tc" in b:
                    kids.append(b["tc"])
                n = 0
                while n < len(kids):
                    k = kids[n]
                    n += 1
                    if k < 0:
                        continue
                    if k not in where:
                        y = self.st[k]  # evaluated on demand: its operands count
                        if y is not None and n < 400:
                            kids += y.get("c", [])
                    elif where[k] != bi:
                        used.add(k)
            self._cross = used
        return self._cross

    def succs(self, b):
        return [s for s in self.blocks[b]["s"] if s >= 0]

    def back_edges(self):
        """set of (src, dst) with dst on the DFS stack"""
        if self._back is None:
            be, color, order = set(), {}, []
            stack = [(self.entry, iter(self.succs(self.entry)))]
            color[self.entry] = 1
            while stack:
                n, it = stack[-1]
                for s in it:
                    if color.get(s, 0) == 0:
                        color[s] = 1
                        stack.append((s, iter(self.succs(s))))
                        break
                    elif color[s] == 1:
                        be.add((n, s))
                else:
                    color[n] = 2
                    stack.pop()
            self._back = be
        return self._back

    def heads(self):
        return {d for _, d in self.back_edges()}

    def calls(self):
        """all (sid, stmt) that are calls or constructions"""
        return [(i, x) for i, x in enumerate(self.st) if x and x["k"] in ("call", "ctor")]

    def fnrefs(self):
        """functions whose address is taken (bind targets, callbacks)"""
        out = []
        callee_refs = set()
        for i, x in enumerate(self.st):
            if x and x["k"] == "ref" and self.p.decls[x["d"]]["k"] == "fn":
                out.append((i, x["d"]))
        return out


ROOTS = ["/repo/", "/verif/witness/"]


def short(f):
    for r in ROOTS:
        if f.startswith(r):
            return f[len(r):]
    return f


class Program:
    def __init__(self, j, tu):
        self.tu = tu
        self.decls = j["decls"]
        self.types = j["types"]
        self.classes = j["classes"]
        self.fns = {}
        for f in j["fns"]:
            if f.get("nocfg"):
                continue
            fn = Fn(self, f)
            self.fns[fn.id] = fn
        self._qn = {}
        for fn in self.fns.values():
            self._qn.setdefault(fn.qn, []).append(fn)
        self._ov = {}
        self._clsqn = {}
        for c in self.classes:
            self._clsqn.setdefault(c["qn"], []).append(c["id"])
        self._reach = {}

    def by_qn(self, qn):
        return self._qn.get(qn, [])

    def cls_by_qn(self, qn):
        return [c for c in self._clsqn.get(qn, []) if self.classes[c].get("proj")]

    def bases(self, c):
        """all (transitive) bases, nearest first, including c"""
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            todo += self.classes[x].get("b", [])
        return out

    def derives(self, c, qn):
        return any(self.classes[b]["qn"] == qn for b in self.bases(c))

    def overridden(self, m):
        """m and everything it overrides, transitively"""
        if m in self._ov:
            return self._ov[m]
        out = {m}
        for o in self.decls[m].get("ov", []):
            out |= self.overridden(o)
        self._ov[m] = out
        return out

    def final(self, c, m):
        """final overrider of virtual method m in class c (None if unknown)"""
        for b in self.bases(c):
            for x in self.classes[b].get("ms", []):
                if m in self.overridden(x):
                    return x
        return None

    def methods(self, c, name):
        """methods called name visible in class c: nearest class that has any"""
        for b in self.bases(c):
            r = [x for x in self.classes[b].get("ms", []) if self.decls[x]["n"] == name]
            if r:
                return r
        return []

    def fields(self, c):
        out = []
        for b in self.bases(c):
            out += self.classes[b].get("fs", [])
        return out

    def ty(self, t):
        return self.types[t] if t is not None and t >= 0 else {"s": "?"}

    def leaf_classes(self, qn):
        """instantiated project classes derived from qn that nobody in this unit derives from"""
        derived = [c["id"] for c in self.classes if c.get("proj") and self.derives(c["id"], qn)]
        isbase = set()
        for c in self.classes:
            for b in c.get("b", []):
                isbase.add(b)
        return [c for c in derived if c not in isbase]
