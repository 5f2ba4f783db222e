"""linear inequalities over the terms of a path (a small relational domain; Fourier-Motzkin elimination decides entailment over the rationals)

A form is {atom: coefficient, 1: constant}; a constraint 'form >= 0'."""
from fractions import Fraction


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
    return {m: c for m, c in r.items() if c}


def const(n):
    return {1: n} if n else {}


def scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def value(a):
    """the constant, if it is one"""
    return a.get(1, 0) if all(m == 1 for m in a) else None


def unsat(cs, limit=4000):
    """do the constraints contradict each other"""
    cs = [dict(c) for c in cs]
    seen = set()

    def norm(c):
        k = max((abs(v) for m, v in c.items() if m != 1), default=None)
        if not k:
            return c
        return {m: Fraction(v) / k for m, v in c.items()}
    cur = []
    for c in cs:
        c = norm(c)
        f = frozenset(c.items())
        if f not in seen:
            seen.add(f)
            cur.append(c)
    while True:
        for c in cur:
            if all(m == 1 for m in c) and c.get(1, 0) < 0:
                return True
        cur = [c for c in cur if any(m != 1 for m in c)]
        if not cur:
            return False
        cnt = {}
        for c in cur:
            for m, v in c.items():
                if m != 1:
                    a = cnt.setdefault(m, [0, 0])
                    a[v > 0] += 1
        x = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - sum(cnt[m]), repr(m)))
        pos = [c for c in cur if c.get(x, 0) > 0]
        neg = [c for c in cur if c.get(x, 0) < 0]
        new, seen = [], set()
        for c in cur:
            if x not in c:
                f = frozenset(c.items())
                if f not in seen:
                    seen.add(f)
                    new.append(c)
        for a in pos:
            for b in neg:
                c = norm(add(scale(a, -b[x]), scale(b, a[x])))
                c.pop(x, None)
                f = frozenset(c.items())
                if f not in seen:
                    seen.add(f)
                    new.append(c)
        if len(new) > limit:
            return False
        cur = new


def related(cs, goal):
    """the constraints connected with the goal through shared atoms"""
    atoms = {m for m in goal if m != 1}
    rest, out, ch = list(cs), [], True
    while ch:
        ch, keep = False, []
        for c in rest:
            if any(m in atoms for m in c if m != 1):
                out.append(c)
                atoms |= {m for m in c if m != 1}
                ch = True
            elif all(m == 1 for m in c):
                out.append(c)
            else:
                keep.append(c)
        rest = keep
    return out


def proves(cs, goal):
    """cs entails goal >= 0 (integers: the negation is goal <= -1)"""
    v = value(goal)
    if v is not None and v >= 0:
        return True
    n = scale(goal, -1)
    n = add(n, const(-1))
    return unsat(related(cs, goal) + [n])


SIZES = ("size", "length", "max_size", "capacity")


class Env:
    """translates the terms of one path and gathers the inequalities its facts give"""

    def __init__(self, p, base=(), atoms=None):
        self.p, self.cs, self.seen = p, list(base), {}
        self.atoms = atoms or (lambda t: None)  # rule-specific meaning of a term
        self.wraps = []                          # (form, term): must be >= 0 or the subtraction wraps

    def strip(self, t):
        while isinstance(t, tuple) and t and (t[0] in ("v", "rd") or t[0] == "deref" and isinstance(t[1], tuple) and t[1][0] in ("pure", "call") and self.name(t[1]) in ("min", "max")):
            t = t[1]
        return t

    @staticmethod
    def name(t):
        return str(t[1]).split("::")[-1] if t and t[0] in ("pure", "call") else None

    @staticmethod
    def args(t):
        return t[2] if t[0] == "pure" else t[4] if len(t) > 4 else ()

    def form(self, t):
        t = self.strip(t)
        if not isinstance(t, tuple) or not t:
            return {("?", repr(t)): 1}
        if t in self.seen:
            return self.seen[t]
        self.seen[t] = {t: 1}  # cycles
        r = self.form0(t)
        self.seen[t] = r
        return r

    def form0(self, t):
        a = self.atoms(t)
        if a is not None:
            return a
        if t[0] == "c" and isinstance(t[1], int):
            return const(t[1])
        if t[0] == "conv":
            return self.form(t[2])
        if t[0] == "un" and t[1] == "-":
            return scale(self.form(t[2]), -1)
        if t[0] == "bin" and t[1] in ("+", "-"):
            a, b = self.form(t[2]), self.form(t[3])
            r = add(a, b, 1 if t[1] == "+" else -1)
            if t[1] == "-":
                self.wraps.append((r, t))
            return r
        if t[0] == "bin" and t[1] == "*":
            a, b = self.form(t[2]), self.form(t[3])
            if value(a) is not None:
                return scale(b, value(a))
            if value(b) is not None:
                return scale(a, value(b))
        if t[0] == "trunc":
            a = self.form(t[2])
            hi = (1 << (t[1] - 1)) - 1
            if proves(self.cs, a) and proves(self.cs, add(const(hi), a, -1)):
                return a
            self.cs.append(add({t: 1}, const(hi + 1)))
            self.cs.append(add(const(hi), {t: 1}, -1))
            return {t: 1}
        if t[0] == "zext" or t[0] == "bin" and t[1] == "&" and t[3][0] == "c" and isinstance(t[3][1], int) and t[3][1] >= 0:
            a = self.form(t[2])
            hi = (1 << t[1]) - 1 if t[0] == "zext" else t[3][1]
            if t[0] == "zext" and proves(self.cs, a) and proves(self.cs, add(const(hi), a, -1)):
                return a
            self.cs += [{t: 1}, add(const(hi), {t: 1}, -1)]
            return {t: 1}
        n = self.name(t)
        if n in ("min", "max"):
            s = -1 if n == "min" else 1
            xs = [self.form(x) for x in self.args(t)]
            for x in xs:
                if all(x is y or proves(self.cs, scale(add(x, y, -1), s)) for y in xs):
                    return x
            for x in self.args(t):
                self.cs.append(add(scale({t: 1}, s), scale(self.form(x), -s)))
            if all(proves(self.cs, self.form(x)) for x in self.args(t)):
                self.cs.append({t: 1})
            return {t: 1}
        if n in SIZES:
            self.cs.append({t: 1})
            return {t: 1}
        if t[0] == "f" and not self.p.ty(self.p.decls[t[2]]["ty"]).get("sg", True):
            self.cs.append({t: 1})
        if t[0] == "idx":
            e = self.elem(t)
            if e is not None:
                self.cs.append(add({t: 1}, const(-e[0])))
                self.cs.append(add(const(e[1]), {t: 1}, -1))
        return {t: 1}

    def elem(self, t):
        if t[1][0] == "f":
            s = self.p.ty(self.p.decls[t[1][2]]["ty"])["s"]
            if "unsigned char" in s:
                return (0, 255)
            if "char" in s:
                return (-128, 127)
        return None

    def assume(self, cond, taken):
        c, v = cond, taken
        while c[0] in ("un", "conv"):
            if c[0] == "un":
                if c[1] != "!":
                    return
                c, v = c[2], not v
            else:
                c = c[2]
        n = self.name(c)
        if n == "empty":
            x = self.args(c)[0] if c[0] == "pure" and self.args(c) else None
            if x is not None:
                f = self.form(("pure", "size", (x,)))
                self.cs.append(add(f, const(-1)) if not v else scale(f, -1))
            return
        if c[0] != "bin" or c[1] not in ("<", "<=", ">", ">=", "==", "!="):
            if c[0] in ("pure", "call", "f", "v", "rd", "bin", "arg", "idx") and not v:
                f = self.form(c)
                self.cs += [f, scale(f, -1)]
            return
        o, a, b = c[1], self.form(c[2]), self.form(c[3])
        if not v:
            o = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[o]
        d = add(a, b, -1)
        if o in (">", ">="):
            self.cs.append(add(d, const(-1)) if o == ">" else d)
        elif o in ("<", "<="):
            d = scale(d, -1)
            self.cs.append(add(d, const(-1)) if o == "<" else d)
        elif o == "==":
            self.cs += [d, scale(d, -1)]
        else:  # != 0 of something not negative
            if proves(self.cs, d):
                self.cs.append(add(d, const(-1)))
            elif proves(self.cs, scale(d, -1)):
                self.cs.append(add(scale(d, -1), const(-1)))

    def ge0(self, f):
        return proves(self.cs, f)

    def eq0(self, f):
        return proves(self.cs, f) and proves(self.cs, scale(f, -1))
