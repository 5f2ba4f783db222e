"""Iterator loops over a container, read off a path: one record per iteration, with what the body did with the element."""
from interp import has, subterms

ENDS = ("end", "cend")
BEGINS = ("begin", "cbegin")


def label(ex, st, ev):
    """labels a rule adds to its own to make `iterations` work"""
    depth = len(ev.frame.chain())
    if depth > 3:
        return None
    if ev.kind == "branch":
        t = test(ev.cond)
        if t is not None:
            # two full iterations say everything about the loop; further ones would only grow the path
            if visits(st, t[1], ev.line) >= 3:
                return None
            return ("LT", t[0], t[1], t[2] == ev.taken, ev.line, len(st.rule))
        return None
    last = [l for l in st.rule if l[0] == "LT"]
    if last and visits(st, last[-1][2], last[-1][4]) >= 3 and last[-1][3]:
        return None
    if ev.kind == "call" and ev.d is not None:
        if ev.name in ("operator++", "operator--"):
            v = ev.obj if ev.obj is not None else ev.args[0]
            return ("LI", v, ev.name, ev.line, len(st.rule))
        if ev.name in ("operator*", "operator->"):
            return None
        if any(isinstance(a, tuple) and has(a, lambda t: t[0] == "deref") for a in (ev.obj,) + tuple(ev.args)) or ev.name in ("emplace_back", "push_back", "emplace_front", "push_front"):
            return ("LU", ev.name, ev.obj, tuple(ev.args), ev.res, ev.line, len(st.rule), depth)
    if ev.kind == "write" and has(ev.loc, lambda t: t[0] == "deref"):
        return ("LU", ev.op, ev.loc, (ev.val,), None, ev.line, len(st.rule), depth)
    return None


def prune(ex, st, ev):
    """a third iteration of a loop that is recorded shows nothing the second did not: every later one starts from the same havocked state"""
    if ev.kind != "branch" or len(ev.frame.chain()) > 3:
        return False
    t = test(ev.cond)
    return t is not None and t[2] == ev.taken and visits(st, t[1], ev.line) >= 2


def visits(st, c, line):
    return sum(1 for l in st.rule if l[0] == "LT" and l[2] == c and l[4] == line)


def test(c):
    """(iterator term, container location, polarity that means 'one more element')"""
    pol = True
    while c and c[0] == "un" and c[1] == "!":
        c, pol = c[2], not pol
    a = None
    if c and c[0] == "pure" and c[1] in ("operator!=", "operator==", "operator<") and len(c[2]) == 2:
        a, b = c[2]
        pol = pol if c[1] != "operator==" else not pol
    elif c and c[0] == "bin" and c[1] in ("!=", "==", "<"):
        a, b = c[2], c[3]
        pol = pol if c[1] != "==" else not pol
    if a is None:
        return None
    for x, y in ((a, b), (b, a)):
        if y and y[0] == "pure" and y[1] in ENDS and len(y[2]) == 1:
            return x, base(y[2][0]), pol
    return None


def base(t):
    """location behind a value term"""
    while t and t[0] in ("v", "rd", "conv"):
        t = t[1] if t[0] != "conv" else t[2]
    return t


class Iteration:
    __slots__ = ("c", "x", "uses", "incs", "first", "line", "closed", "next")


def iterations(labels):
    """iterations of every loop over a container found on the path, in order"""
    out, cur, seen = [], [], {}
    for l in labels:
        if l[0] == "LT":
            # a test closes the innermost open iteration over the same container
            for i in range(len(cur) - 1, -1, -1):
                if cur[i].c == l[2]:
                    cur[i].closed = True
                    cur[i].next = l[1]
                    del cur[i:]
                    break
            k = (l[2], l[4])
            seen[k] = seen.get(k, 0) + 1
            if l[3] and seen[k] < 3:
                it = Iteration()
                it.c, it.x, it.uses, it.incs, it.line, it.closed, it.next = l[2], l[1], [], [], l[4], False, None
                it.first = bool(l[1] and l[1][0] == "pure" and l[1][1] in BEGINS and base(l[1][2][0]) == l[2])
                out.append(it)
                cur.append(it)
        elif l[0] == "LI":
            for it in cur:
                it.incs.append((l[1], l[2]))
        elif l[0] == "LU":
            for it in cur:
                it.uses.append(l)
    return out


def elem(it, t):
    """does the term denote the current element of this iteration"""
    return has(t, lambda s: s == ("deref", it.x))


def var_of(x):
    """the iterator variable behind a havocked value"""
    return x[3] if x and x[0] == "h" and len(x) > 3 else None


def stepping(it):
    """None when this iteration moves on by exactly one element, else what is wrong"""
    v = var_of(it.x) or var_of(it.next)
    n = [i for i in it.incs if v is None or i[0] == v]
    if any(i[1] == "operator--" for i in it.incs):
        return "walks backwards"
    if not it.closed:
        return "ends before all elements were seen"
    if v is not None and len(n) != 1:
        return "moves on by %d elements instead of one" % len(n)
    for w in {i[0] for i in it.incs}:
        if sum(1 for i in it.incs if i[0] == w) != 1:
            return "moves a position by more than one element"
    if not it.incs:
        return "does not move on"
    if var_of(it.x) is None and not it.first:
        return "does not begin with the first element"
    return None


def transfers(it, names):
    """uses of the current element by a call named in `names`: (destination object, call label)"""
    out = []
    for u in it.uses:
        if u[1] in names and (elem(it, u[2]) or any(elem(it, a) for a in u[3])):
            o = [u[2]] + list(u[3])
            d = [t for t in o if t is not None and not elem(it, t)]
            out.append((d, u))
    m = min([u[7] for _, u in out] or [0])
    return [x for x in out if x[1][7] == m]
