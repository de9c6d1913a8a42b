"""Explicit terms of the reference models: a leaf is its text, an application
is the curried pair ('@', head, arg). Patterns are terms with leaves '?x'."""
import sys
sys.setrecursionlimit(100000)


def C(h, *args):
    for a in args:
        h = ("@", h, a)
    return h


def txt(t):
    """unambiguous text: only explicit `_` applications, heads flattened"""
    if isinstance(t, str):
        return t
    args = []
    while isinstance(t, tuple):
        args.append(txt(t[2]))
        t = t[1]
    return "(_ %s %s)" % (t, " ".join(reversed(args)))


def rlist(op, nil, *xs):
    r = nil
    for x in reversed(xs):
        r = C(op, x, r)
    return r


def match(p, t, s):
    """first order matching; returns the extended substitution or None"""
    if isinstance(p, str):
        if p.startswith("?"):
            if p in s:
                return s if s[p] == t else None
            s = dict(s)
            s[p] = t
            return s
        return s if p == t else None
    if not isinstance(t, tuple):
        return None
    s = match(p[1], t[1], s)
    return None if s is None else match(p[2], t[2], s)


def subst(p, s):
    if isinstance(p, str):
        return s.get(p, p)
    return ("@", subst(p[1], s), subst(p[2], s))


def matchall(ps, ts):
    if len(ps) != len(ts):
        return None
    s = {}
    for p, t in zip(ps, ts):
        s = match(p, t, s)
        if s is None:
            return None
    return s


def parse(text):
    """s-expression reader (test helper): nested lists of tokens"""
    toks = text.replace("(", " ( ").replace(")", " ) ").split()
    pos = 0

    def rd():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t != "(":
            return t
        r = []
        while toks[pos] != ")":
            r.append(rd())
        pos += 1
        return r
    out = []
    while pos < len(toks):
        out.append(rd())
    return out


def T(text):
    """reads explicit text: every list is a curried application"""
    def go(x):
        return x if isinstance(x, str) else C(*[go(y) for y in x])
    return go(parse(text)[0])
