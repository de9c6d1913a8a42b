"""P21: implicit, opaque and ambiguous parameters. Model: a declaration is a
list of parameters with a type and an attribute, and a return type; its
applications are explicit terms in which an opaque application is a leaf.
All declarations within the bounds, all argument tuples over a small universe
of typed terms, all pairs of applications, and programs that take them apart."""
import itertools
from mc import engine
from mc import scale
from mc.engine import Case
from mc.terms import C, match, subst

c = engine.Check("P21")
DEEP = c.thorough
last = [0, 0, 0]


def part(name):
    c.part(name, 0, 0)
    n = len(c.seen)
    c.parts[name] = dict(states=n - last[0], transitions=c.transitions - last[1], traces=c.traces - last[2])
    last[:] = [n, c.transitions, c.traces]


PRE = """(declare-const U Type)
(declare-const Int Type)
(declare-const Set (-> Type Type))
(declare-const Ix (-> U Type))
(declare-parameterized-const Fam ((T Type :implicit)) (-> T Type))
(declare-const a U)
(declare-const b U)
(declare-const i Int)
(declare-const sa (Set U))
(declare-const si (Set Int))
(declare-const xa (Ix a))
(declare-const xb (Ix b))
(declare-const ya (Fam a))
(declare-const yi (Fam i))
(declare-const u (-> U U))
"""
# programs that take terms apart; the signatures need no particular type
PROG = """(program $arg ((A Type) (B Type) (R Type) (g (-> A B)) (x A) (t R)) :signature (R) A ((($arg (g x)) x)))
(program $fun ((A Type) (B Type) (R Type) (g (-> A B)) (x A) (t R)) :signature (R) (-> A B) ((($fun (g x)) g)))
(program $len ((A Type) (B Type) (R Type) (g (-> A B)) (x A) (t R)) :signature (R) Int ((($len (g x)) (eo::add 1 ($len g))) (($len t) 0)))
(program $sub ((A Type) (B Type) (S Type) (R Type) (g (-> A B)) (y A) (x S) (z S) (t R)) :signature (S S R) R
  ((($sub x z x) z) (($sub x z (g y)) (_ ($sub x z g) ($sub x z y))) (($sub x z t) t)))
"""
ENV = dict(U="Type", Int="Type", Bool="Type", Type="Type", Set=C("->", "Type", "Type"), Ix=C("->", "U", "Type"), Fam=C("->", "?T0", "Type"),
           a="U", b="U", i="Int", sa=C("Set", "U"), si=C("Set", "Int"), xa=C("Ix", "a"), xb=C("Ix", "b"), ya=C("Fam", "a"), yi=C("Fam", "i"),
           u=C("->", "U", "U"))


# ------------------------------------------------------------------ the model
# terms: leaf | ('@', f, x) ordinary application | ('o', f, x) opaque application
def txt(t):
    if isinstance(t, str):
        return t
    if t[0] == "l":  # written as given
        return t[1]
    r = []
    if t[0] == "@":
        while not isinstance(t, str) and t[0] == "@":
            r.append(txt(t[2]))
            t = t[1]
        if isinstance(t, str) or t[2] is not None and t[0] == "as":
            return "(_ %s %s)" % (txt(t), " ".join(reversed(r))) if isinstance(t, str) and t not in OPAQ else "(%s %s)" % (txt(t), " ".join(reversed(r)))
        # head is an opaque operator
        o = []
        while not isinstance(t, str):
            o.append(txt(t[2]))
            t = t[1]
        return "(%s %s)" % (t, " ".join(o[::-1] + r[::-1]))
    if t[0] == "as":
        return "(as %s %s)" % (t[1], ty(t[2]))
    o = []
    while not isinstance(t, str):
        o.append(txt(t[2]))
        t = t[1]
    return "(%s %s)" % (t, " ".join(reversed(o)))


OPAQ = set()


def ty(t):
    """text of a type"""
    if isinstance(t, str):
        return t.lstrip("?")
    if t[1] == "Set" or t[1] == "Ix" or t[1] == "Fam":
        return "(%s %s)" % (t[1], ty(t[2]) if not isinstance(t[2], str) else t[2].lstrip("?"))
    assert t[1][1] == "->", t
    return "(-> %s %s)" % (ty(t[1][2]), ty(t[2]))


def fv(t):
    if isinstance(t, str):
        return {t} if t.startswith("?") else set()
    return fv(t[1]) | fv(t[2])


class Decl:
    """params: [(name, type, attr)]; attr '' | 'i' | 'o'"""

    def __init__(self, name, params, ret, attr=""):
        self.name, self.params, self.ret, self.attr = name, params, ret, attr
        r, flat = ret, []
        while not isinstance(r, str) and not isinstance(r[1], str) and r[1][1] == "->":
            flat.append(r[1][2])
            r = r[2]
        self.range = r
        ex = [p for p in params if p[2] != "i"]
        self.nop = sum(p[2] == "o" for p in ex)
        self.legal = all(p[2] == "o" for p in ex[:self.nop])
        self.entries = []
        used = fv(ret)
        for n, pt, at in reversed(params):
            quoted = "?" + n in used
            if quoted and fv(pt):
                self.legal = False
            if at == "i":
                continue
            used |= fv(pt) | ({"?" + n} if quoted else set())
            self.entries.insert(0, ("quote", "?" + n, pt) if quoted else pt)
        self.amb = bool(fv(r) - set().union(*([fv(x) if not (isinstance(x, tuple) and x[0] == "quote") else {x[1]} for x in self.entries] + [fv(x) for x in flat] + [set()])))
        if self.amb and self.nop or attr and (self.amb or self.nop):
            self.legal = False
        self.ex = ex

    def text(self):
        return "(declare-parameterized-const %s (%s) %s%s)" % (self.name, " ".join("(%s %s%s)" % (n, ty(t), {"": "", "i": " :implicit", "o": " :opaque"}[a]) for n, t, a in self.params), ty(self.ret), self.attr)

    def typ(self, args, ann=None):
        """type of the application to the explicit args, or None"""
        s = {}
        rest = list(self.entries)
        ret = self.ret
        if ann is not None:
            s = match(self.range, ann, s)
            if s is None:
                return None
            rest = [sub_entry(e, s) for e in rest]
            ret = subst(ret, s)
        for x in args:
            if rest:
                e = rest.pop(0)
                if e[0] == "quote":
                    if tyof(x) != e[2]:
                        return None
                    s = {e[1]: x} if e[1].startswith("?") else ({} if x == e[1] else None)
                else:
                    s = match(e, tyof(x), {})
                if s is None:
                    return None
                rest = [sub_entry(e, s) for e in rest]
                ret = subst(ret, s)
            else:
                if isinstance(ret, str) or isinstance(ret[1], str) or ret[1][1] != "->":
                    return None
                s = match(ret[1][2], tyof(x), {})
                if s is None:
                    return None
                ret = subst(ret[2], s)
        return None if rest else ret

    def term(self, args, ann=None):
        t = self.name if ann is None else ("as", self.name, ann)
        for k, x in enumerate(args):
            t = ("o" if k < self.nop else "@", t, x)
        return t


def sub_entry(e, s):
    return ("quote", s.get(e[1], e[1]), e[2]) if e[0] == "quote" else subst(e, s)


def tyof(x):
    return ENV[x] if isinstance(x, str) else None if x[0] != "@" else C("Set", x[2]) and "Type"


# arguments tried for a parameter of each kind of type (good and bad ones)
def cands(pt):
    if pt == "Type":
        return ["U", "Int", "a"]
    if pt == "U":
        return ["a", "b", "i"]
    if pt == "Int":
        return ["i", "a"]
    if isinstance(pt, str):
        return ["a", "i", "sa"]
    return {"Set": ["sa", "si", "a"], "Ix": ["xa", "xb", "ya"], "Fam": ["ya", "yi", "xa"]}.get(pt[1], ["u", "a"])


TYS = lambda names: (["Type", "U"] + ["?" + n for n, t in names if t == "Type"] + [C("Set", "?" + n) for n, t in names if t == "Type"]
                     + [C("Ix", "?" + n) for n, t in names if t == "U"] + [C("Fam", "?" + n) for n, t in names if t not in ("Type",) and not isinstance(t, tuple)])
RETS = lambda names: (["U"] + [t for t in TYS(names) if t not in ("Type", "U")] + [C("->", "U", t) for t in ["U"] + TYS(names)[2:]] + [C("->", "?" + n, "U") for n, t in names if t == "Type"])


def decls(n):
    def go(k, names):
        if k == n:
            yield names
            return
        for t in TYS(names):
            yield from go(k + 1, names + [("xyzw"[k] if t != "Type" else "TSRQ"[k], t)])
    for ps in go(0, []):
        for r in RETS(ps):
            yield ps, r


lines, illegal = [], []
cnt = 0


def req(l, r):
    return "(declare-const %%s (eo::requires %s %s Bool))" % (l, r)


def ok(expr, key):
    lines.append((key, expr))


def mk(pre, body):
    """one declaration with its observations, as a group"""
    global cnt
    cnt += 1
    out = [pre]
    for k, b in enumerate(body):
        out.append(b % ("v%d_%d" % (cnt, k)))
    return "\n".join(out)


def take(t):
    """what the programs see"""
    if not isinstance(t, str) and t[0] == "@":
        return t[1], t[2]
    return None


def length(t):
    return 0 if take(t) is None else 1 + length(t[1])


def substp(x, z, t):
    if t == x:
        return z
    if take(t):
        return ("@", substp(x, z, t[1]), substp(x, z, t[2]))
    return t


def isty(t):
    return t in ("U", "Int", "Type") or isinstance(t, tuple)


def explore(ps, attrs, ret, deep):
    fam = set().union(*(fams(t) for t in [ret] + [t for _, t in ps]))
    if any("?" + n in fam and at == "i" for (n, _), at in zip(ps, attrs)):
        return  # the declared type of an implicit parameter is not enforced: not judged
    d = Decl("f%d" % explore.n, [(n, t, at) for (n, t), at in zip(ps, attrs)], ret)
    explore.n += 1
    c.st(("decl", d.text().split(" ", 2)[2]))
    if not d.legal:
        illegal.append(Case("decl/" + d.text(), PRE + d.text() + "\n", "reject"))
        return
    if d.nop:
        OPAQ.add(d.name)
    body = []
    good = []
    anns = [None]
    if d.amb:
        anns = [C("Set", "U"), C("Set", "Int"), "U", "Int", C("Ix", "a"), C("Fam", "a"), C("Fam", "i")]
        body.append(req("(eo::is_ok (eo::typeof %s))" % d.name, "false"))
    extra = []
    r = ret
    while not isinstance(r, str) and not isinstance(r[1], str):
        extra.append(r[1][2])
        r = r[2]
    cand = [cands(t) for _, t, _ in d.ex]
    for ann in anns:
        tries = list(itertools.product(*cand)) if ann is None or d.typ([], ann) is not None or not d.ex else [tuple(x[0] for x in cand)]
        if d.amb and match(d.range, ann, {}) is None:
            tries = tries[:1]
        for args in tries:
            if any(isty(x) and isinstance(x, str) and ENV.get(x) == "Type" and False for x in args):
                continue
            for more in [()] + ([(x,) for x in cands(extra[0])[:3]] if extra else []):
                xs = args + more
                if not xs and ann is None:
                    continue
                t = d.term(xs, ann)
                T = d.typ(xs, ann)
                c.st((d.text(), t))
                c.tr(len(xs) + 1)
                if T is not None and fv(T):
                    continue  # not all arguments that determine the type are there
                if T is None:
                    body.append(req("(eo::is_ok (eo::typeof %s))" % txt(t), "false"))
                else:
                    body.append(req("(eo::typeof %s)" % txt(t), ty(T)))
                    good.append(t)
    # identity of every pair, matching on every application
    sel = good[:8] if deep else good[:4]
    for k, t in enumerate(sel):
        for s in sel[:k + 1]:
            c.tr()
            body.append(req("(eo::eq %s %s)" % (txt(t), txt(s)), "true" if s == t else "false"))
        w = take(t)
        c.tr(3)
        body.append(req("($arg %s)" % txt(t), txt(w[1])) if w else req("(eo::is_ok ($arg %s))" % txt(t), "false"))
        body.append(req("($fun %s)" % txt(t), txt(w[0])) if w else req("(eo::is_ok ($fun %s))" % txt(t), "false"))
        body.append(req("($len %s)" % txt(t), str(length(t))))
        for x, z in (("a", "b"), ("b", "a")):
            body.append(req("($sub %s %s %s)" % (x, z, txt(t)), txt(substp(x, z, t))))
        # a macro whose parameter stands for one of the arguments
        pos = [k for k, x in enumerate(argsof(t)) if x == "a"]
        for p in pos:
            ar = argsof(t)
            explore.n += 1
            body.append("(define m%d ((h U)) %s); %%s" % (explore.n, txt(rebuild(t, ar[:p] + ["h"] + ar[p + 1:]))))
            body.append(req("(m%d a)" % explore.n, txt(t)))
    # explicit patterns: every mixture of variables and arguments
    if good:
        k = len(argsof(good[0]))
        ann = head(good[0])
        for mask in itertools.product((0, 1), repeat=min(k, 3)):
            mask = mask + (0,) * (k - len(mask))
            g0 = argsof(good[0])
            pat = rebuild(good[0], ["p%d" % q if m else x for q, (m, x) in enumerate(zip(mask, g0))])
            vs = [q for q, m in enumerate(mask) if m]
            for which in vs or [None]:
                explore.n += 1
                nm = "$q%d" % explore.n
                body.append("(program %s (%s (R Type) (w R)) :signature (R) Bool (((%s %s) %s)))" % (
                    nm, " ".join("(P%d Type) (p%d P%d)" % (q, q, q) for q in vs), nm, txt(pat), "true" if which is None else "p%d" % which) + "; %s")
                for t in sel:
                    if len(argsof(t)) != k:
                        continue
                    c.tr()
                    hit = head(t) == ann and all(m or x == y for m, x, y in zip(mask, g0, argsof(t)))
                    body.append(req("(%s %s)" % (nm, txt(t)), "true" if which is None else argsof(t)[which]) if hit else
                                req("(eo::is_ok (%s %s))" % (nm, txt(t)), "false"))
    lines.append(("decl/" + d.text(), mk(d.text(), body)))


def fams(t):
    if isinstance(t, str):
        return set()
    return fv(t[2]) if t[1] == "Fam" else fams(t[1]) | fams(t[2])


explore.n = 0


def argsof(t):
    r = []
    while isinstance(t, tuple) and t[0] in "@o":
        r.append(t[2])
        t = t[1]
    return r[::-1]


def head(t):
    while isinstance(t, tuple) and t[0] in "@o":
        t = t[1]
    return t


def rebuild(t, args):
    if not args:
        return t
    return (t[0], rebuild(t[1], args[:-1]), args[-1])


for n in (0, 1, 2, 3) if not DEEP else (0, 1, 2, 3, 4):
    for ps, ret in decls(n):
        if n == 4 and sum(t == "Type" for _, t in ps) > 2:
            continue
        for attrs in itertools.product("", repeat=0) if n == 0 else itertools.product(("", "i", "o"), repeat=n):
            if n == 3 and not DEEP and (isinstance(ret, tuple) and not isinstance(ret[1], str) and ret[2] != "U"):
                continue
            if n == 4 and (attrs.count("i") == 0 or attrs.count("o") == 0):
                continue
            explore(ps, attrs, ret, DEEP and n < 4)
c.sample(lines[len(lines) // 2][1])
c.positive(PRE + "(declare-consts <numeral> Int)\n" + PROG, lines, chunk=40)
part("declarations")
c.run(illegal)
part("illegal declarations")

# ------------- attributes do not combine with opaque or ambiguous declarations
bad = []
for n in (0, 1, 2):
    for ps, ret in decls(n):
        for attrs in itertools.product(("", "i", "o"), repeat=n):
            d = Decl("f", [(k, t, at) for (k, t), at in zip(ps, attrs)], ret)
            if d.legal and (d.nop or d.amb):
                for at in (" :right-assoc", " :left-assoc", " :right-assoc-nil a", " :left-assoc-nil a", " :chainable u", " :pairwise u", " :binder u"):
                    d.attr = at
                    c.st(("attr", d.text()))
                    c.tr()
                    bad.append(Case("attr/" + d.text(), PRE + d.text() + "\n", "reject"))
c.run(bad)
part("attributes on opaque and ambiguous symbols")

# ----------------------- rules see opaque arguments as part of the symbol
RP = PRE + "(declare-parameterized-const P ((T Type :implicit)) (-> T Bool))\n"
cs = []
for nop, nord in [(0, 2), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (3, 0)]:
    n = nop + nord
    RD = "(declare-parameterized-const f (%s) (-> %s U))\n" % (" ".join("(x%d U :opaque)" % k for k in range(nop)), " ".join(["U"] * nord)) if nord else \
        "(declare-parameterized-const f (%s) U)\n" % " ".join("(x%d U :opaque)" % k for k in range(nop))
    if not nop:
        RD = "(declare-const f (-> U U U))\n"
    uni = list(itertools.product("ab", repeat=n))
    for pat in itertools.product(["x", "y", "a"], repeat=n):
        for cpat in ([tuple(reversed(pat)), tuple("b" for _ in pat)] if n > 1 else [pat, ("b",)]):
            if not set(cpat) & {"x", "y"} <= set(pat):
                continue
            rule = "(declare-rule r ((x U) (y U)) :premises ((P (f %s))) :conclusion (P (f %s)))\n" % (" ".join(pat), " ".join(cpat))
            # generic rule: the last argument is replaced, when there is one
            gen = "(declare-rule g ((h (-> U U)) (x U)) :premises ((P (h x))) :conclusion (P (h b)))\n"
            for args in uni:
                head_ = RP + RD + rule + gen + "(assume h (P (f %s)))\n" % " ".join(args)
                s, okm = {}, True
                for p_, v in zip(pat, args):
                    okm = okm and (s.setdefault(p_, v) == v if p_ in "xy" else p_ == v)
                for res in uni:
                    c.st((nop, nord, pat, cpat, args, res))
                    c.tr(2)
                    good = okm and tuple(s.get(q, q) for q in cpat) == res
                    cs.append(Case("rule/%d/%d/%s/%s/%s/%s" % (nop, nord, pat, cpat, args, res), head_ + "(step s (P (f %s)) :rule r :premises (h))\n" % " ".join(res), "correct" if good else "reject"))
                    if pat == tuple("x" * n):
                        good = nord > 0 and res == args[:-1] + ("b",)
                        cs.append(Case("grule/%d/%d/%s/%s" % (nop, nord, args, res), head_ + "(step s (P (f %s)) :rule g :premises (h))\n" % " ".join(res), "correct" if good else "reject"))
c.run(cs)
part("rules over opaque applications")
# ----------- implicit parameters of macros: not in scope in the body, where
# an outer symbol of the same name is meant
cs = []
for n in (1, 2, 3, 4):
    for kinds in itertools.product("ie", repeat=n):
        names = ["T%d" % k for k in range(n)]
        impl = [k for k in range(n) if kinds[k] == "i"]
        if not impl:
            continue
        expl = [k for k in range(n) if kinds[k] == "e"]
        for tail_ in ([], impl):
            # parameters of types, then (maybe) one of each implicit type
            ps = " ".join("(T%d Type%s)" % (k, " :implicit" if kinds[k] == "i" else "") for k in range(n))
            ps += "".join(" (x%d T%d)" % (k, k) for k in tail_)
            args = ["U" if k % 2 else "Int" for k in expl] + ["a" if k % 2 else "i" for k in tail_]
            for bodyk in range(n):
                for outer in (False, True):
                    for wrap, val in (("%s", "%s"), ("(Set %s)", "(Set %s)"), ("(-> U %s)", "(-> U %s)")):
                        b_ = wrap % ("T%d" % bodyk)
                        pre = PRE + ("(declare-const T%d Type)\n" % bodyk if outer else "")
                        d = "(define m (%s) %s)\n" % (ps, b_)
                        c.st(("macro", kinds, bool(tail_), bodyk, outer, wrap))
                        c.tr(2)
                        key = "macro/%s/%d" % (d, outer)
                        if bodyk in impl:
                            want = val % ("T%d" % bodyk) if outer else None
                        else:
                            want = val % ("U" if bodyk % 2 else "Int")
                        cs.append(Case(key, pre + d, "reject" if want is None else "correct"))
                        if want is not None and args:
                            use = "(declare-const x (eo::requires (m %s) %s Bool))\n" % (" ".join(args), want)
                            cs.append(Case(key + "/use", pre + d + use, "correct"))
c.run(cs)
part("implicit parameters of macros")
c.bounds = ["declarations with up to 3 (thorough: 4) parameters over Type, a base type, a parametric type, two dependent families and the earlier parameters, every assignment of none/implicit/opaque, every return type over them",
            "every tuple of arguments over 13 typed terms and types (two good and one bad kind per parameter), 7 annotations for ambiguous symbols",
            "4 (thorough: 8) applications per declaration compared pairwise, taken apart by 4 programs and by every pattern mixing variables and arguments",
            "rules: 0..3 opaque with 0..2 ordinary arguments, all patterns over two variables and a constant, all instances over two constants"]
c.assumptions = ["partial applications whose type is not determined yet are not judged", "the declared type of an implicit parameter is not enforced by the checker and not judged"]
scale.run(c)
c.finish()
