"""P02: local assumptions. A state machine of proof scopes (stack of scopes,
each with its assumption and the names bound in it) is searched breadth first
over commands; every edge of the search is replayed: a history is accepted iff
the model accepts each of its commands and ends outside of every scope."""
from mc import engine
from mc import scale
from mc.terms import C, T as E, txt

c = engine.Check("P02")
TH = c.thorough
PRE = """(declare-const p Bool)
(declare-const q Bool)
(declare-const not (-> Bool Bool))
(declare-const => (-> Bool Bool Bool))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-rule dup ((F Bool)) :premises (F) :conclusion (not F))
(declare-rule ax () :conclusion q)
(declare-rule intro ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))
(declare-rule intro0 ((F Bool)) :assumption F :conclusion (not F))
(declare-rule introneg ((F Bool)) :assumption (not F) :conclusion F)
(declare-rule intros ((F Bool)) :assumption F :premises (F) :conclusion (not (not F)))
(declare-rule introp () :assumption p :conclusion (=> p p))
(declare-rule introe ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion-explicit (=> F G))
(declare-rule introa ((F Bool) (G Bool)) :assumption F :args (G) :conclusion (and G F))
(declare-rule introl ((F Bool) (G Bool)) :assumption F :premise-list G and :conclusion (=> F G))
(declare-rule intror ((F Bool) (G Bool)) :assumption F :premises (G) :requires ((F G)) :conclusion (=> F G))
"""


PUSH = "#push"


class St:
    """scopes: tuple of (assumption or None, ((name, kind, formula), ...))"""
    __slots__ = ("sc", "n", "cmds")

    def __init__(self, sc=((None, ()),), n=0, cmds=()):
        self.sc, self.n, self.cmds = sc, n, cmds

    def lookup(self, name):
        for _, b in reversed(self.sc):
            for x in reversed(b):
                if x[0] == name:
                    return x
        return None

    def level(self):
        """scopes open, when the innermost one belongs to an assumption"""
        return len(self.sc) - 1 if self.sc[-1][0] != PUSH else 0

    def bind(self, name, kind, f, cmd, sc=None):
        sc = self.sc if sc is None else sc
        a, b = sc[-1]
        return St(sc[:-1] + ((a, b + ((name, kind, f),)),), self.n + 1, self.cmds + (cmd,))

    def key(self):
        return self.sc

    def local_names(self):
        return {x[0] for x in self.sc[-1][1]}


IMP = lambda f, g: C("=>", f, g)
NOT = lambda f: C("not", f)


def claim(s, f):
    return txt(f) if all(writable(s, z) for z in leaves(f)) else ""


def moves(s, full):
    """all commands: (text, next state or None when the model refuses it)"""
    i = s.n
    nm = "n%d" % i
    out = []
    names = ["n%d" % k for k in range(i)]
    fresh = [nm]
    if full and names and len(s.sc) > 1:
        # shadow a name of an outer scope
        fresh += [x for x in names[:2] if x not in s.local_names() and s.lookup(x)]
    fs = ["p", "q"] if full else ["q" if len(s.sc) % 2 else "p"]
    for m in fresh:
        for f in fs:
            t = "(assume %s %s)" % (m, f)
            out.append((t, s.bind(m, "pf", f, t)))
            t = "(assume-push %s %s)" % (m, f)
            out.append((t, s.bind(m, "pf", f, t, s.sc + ((f, ()),))))
        if full:
            f = NOT("p")
            t = "(assume-push %s %s)" % (m, txt(f))
            out.append((t, s.bind(m, "pf", f, t, s.sc + ((f, ()),))))
    t = "(declare-const %s Bool)" % nm
    out.append((t, s.bind(nm, "sym", nm, t)))
    # uses of symbols
    for x in (names if full else names[-1:]):
        b = s.lookup(x)
        t = "(assume %s (not %s))" % (nm, x)
        if full or (b and b[1] == "sym"):
            out.append((t, s.bind(nm, "pf", NOT(x), t) if b and b[1] == "sym" else None))
    # steps and closing steps
    prem = names + (["zz"] if full else [])
    for x in prem:
        b = s.lookup(x)
        pf = b if b and b[1] == "pf" else None
        if not full and pf is None:
            continue
        if pf:
            f = NOT(pf[2])
            t = "(step %s %s :rule dup :premises (%s))" % (nm, claim(s, f), x)
            out.append((t, s.bind(nm, "pf", f, t)))
        else:
            out.append(("(step %s :rule dup :premises (%s))" % (nm, x), None))
        if s.level() == 0:
            if full:
                f = IMP("p", pf[2]) if pf else "p"
                out.append(("(step-pop %s :rule intro :premises (%s))" % (nm, x), None))
            continue
        F = s.sc[-1][0]
        low = s.sc[:-1]
        if pf:
            f = IMP(F, pf[2])
            for m in fresh if x == prem[0] else [nm]:
                t = "(step-pop %s %s :rule intro :premises (%s))" % (m, claim(s, f), x)
                if m != nm and m in {y[0] for y in low[-1][1]}:
                    continue
                out.append((t, s.bind(m, "pf", f, t, low)))
            if full:
                if claim(s, f):
                    t = "(step-pop %s %s :rule introe :premises (%s))" % (nm, txt(f), x)
                    out.append((t, s.bind(nm, "pf", f, t, low)))
                # wrong conclusions: another open assumption, or the other way round
                for a, _ in s.sc[1:-1]:
                    if a != F and a != PUSH:
                        t = "(step-pop %s %s :rule %s :premises (%s))"
                        out.append((t % (nm, txt(IMP(a, pf[2])), "intro", x), None))
                        out.append((t % (nm, txt(IMP(a, pf[2])), "introe", x), None))
                out.append(("(step-pop %s %s :rule intro :premises (%s))" % (nm, txt(pf[2]), x), None))
                f = NOT(NOT(F))
                t = "(step-pop %s %s :rule intros :premises (%s))" % (nm, claim(s, f), x)
                out.append((t, s.bind(nm, "pf", f, t, low) if pf[2] == F else None))
                f = IMP(F, pf[2])
                t = "(step-pop %s %s :rule intror :premises (%s))" % (nm, claim(s, f), x)
                out.append((t, s.bind(nm, "pf", f, t, low) if pf[2] == F else None))
                f = IMP(F, C("and", pf[2], C("and", F, "true")))
                t = "(step-pop %s %s :rule introl :premises (%s %s))" % (nm, claim(s, f), x, names[-1])
                y = s.lookup(names[-1])
                if y and y[1] == "pf":
                    f = IMP(F, C("and", pf[2], C("and", y[2], "true")))
                    t = "(step-pop %s %s :rule introl :premises (%s %s))" % (nm, claim(s, f), x, names[-1])
                    out.append((t, s.bind(nm, "pf", f, t, low)))
                else:
                    out.append(("(step-pop %s :rule introl :premises (%s %s))" % (nm, x, names[-1]), None))
        else:
            out.append(("(step-pop %s :rule intro :premises (%s))" % (nm, x), None))
    if s.level() > 0:
        F = s.sc[-1][0]
        low = s.sc[:-1]
        t = "(step-pop %s %s :rule intro0)" % (nm, txt(NOT(F)))
        out.append((t, s.bind(nm, "pf", NOT(F), t, low)))
        if full:
            t = "(step-pop %s :rule introp)" % nm
            out.append((t, s.bind(nm, "pf", IMP("p", "p"), t, low) if F == "p" else None))
            t = "(step-pop %s :rule introneg)" % nm
            out.append((t, s.bind(nm, "pf", F[2], t, low) if isinstance(F, tuple) else None))
            f = C("and", "q", C("and", F, "true"))
            t = "(step-pop %s %s :rule introa :args (q))" % (nm, txt(f))
            out.append((t, s.bind(nm, "pf", f, t, low)))
            out.append(("(step-pop %s :rule dup :premises (n0))" % nm, None))
            out.append(("(step-pop %s :rule ax)" % nm, None))
            out.append(("(step %s :rule intro0)" % nm, None))
            out.append(("(step %s :rule intro :premises (n0))" % nm, None))
            out.append(("(declare-rule r%d () :conclusion q)" % i, None))
    elif full:
        for r in ("intro0", "introp", "introneg", "ax"):
            out.append(("(step-pop %s :rule %s)" % (nm, r), None))
            if r != "ax":
                out.append(("(step %s :rule %s)" % (nm, r), None))
        out.append(("(step-pop %s :rule dup :premises (n0))" % nm, None))
    if len(s.sc) == 1 or full:
        t = "(push)"
        out.append((t, St(s.sc + ((PUSH, ()),), s.n + 1, s.cmds + (t,))))
    if full:
        t = "(pop)"
        out.append((t, St(s.sc[:-1], s.n + 1, s.cmds + (t,)) if s.sc[-1][0] == PUSH else None))
        if s.sc[-1][0] == PUSH:
            out.append(("(declare-rule r%d () :conclusion q)" % i, None))
        t = "(step %s q :rule ax)" % nm
        out.append((t, s.bind(nm, "pf", "q", t)))
    return out


def closing(s):
    """closes every open scope, claiming the innermost assumption each time"""
    r = []
    sc = s.sc
    k = 0
    while len(sc) > 1:
        if sc[-1][0] == PUSH:
            r.append("(pop)")
        else:
            r.append("(step-pop z%d %s :rule intro0)" % (k, txt(NOT(sc[-1][0]))))
        sc = sc[:-1]
        k += 1
    return r


accepted, cases = [], []
nprobe = 0
done = set()


def leaves(f):
    return [f] if isinstance(f, str) else leaves(f[1]) + leaves(f[2])


def writable(s, z):
    """a formula may mention a symbol whose scope was closed (its name is gone)"""
    b = s.lookup(z) if z[0] == "n" and z != "not" else None
    return z[0] != "n" or z == "not" or (b is not None and b[1] == "sym")


def probe(s):
    """a final line that pins the formula of every name in scope, and its
    closing; plus one history per name that must not be visible any more"""
    r = []
    for a, b in s.sc:
        for (x, k, f) in b:
            y = s.lookup(x)
            if k == "pf" and y[2] == f and all(writable(s, z) for z in leaves(f)):
                r.append("(step pr_%s_%d %s :rule dup :premises (%s))" % (x, len(r), txt(NOT(f)), x))
    return r


def search(depth, fullsteps, name):
    """fullsteps: number of final commands taken from the full alphabet"""
    front = [St()]
    st = set()
    for d in range(depth):
        nxt = []
        full = d >= depth - fullsteps
        for s in front:
            for t, n in moves(s, full):
                c.tr()
                hist = s.cmds + (t,)
                if hist in done:
                    if n is not None:
                        nxt.append(n)
                    continue
                done.add(hist)
                if n is None:
                    cases.append(engine.Case(" ".join(hist), PRE + "\n".join(hist) + "\n", "reject"))
                    if len(cases) % 3001 == 9:
                        c.sample("REJECT: " + " ".join(hist))
                else:
                    c.st(n.key())
                    nxt.append(n)
                    if full or d == depth - 1:
                        tail = probe(n) + closing(n)
                        accepted.append((" ".join(hist), PRE + "\n".join(hist + tuple(tail)) + "\n"))
                        if len(accepted) % 3001 == 9:
                            c.sample(" ".join(hist + tuple(tail)))
                        if any(a not in (None, PUSH) for a, _ in n.sc) and d == depth - 1:
                            # ends inside a scope: refused
                            cases.append(engine.Case("unclosed: " + " ".join(hist), PRE + "\n".join(hist) + "\n", "reject"))
                        if len(s.sc) > 1 and d < 3:
                            # everything is gone after a reset
                            h = "\n".join(hist + ("(reset)",))
                            accepted.append((" ".join(hist) + " (reset)", PRE + h + "\n"))
                            for x in {b[0] for _, bs in n.sc for b in bs}:
                                cases.append(engine.Case(" ".join(hist) + " (reset) use " + x,
                                                         PRE + h + "\n(step u :rule dup :premises (%s))\n" % x, "reject"))
        front = nxt
    c.parts[name] = dict(depth=depth, full_alphabet_commands=fullsteps, histories=len(done))


search(3, 3, "full alphabet")
search(6 if TH else 5, 1, "reduced prefix, full last command")
search(5 if TH else 4, 2, "reduced prefix, full last two commands")
# deep nesting: n scopes opened, closed in order, with the formulas checked
for n in (8, 16, 33, 64, 100):
    f = ["p" if (k * k + k // 3) % 2 else "q" for k in range(n)]
    h = ["(assume-push d%d %s)" % (k, f[k]) for k in range(n)]
    g = f[-1]
    prev = "d%d" % (n - 1)
    for k in reversed(range(n)):
        g = IMP(f[k], g)
        h.append("(step-pop e%d %s :rule intro :premises (%s))" % (k, txt(g), prev))
        prev = "e%d" % k
    accepted.append(("nest%d" % n, PRE + "\n".join(h) + "\n"))
    cases.append(engine.Case("nest%d-one-missing" % n, PRE + "\n".join(h[:-1]) + "\n", "reject"))
    cases.append(engine.Case("nest%d-one-extra" % n, PRE + "\n".join(h) + "\n(step-pop e :rule intro0)\n", "reject"))
    for k in (0, n // 2, n - 1):
        cases.append(engine.Case("nest%d-after-close-d%d" % (n, k),
                                 PRE + "\n".join(h + ["(step u :rule dup :premises (d%d))" % k]) + "\n", "reject"))
        if k:
            cases.append(engine.Case("nest%d-after-close-e%d" % (n, k),
                                     PRE + "\n".join(h + ["(step u :rule dup :premises (e%d))" % k]) + "\n", "reject"))
c.bounds.append("all histories over the full alphabet of length 3; all of length %d with the last command, and of length %d with the last two commands, from the full alphabet; nesting up to 100 by family"
                % ((6, 5) if TH else (5, 4)))
# the histories in which the verdict must be 'correct'
c.run([engine.Case(k, t, "correct") for k, t in accepted])
c.run(cases)
scale.run(c)
c.finish()
