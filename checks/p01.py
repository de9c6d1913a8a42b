"""P01: rule application. Every rule of a catalogue covering all rule forms is
applied to every tuple of arguments and of premises from a fixed universe (up
to one more than its arity), without and with every claimed conclusion of a
universe; the model is first order matching + requirement evaluation."""
import itertools
from mc import engine
from mc import scale
from mc.terms import C, T as E, txt, rlist, match, subst, matchall

c = engine.Check("P01")
TH = c.thorough

PRE = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const a Int)
(declare-const b Int)
(declare-const f (-> Int Int))
(declare-const g (-> Int Int Int))
(declare-const p Bool)
(declare-const q Bool)
(declare-const not (-> Bool Bool))
(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const lor (-> Bool Bool Bool) :left-assoc-nil false)
(declare-const sor (-> Bool Bool Bool) :right-assoc-non-singleton-nil false)
(declare-const => (-> Bool Bool Bool) :right-assoc)
(program $flip ((F Bool) (x Int) (y Int)) :signature (Bool) Bool
  ((($flip (not F)) F) (($flip (= x y)) (= y x)) (($flip true) false)))
(program $inl ((F Bool) (G Bool :list)) :signature (Bool Bool) Bool
  ((($inl F false) false) (($inl F (or F G)) true) (($inl F (or F G)) false)))
"""


class Rule:
    """args/prems/concl are patterns; reqs and out compute on substitutions"""
    def __init__(self, name, decl, args=(), prems=(), plist=None, explicit=None, out=None, reqs=lambda s: True):
        self.name, self.decl = name, decl
        self.args, self.prems = [E(x) for x in args], [E(x) for x in prems]
        self.plist, self.explicit = plist, E(explicit) if explicit else None
        self.out = (lambda s, t=E(out): subst(t, s)) if isinstance(out, str) else out
        self.reqs = reqs

    def apply(self, args, prems, claim):
        """-> conclusion or None"""
        pats, vals = list(self.args), list(args)
        if len(pats) != len(vals):
            return None
        if self.explicit is not None:
            if claim is None:
                return None
            pats.append(self.explicit)
            vals.append(claim)
        if self.plist:
            prems = [combine(self.plist, prems)]
            if prems[0] is None:
                return None
        if len(prems) != len(self.prems):
            return None
        s = matchall(pats + self.prems, vals + list(prems))
        if s is None or not self.reqs(s):
            return None
        r = claim if self.explicit is not None else self.out(s)
        if r == "SKIP":  # an argument whose type differs from the parameter's: not specified
            return r
        if r is None or not is_bool(r):
            return None
        return r


NIL = {"or": "false", "and": "true", "lor": "false", "sor": "false"}


def combine(op, xs):
    if op == "=>":
        if len(xs) < 2:
            return None
        r = xs[-1]
        for x in reversed(xs[:-1]):
            r = C(op, x, r)
        return r
    if op == "lor":
        r = "false"
        for x in xs:
            r = C(op, r, x)
        return r
    if op == "sor" and len(xs) == 1:
        return xs[0]
    return rlist(op, NIL[op], *xs)


BOOLS = {"p", "q", "true", "false"}
INTS = {"a", "b", "0", "1", "-1", "2"}


def ty(t):
    if isinstance(t, str):
        return "B" if t in BOOLS else "I" if t in INTS else {
            "f": ("I", "I"), "g": ("I", ("I", "I")), "not": ("B", "B"), "or": ("B", ("B", "B")), "and": ("B", ("B", "B")),
            "lor": ("B", ("B", "B")), "sor": ("B", ("B", "B")), "=>": ("B", ("B", "B"))}.get(t)
    if isinstance(t[1], tuple) and t[1][1] == "=":
        x, y = ty(t[1][2]), ty(t[2])
        return "B" if x is not None and x == y else None
    if t[1] == "=":
        x = ty(t[2])
        return (x, "B") if x else None
    h = ty(t[1])
    if not isinstance(h, tuple) or h[0] != ty(t[2]):
        return None
    return h[1]


def is_bool(t):
    return ty(t) == "B"


def neg(t):
    return {"0": "0", "1": "-1", "-1": "1"}.get(t)


def elems(op, t):
    r = []
    while isinstance(t, tuple) and isinstance(t[1], tuple) and t[1][1] == op:
        r.append(t[1][2])
        t = t[2]
    return r if t == NIL[op] else None


def flip(t):
    if isinstance(t, tuple):
        if t[1] == "not":
            return t[2]
        m = match(E("(= ?x ?y)"), t, {})
        if m is not None:
            return C("=", m["?y"], m["?x"])
    return "false" if t == "true" else None


def ite(s):
    return {"true": "p", "false": "q"}.get(s["?x"])


def nth(s):
    L = elems("and", s["?F"])
    i = s["?i"]
    if L is None or i not in ("0", "1", "2"):
        return None
    return L[int(i)] if int(i) < len(L) else None


RULES = [
    Rule("ax", "() :conclusion p", out="p"),
    Rule("ax1", "() :premises () :args () :conclusion (= a b)", out="(= a b)"),
    Rule("axr", "() :requires ((true true)) :conclusion p", out="p") if False else
    Rule("ax2", "((x Int)) :args (x) :conclusion p", args=["?x"], out=lambda s: "p" if ty(s["?x"]) == "I" else "SKIP"),
    Rule("refl", "((T Type) (t T)) :args (t) :conclusion (= t t)", args=["?t"], out="(= ?t ?t)"),
    Rule("symm", "((T Type) (t T) (s T)) :premises ((= t s)) :conclusion (= s t)", prems=["(= ?t ?s)"], out="(= ?s ?t)"),
    Rule("trans", "((T Type) (t T) (s T) (r T)) :premises ((= t s) (= s r)) :conclusion (= t r)",
         prems=["(= ?t ?s)", "(= ?s ?r)"], out="(= ?t ?r)"),
    Rule("cong", "((T Type) (U Type) (h (-> T U)) (t T) (s T)) :premises ((= t s)) :args (h) :conclusion (= (h t) (h s))",
         args=["?h"], prems=["(= ?t ?s)"], out="(= (?h ?t) (?h ?s))"),
    Rule("contra", "((F Bool)) :premises (F (not F)) :conclusion false", prems=["?F", "(not ?F)"], out="false"),
    Rule("contra2", "((F Bool)) :premises ((not F) F) :args (F) :conclusion false", args=["?F"], prems=["(not ?F)", "?F"], out="false"),
    Rule("notnot", "((F Bool)) :premises ((not (not F))) :conclusion F", prems=["(not (not ?F))"], out="?F"),
    Rule("mp", "((F Bool) (G Bool)) :premises (F (or (not F) G)) :conclusion G",
         prems=["?F", "(or (not ?F) (or ?G false))"], out="?G"),
    Rule("weak", "((F Bool) (G Bool)) :premises (F) :args (G) :conclusion (or F G)", args=["?G"], prems=["?F"],
         out="(or ?F (or ?G false))"),
    Rule("andi", "((F Bool)) :premise-list F and :conclusion F", plist="and", prems=["?F"], out="?F"),
    Rule("ori", "((F Bool :list) (G Bool)) :premise-list F or :args (G) :conclusion (or G F)", plist="or", args=["?G"],
         prems=["?F"], out="(or ?G ?F)"),
    Rule("lori", "((F Bool)) :premise-list F lor :conclusion F", plist="lor", prems=["?F"], out="?F"),
    Rule("sori", "((F Bool)) :premise-list F sor :conclusion (not F)", plist="sor", prems=["?F"], out="(not ?F)"),
    Rule("impi", "((F Bool) (G Bool)) :premise-list (=> F G) => :conclusion G", plist="=>", prems=["(=> ?F ?G)"], out="?G"),
    Rule("andp", "((F Bool) (G Bool :list)) :premise-list (and F G) and :args (F) :conclusion (and F F)", plist="and", args=["?F"],
         prems=["(and ?F ?G)"], out="(and ?F (and ?F true))"),
    Rule("ande", "((F Bool) (i Int)) :premises (F) :args (i) :conclusion (eo::list_nth and F i)", args=["?i"], prems=["?F"], out=nth),
    Rule("reqeq", "((x Int) (y Int)) :args (x y) :requires ((x y)) :conclusion (= x y)", args=["?x", "?y"],
         reqs=lambda s: s["?x"] == s["?y"], out="(= ?x ?y)"),
    Rule("reqneg", "((x Int) (y Int)) :args (x y) :requires (((eo::neg x) y)) :conclusion (= x y)", args=["?x", "?y"],
         reqs=lambda s: neg(s["?x"]) is not None and neg(s["?x"]) == s["?y"], out="(= ?x ?y)"),
    Rule("req2", "((x Int) (y Int)) :args (x y) :requires (((eo::neg x) y) ((eo::is_neg x) true)) :conclusion (= x y)",
         args=["?x", "?y"], reqs=lambda s: s["?x"] == "-1" and s["?y"] == "1", out="(= ?x ?y)"),
    Rule("req3", "((x Int) (y Int)) :args (x y) :requires (((eo::is_neg x) true) ((eo::neg x) y)) :conclusion (= x y)",
         args=["?x", "?y"], reqs=lambda s: s["?x"] == "-1" and s["?y"] == "1", out="(= ?x ?y)"),
    Rule("reqst", "((x Int) (y Int)) :args (x y) :requires (((eo::neg x) (eo::neg y))) :conclusion (= x y)", args=["?x", "?y"],
         reqs=lambda s: neg(s["?x"]) is not None and s["?x"] == s["?y"], out="(= ?x ?y)"),
    Rule("reqss", "((x Int) (y Int)) :args (x y) :requires (((eo::zdiv x y) (eo::zdiv x y))) :conclusion (= x y)", args=["?x", "?y"],
         reqs=lambda s: neg(s["?x"]) is not None and neg(s["?y"]) is not None and s["?y"] != "0", out="(= ?x ?y)"),
    Rule("reqsf", "((F Bool) (G Bool)) :premises (F) :args (G) :requires ((G G) (($flip F) ($flip F))) :conclusion G", prems=["?F"], args=["?G"],
         reqs=lambda s: flip(s["?F"]) is not None, out="?G"),
    Rule("reqin", "((F Bool) (G Bool)) :premises (G) :args (F) :requires ((($inl F G) true)) :conclusion F", args=["?F"], prems=["?G"],
         reqs=lambda s: elems("or", s["?G"]) is not None and s["?F"] in elems("or", s["?G"])[:1] or "SKIP" if False else
         isinstance(s["?G"], tuple) and match(E("(or ?X ?Y)"), s["?G"], {}) is not None and match(E("(or ?X ?Y)"), s["?G"], {})["?X"] == s["?F"],
         out="?F"),
    Rule("same", "((x Int)) :args (x x) :conclusion (= x x)", args=["?x", "?x"], out="(= ?x ?x)"),
    Rule("fx", "((x Int)) :args ((f x) x) :conclusion (= x (f x))", args=["(f ?x)", "?x"], out="(= ?x (f ?x))"),
    Rule("xfx", "((x Int)) :args (x (f x)) :conclusion (= x (f x))", args=["?x", "(f ?x)"], out="(= ?x (f ?x))"),
    Rule("gxx", "((x Int)) :args ((g x x)) :conclusion (= x x)", args=["(g ?x ?x)"], out="(= ?x ?x)"),
    Rule("hx", "((h (-> Int Int)) (x Int)) :args ((h x)) :conclusion (= (h x) (h x))", args=["(?h ?x)"], out="(= (?h ?x) (?h ?x))"),
    Rule("ca", "() :args (a) :conclusion (= a a)", args=["a"], out="(= a a)"),
    Rule("c0", "() :args (0 p) :conclusion p", args=["0", "p"], out="p"),
    Rule("prem0", "() :premises (p) :conclusion q", prems=["p"], out="q"),
    Rule("premor", "() :premises ((or p q) p) :conclusion q", prems=["(or p (or q false))", "p"], out="q"),
    Rule("noneed", "((F Bool) (G Bool)) :premises (F G) :conclusion F", prems=["?F", "?G"], out="?F"),
    Rule("twice", "((F Bool)) :premises (F F) :conclusion (not (not F))", prems=["?F", "?F"], out="(not (not ?F))"),
    Rule("three", "((F Bool) (G Bool) (H Bool)) :premises (F (not G) H) :conclusion (and F G H)", prems=["?F", "(not ?G)", "?H"],
         out="(and ?F (and ?G (and ?H true)))"),
    Rule("split", "((F Bool)) :conclusion-explicit (or F (not F))", explicit="(or ?F (or (not ?F) false))"),
    Rule("exall", "((F Bool)) :conclusion-explicit F", explicit="?F"),
    Rule("weake", "((F Bool) (G Bool :list)) :premises (F) :conclusion-explicit (or F G)", prems=["?F"], explicit="(or ?F ?G)"),
    Rule("argse", "((x Int) (y Int)) :args (x y) :conclusion-explicit (= x y)", args=["?x", "?y"], explicit="(= ?x ?y)"),
    Rule("reqe", "((F Bool) (G Bool)) :premises (F) :requires ((($flip F) G)) :conclusion-explicit G", prems=["?F"], explicit="?G",
         reqs=lambda s: flip(s["?F"]) is not None and flip(s["?F"]) == s["?G"]),
    Rule("liste", "((F Bool)) :premise-list F and :conclusion-explicit F", plist="and", prems=["?F"], explicit="?F"),
    Rule("listae", "((F Bool) (G Bool)) :premise-list F or :args (G) :conclusion-explicit (= F G)", plist="or", args=["?G"], prems=["?F"],
         explicit="(= ?F ?G)"),
    Rule("ite", "((x Bool)) :args (x) :conclusion (eo::ite x p q)", args=["?x"], out=ite),
    Rule("iteq", "((x Bool) (y Bool)) :args (x y) :conclusion (eo::ite (eo::eq x y) (= x y) (not y))", args=["?x", "?y"],
         out=lambda s: C("=", s["?x"], s["?y"]) if s["?x"] == s["?y"] else C("not", s["?y"])),
    Rule("any", "((T Type) (x T)) :args (x) :conclusion x", args=["?x"], out="?x"),
    Rule("flip", "((F Bool)) :premises (F) :conclusion ($flip F)", prems=["?F"], out=lambda s: flip(s["?F"])),
    Rule("flipa", "((F Bool)) :args (F) :conclusion (not ($flip F))", args=["?F"],
         out=lambda s: None if flip(s["?F"]) is None else C("not", flip(s["?F"]))),
    Rule("creq", "((F Bool) (G Bool)) :premises (F) :args (G) :conclusion (eo::requires F G (not F))", args=["?G"], prems=["?F"],
         out=lambda s: C("not", s["?F"]) if s["?F"] == s["?G"] else None),
    Rule("pat", "((F Bool) (G Bool)) :premises ((= F G) F) :args () :conclusion G", prems=["(= ?F ?G)", "?F"], out="?G"),
]
for r in RULES:
    PRE += "(declare-rule %s %s)\n" % (r.name, r.decl)
PRE += "(declare-rule chk ((F Bool)) :premises (F) :args (F) :conclusion F)\n"

# proven formulas available as premises
PHI = ["p", "q", "(not p)", "(not (not p))", "(= a b)", "(= b a)", "(= b 0)", "(= p q)", "(or p (or q false))",
       "(or (not p) (or q false))", "(or p false)", "(and p (and q true))", "true", "false", "(= (f a) (f b))"]
PHI = [E(x) for x in PHI]
for i, x in enumerate(PHI):
    PRE += "(assume h%d %s)\n" % (i, txt(x))
ARG = [E(x) for x in ["a", "b", "p", "q", "0", "1", "-1", "(f a)", "(g a a)", "(g a b)", "f", "(g a)", "true", "false", "(not p)", "not",
                      "(or p (or q false))", "(= a b)"]]
SMALLPHI = [0, 2, 3, 4, 5, 8, 9]
SMALLARG = [E(x) for x in ["a", "p", "1", "(f a)", "true", "f"]]
if TH:
    SMALLPHI = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12]
    SMALLARG = [E(x) for x in ["a", "b", "p", "1", "-1", "(f a)", "true", "f", "(not p)"]]
CLAIMS = [E(x) for x in ["p", "q", "false", "true", "(not p)", "(= a b)", "(= a a)", "(= b a)", "(or p (or q false))", "(or p false)",
                         "(or p (or (not p) false))", "(or p (not p))", "(and p true)", "(and p (and q true))", "(= true a)" if False else "(= p p)",
                         "(or q (or p false))", "(= (or p false) q)", "a", "(lor false p)"]]
lines, rejects = [], []
seen = set()


def step(r, args, prems, claim):
    s = "(step s%%d %s:rule %s" % (txt(claim) + " " if claim is not None else "", r.name)
    if prems:
        s += " :premises (%s)" % " ".join("h%d" % i for i in prems)
    if args:
        s += " :args (%s)" % " ".join(map(txt, args))
    return s + ")"


def case(r, args, prems, claim):
    k = (r.name, tuple(args), tuple(prems), claim)
    if k in seen:
        return
    seen.add(k)
    if claim is not None and not is_bool(claim) and claim != "a":
        return
    out = r.apply(list(args), [PHI[i] for i in prems], claim)
    if out == "SKIP":
        return
    c.tr()
    c.st((r.name, tuple(args), tuple(prems)))
    key = "%s args=(%s) premises=(%s) claim=%s" % (r.name, " ".join(map(txt, args)), " ".join(txt(PHI[i]) for i in prems),
                                                  txt(claim) if claim is not None else "-")
    n = len(lines)
    if out is not None and (claim is None or claim == out) and claim != "a":
        t = step(r, args, prems, claim) % n
        lines.append((key, t + "\n(step t%d %s :rule chk :premises (s%d) :args (%s))" % (n, txt(out), n, txt(out))))
        if n % 997 == 3:
            c.sample(t)
    else:
        rejects.append(engine.Case(key, PRE + step(r, args, prems, claim) % 0 + "\n", "reject"))
        if len(rejects) % 4999 == 3:
            c.sample("REJECT " + step(r, args, prems, claim) % 0)
    return out


def tuples(vals, small, n, exact):
    """all tuples of the exact arity, and smaller / larger ones over few values"""
    if exact == n:
        return itertools.product(vals if n <= 2 else small + vals[3:6], repeat=n)
    return itertools.product(small[:3] if n > 1 else small, repeat=n)


for r in RULES:
    na, np = len(r.args), len(r.prems)
    for ka in range(0, na + 2):
        for at in tuples(ARG, SMALLARG, ka, na):
            nps = range(0, 4) if r.plist else range(0, np + 2)
            for kp in nps:
                ph = list(range(len(PHI)))
                if r.plist:
                    pt = itertools.product(ph if kp <= 2 and na == 0 else SMALLPHI, repeat=kp)
                    if ka != na and kp > 1 or (na and kp > 2):
                        continue
                elif ka != na and kp != np:
                    continue
                else:
                    big = ph if (na <= 1 and kp <= 2) else SMALLPHI
                    pt = itertools.product(big if kp == np else SMALLPHI[:4], repeat=kp)
                for pr in pt:
                    out = case(r, at, pr, None)
                    if out is not None:
                        case(r, at, pr, out)
                    if ka == na and (kp == np or r.plist):
                        # claims: all when the premises come from the small set
                        if all(i in SMALLPHI for i in pr) and (na <= 1 and kp <= 1 or all(x in SMALLARG for x in at)):
                            for cl in CLAIMS:
                                case(r, at, pr, cl)
                    if r.explicit is not None:
                        s = matchall(r.args + r.prems, list(at) + ([combine(r.plist, [PHI[i] for i in pr])] if r.plist else [PHI[i] for i in pr]))
                        if s is not None:
                            for extra in ("p", "q", "a", "false"):
                                cl = subst(r.explicit, s)
                                cl = subst(cl, {"?F": extra, "?G": extra, "?x": extra, "?y": extra})
                                if is_bool(cl):
                                    case(r, at, pr, cl)
# the premise names: not proofs, not declared, rule names, order of fields
for i, (key, t, ok) in enumerate([
        ("premise is a term", "(step s (not (not p)) :rule twice :premises (p p))", 0),
        ("premise is a formula", "(step s q :rule noneed :premises (q q))", 0),
        ("list premise is a term", "(step s :rule andi :premises (p))", 0),
        ("list premise is a rule", "(step s :rule andi :premises (ax))", 0),
        ("premise is a rule", "(step s :rule twice :premises (ax ax))", 0),
        ("premise undeclared", "(step s :rule twice :premises (h0 zz))", 0),
        ("step's own name", "(step s :rule twice :premises (s s))", 0),
        ("later step", "(step s :rule twice :premises (t t))\n(step t :rule ax)", 0),
        ("rule undeclared", "(step s p :rule nope)", 0),
        ("rule is a program", "(step s (not p) :rule $flip :args ((not (not p))))", 0),
        ("rule is a constant", "(step s p :rule p)", 0),
        ("rule is a function", "(step s (not p) :rule not :args (p))", 0),
        ("rule is a proof", "(step s p :rule h0)", 0),
        ("no rule", "(step s p)", 0),
        ("rule missing name", "(step s p :rule)", 0),
        ("nullary with args", "(step s p :rule ax :args (p))", 0),
        ("nullary with premises", "(step s p :rule ax :premises (h0))", 0),
        ("nullary with both", "(step s p :rule ax :premises (h0) :args (a))", 0),
        ("nullary empty lists", "(step s p :rule ax :premises () :args ())", 1),
        ("nullary args empty", "(step s p :rule ax :args ())", 1),
        ("args before premises", "(step s :rule weak :args (q) :premises (h0))", 0),
        ("twice the premises", "(step s :rule twice :premises (h0 h0) :premises (h0 h0))", 0),
        ("as formula", "(assume s h0)", 0),
        ("not a proof", "(step s (not h0) :rule exall)", 0),
        ("non formula claim", "(step s a :rule exall)", 0),
        ("assume non formula", "(assume s a)", 0),
        ("assume function", "(assume s not)", 0),
        ("assume ill-typed", "(assume s (not a))", 0),
        ("explicit without claim", "(step s :rule exall)", 0),
        ("stuck arg", "(step s :rule reqeq :args ((eo::neg a) (eo::neg a)))", 0),
        ("stuck arg dropped", "(step s :rule any :args ((eo::neg p)))", 0),
        ("evaluated arg", "(step s (= 3 3) :rule reqeq :args ((eo::add 1 2) 3))", 1),
        ("evaluated claim", "(step s (= (eo::add 1 2) 3) :rule reqeq :args (3 3))", 1),
        ("stuck claim", "(step s (= (eo::neg a) a) :rule exall)", 0)]):
    c.tr()
    c.st(key)
    rejects.append(engine.Case(key, PRE + t + "\n", "correct" if ok else "reject"))
# one step feeding another: every pair of rule applications, the result used
# (and one that is not the result refused)
DER = [("symm", "", (4,)), ("refl", "a", ()), ("weak", "q", (0,)), ("notnot", "", (3,)), ("contra", "", (0, 2)), ("mp", "", (0, 9)),
       ("andi", "", (0, 1, 2)), ("andi", "", ()), ("ori", "p", (1,)), ("trans", "", (4, 5)), ("split", "", ()), ("cong", "f", (4,)), ("ax", "", ()),
       ("reqeq", "1 1", ()), ("flip", "", (12,)), ("sori", "", (0,)), ("impi", "", (0, 1))]
R = {r.name: r for r in RULES}
for (n1, a1, p1) in DER:
    cl = E("(or q (or (not q) false))") if n1 == "split" else None
    r1 = R[n1].apply([E(x) for x in a1.split()], [PHI[i] for i in p1], cl)
    s1 = step(R[n1], [E(x) for x in a1.split()], p1, cl) % 0
    for r2 in RULES:
        if r2.explicit is not None:
            continue
        for at in itertools.product(SMALLARG + [E("0")], repeat=len(r2.args)):
            for hole in itertools.product([None, 0, 4, 9], repeat=2 if r2.plist else len(r2.prems)):
                if None not in hole:
                    continue
                pr = [r1 if i is None else PHI[i] for i in hole]
                out = r2.apply(list(at), pr, None)
                if out == "SKIP":
                    continue
                c.tr()
                c.st((n1, a1, r2.name, at, hole))
                n = len(lines)
                key = "%s(%s) then %s args=(%s) premises=(%s)" % (n1, a1, r2.name, " ".join(map(txt, at)), " ".join(map(str, hole)))
                s2 = "(step u%d %s:rule %s :premises (%s) :args (%s))" % (
                    n, txt(out) + " " if out is not None else "", r2.name, " ".join("s%d" % n if i is None else "h%d" % i for i in hole), " ".join(map(txt, at)))
                t = s1.replace("(step s0", "(step s%d" % n) + "\n" + s2
                if out is not None:
                    lines.append((key, t))
                else:
                    if not TH and (len(r2.args) > 1 or len(hole) > 2):
                        continue
                    rejects.append(engine.Case(key, PRE + t + "\n", "reject"))
c.bounds.append("%d rules; arguments from %d terms, premises from %d proven formulas, up to one argument/premise more than declared; premise lists up to 3; claims from %d formulas; two-step derivations over %d first steps x all rules"
                % (len(RULES), len(ARG), len(PHI), len(CLAIMS), len(DER)))
c.part("accepted steps", 0, 0)
c.parts["accepted steps"]["count"] = len(lines)
c.parts["refused"] = dict(count=len(rejects))
c.positive(PRE, lines, chunk=300, mode="eo")
c.run(rejects)
# every pattern up to depth 2 (with every repetition of variables and of
# compound subpatterns) as an argument, as a premise, and split over both
L0 = ["?x", "?y", "a"]
L1 = L0 + [C("f", t) for t in L0] + [C("g", s, t) for s in L0 for t in L0]
L2 = L1 + [C("f", t) for t in L1 if t not in L0] + [C("g", s, t) for s in L1 for t in L1 if not (s in L0 and t in L0)]
G1 = ["a", "b", C("f", "a"), C("f", "b"), C("g", "a", "a"), C("g", "a", "b"), C("g", "b", "a")]
G2 = G1 + [C("f", t) for t in G1[2:]] + [C("g", s, t) for s in G1 for t in G1 if not (s in G1[:2] and t in G1[:2])]
PRQ = """(declare-const Int Type)
(declare-const a Int)
(declare-const b Int)
(declare-const f (-> Int Int))
(declare-const g (-> Int Int Int))
(declare-const Q (-> Int Bool))
(declare-const R (-> Int Int Bool))
(declare-const X (-> Bool Int Int Bool))
(declare-const tt Bool)
"""


def unq(t):
    return txt(t).replace("?", "")


def rule_for(pats):
    vs = sorted({v for v in ("?x", "?y") if any(v in txt(p) for p in pats)})
    return "((x Int) (y Int))", [v for v in vs]


npos = nrej = 0
acc, rej = [], []
pairs = [(p, None) for p in L2] + [(p, q) for p in L1 for q in L1]
for p, q in pairs:
    pats = [p] + ([q] if q is not None else [])
    vs = sorted({v for v in ("?x", "?y") if any(v in txt(z) for z in pats)})
    params = " ".join("(%s Int)" % v[1:] for v in vs)
    out = C("X", "tt", vs[0] if vs else "a", vs[-1] if vs else "b")
    forms = [":args (%s)" % " ".join(map(unq, pats)), ":premises (%s)" % " ".join("(Q %s)" % unq(z) for z in pats)]
    if q is not None:
        forms.append(":premises ((Q %s)) :args (%s)" % (unq(p), unq(q)))
        forms.append(":premises ((R %s %s))" % (unq(p), unq(q)))
    vals = [(t,) for t in G2] if q is None else [(s, t) for s in G1 for t in (G1 if TH else G1[:5])]
    n = len(acc)
    ok = ["(declare-rule r%d_%d (%s) %s :conclusion %s)" % (n, k, params, fm, unq(out)) for k, fm in enumerate(forms)]
    decl = list(ok)
    for vi, v in enumerate(vals):
        s = matchall(pats, list(v))
        used = [":args (%s)" % " ".join(map(txt, v)), ":premises (%s)" % " ".join("h%d_%d_%d" % (n, vi, z) for z in range(len(v)))]
        asm = ["(assume h%d_%d_%d (Q %s))" % (n, vi, z, txt(t)) for z, t in enumerate(v)]
        if q is not None:
            used += [":premises (h%d_%d_0) :args (%s)" % (n, vi, txt(v[1])), ":premises (k%d_%d)" % (n, vi)]
            asm.append("(assume k%d_%d (R %s %s))" % (n, vi, txt(v[0]), txt(v[1])))
        for k, u in enumerate(used):
            c.tr()
            c.st(("pattern", k, tuple(map(txt, pats)), tuple(map(txt, v))))
            if s is not None:
                if k == 0:
                    ok += asm
                ok.append("(step s%d_%d_%d %s :rule r%d_%d %s)" % (n, vi, k, txt(subst(out, s)), n, k, u))
            elif TH or (q is None and (vi + k) % 2 == 0) or (q is not None and (vi + k + n) % 6 == 0):
                rej.append(engine.Case("pattern %s on %s form %d" % (" ".join(map(txt, pats)), " ".join(map(txt, v)), k),
                                       PRQ + decl[k] + "\n" + "\n".join(asm) + "\n(step s :rule r%d_%d %s)\n" % (n, k, u), "reject"))
    acc.append(("patterns " + " ".join(map(txt, pats)), "\n".join(ok)))
c.sample(acc[len(acc) // 2][1][:800])
c.positive(PRQ, acc, chunk=5)
c.run(rej)
c.part("patterns of rules", len(acc), len(rej))
c.bounds.append("all rules with one pattern up to depth 2, or two up to depth 1, over two variables and a, f, g, as arguments, premises, both, on all terms up to depth 2 (1 for pairs)")
PRN = """(declare-const N Type)
(declare-consts <numeral> N)
(declare-const a N)
(declare-const P (-> N N N Bool))
"""
# every list of up to three requirements over shared sides
SIDES = ["x", "y", "z", "(eo::neg x)", "(eo::neg y)", "0"]
RQ = [("x", "y"), ("(eo::neg x)", "y"), ("(eo::neg x)", "z"), ("x", "x"), ("(eo::neg x)", "(eo::neg x)"), ("y", "(eo::neg y)"), ("z", "0"),
      ("0", "(eo::neg x)"), ("z", "y")]
if TH:
    RQ = list(itertools.product(SIDES, repeat=2))
RV = ["a", "0", "1", "-1"] if not TH else ["a", "0", "1", "-1"]
acc, rej = [], []


def side(t, env):
    if t.startswith("(eo::neg"):
        return {"0": "0", "1": "-1", "-1": "1"}.get(env[t[-2]])
    return env.get(t, t)


for k in (1, 2, 3):
    for rl in itertools.product(RQ, repeat=k):
        if TH and k == 3 and len(set(rl)) == 3 and not ({rl[0][0]} & {rl[1][0], rl[2][0]} or {rl[0][1]} & {rl[1][1], rl[2][1]}):
            continue
        n = len(acc)
        decl = "(declare-rule q%d ((x N) (y N) (z N)) :args (x y z) :requires (%s) :conclusion (P x y z))" % (n, " ".join("(%s %s)" % q for q in rl))
        ok, bad = [decl], []
        for vs in itertools.product(RV, repeat=3):
            env = dict(zip("xyz", vs))
            c.tr()
            c.st(("requirements", rl, vs))
            good = all(side(l, env) is not None and side(l, env) == side(r, env) for l, r in rl)
            step_ = "(step s%d_%s :rule q%d :args (%s))" % (n, "_".join(str(RV.index(v)) for v in vs), n, " ".join(vs))
            if good:
                ok.append(step_)
            else:
                bad.append((vs, sum(1 for l, r in rl if side(l, env) is None or side(l, env) != side(r, env)), step_))
        acc.append(("requirements %s" % (rl,), "\n".join(ok)))
        # those that fail in one requirement only, and a few of the others
        for i, (vs, f, st_) in enumerate(bad):
            if k == 1 or (f == 1 and (not TH or (i + n) % 5 == 0)) or (i + n) % (97 if TH else 13) == 0:
                rej.append(engine.Case("requirements %s on %s" % (rl, " ".join(vs)), PRN + decl + "\n" + st_ + "\n", "reject"))
c.sample(acc[-1][1][:500])
c.positive(PRN, acc, chunk=30)
c.run(rej)
c.part("lists of requirements", len(acc), len(rej))
c.bounds.append("all lists of up to three requirements over %d pairs of sides, on all triples of %d arguments" % (len(RQ), len(RV)))
scale.run(c)
c.finish()
