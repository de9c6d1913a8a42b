"""P16: datatypes. Every datatype declaration of bounded size (number of
datatypes, parameters, constructors, selectors; field types from a pool with
the parameters, the datatypes and their instances) is declared, and every
introduced symbol is applied to every tuple of arguments of a set of ground
types; the computed types, and the lists which eo::dt_constructors and
eo::dt_selectors return, are compared with the model, which instantiates the
declared signature by matching."""
import itertools
from mc import engine
from mc import scale
from mc.engine import Case
from mc.terms import C, txt, match, subst

c = engine.Check("P16")
TH = True
DEEP = c.thorough
PRE = """(declare-const U Type)
(declare-const Arr (-> Type Type Type))
(declare-const Int Type)
(declare-consts <numeral> Int)
"""


def L(xs):
    r = "eo::List::nil"
    for x in reversed(xs):
        r = "(_ eo::List::cons %s %s)" % (x, r)
    return r


def params_of(t):
    return {t} if isinstance(t, str) and t.startswith("?") else set() if isinstance(t, str) else params_of(t[1]) | params_of(t[2])


def src(t):
    """type as written in a declaration"""
    return txt(t).replace("(_ ", "(").replace("?", "")


class DT:
    def __init__(self, name, params, cons):
        self.name, self.params = name, ["?" + p for p in params]
        self.cons = cons  # [(name, [(sel, type)])]
        self.typ = C(name, *self.params)


def body(d):
    cl = "(" + " ".join("(%s%s)" % (n, "".join(" (%s %s)" % (s, src(t)) for s, t in sels)) for n, sels in d.cons) + ")"
    return "(par (%s) %s)" % (" ".join(p[1:] for p in d.params), cl) if d.params else cl


def decl(ds, single=False):
    if single:
        return "(declare-datatype %s %s)" % (ds[0].name, body(ds[0]))
    return "(declare-datatypes (%s) (%s))" % (" ".join("(%s %d)" % (d.name, len(d.params)) for d in ds), " ".join(body(d) for d in ds))


def ambiguous(d, sels):
    fv = set()
    for _, t in sels:
        fv |= params_of(t)
    return not set(d.params) <= fv


def expected(args, ret, types):
    """type of an application of a function (args) -> ret, or None"""
    s = {}
    for p, t in zip(args, types):
        s = match(p, t, s)
        if s is None:
            return None
    return subst(ret, s)


lines, cases = [], []


def obs(out, term, typ):
    c.tr(1)
    if typ is None:
        out.append("(declare-const t (eo::requires (eo::is_ok (eo::typeof %s)) false Bool))" % term)
    else:
        out.append("(declare-const t (eo::requires (eo::typeof %s) %s Bool))" % (term, txt(typ)))


def stuck(out, term):
    c.tr(1)
    out.append("(declare-const t (eo::requires (eo::is_ok %s) false Bool))" % term)


def equal(out, a, b):
    c.tr(1)
    out.append("(declare-const t (eo::requires %s %s Bool))" % (a, b))


def symbols(ds, G):
    """all function symbols: (text of the head, argument types, result type)"""
    for d in ds:
        for n, sels in d.cons:
            if not ambiguous(d, sels):
                yield n, [t for _, t in sels], d.typ
            else:
                # one instance for each ground instance of the datatype
                for g in G:
                    s = match(d.typ, g, {})
                    if s is not None and d.params:
                        yield "(as %s %s)" % (n, txt(g)), [subst(t, s) for _, t in sels], g
            for s, t in sels:
                yield s, [d.typ], t
                yield "update-" + s, [d.typ, t], d.typ
            yield "is-" + n, [d.typ], "Bool"


def check(ds, G, single=False, full=True, pre="", key=""):
    """G: ground types, including instances of the datatypes"""
    if len({n for d in ds for n, _ in d.cons}) < sum(len(d.cons) for d in ds):
        raise Exception
    out = ["(push)", pre, decl(ds, single)]
    names = {}
    for i, g in enumerate(G):
        names[g] = "k%d" % i
        out.append("(declare-const k%d %s)" % (i, txt(g)))
    c.st(decl(ds, single))
    for d in ds:
        equal(out, "(eo::typeof %s)" % d.name, "(-> %s Type)" % " ".join(["Type"] * len(d.params)) if d.params else "Type")
        equal(out, "(eo::dt_constructors %s)" % d.name, L([n for n, _ in d.cons]))
        for g in G:
            if match(d.typ, g, {}) is not None and d.params:
                equal(out, "(eo::dt_constructors %s)" % txt(g), L(["(as %s %s)" % (n, txt(g)) if ambiguous(d, sels) else n for n, sels in d.cons]))
        if len(d.params) == 2:
            stuck(out, "(eo::dt_constructors (_ %s U))" % d.name)
        for n, sels in d.cons:
            equal(out, "(eo::dt_selectors %s)" % n, L([s for s, _ in sels]))
            if d.params and ambiguous(d, sels):
                for g in G:
                    if match(d.typ, g, {}) is not None:
                        equal(out, "(eo::dt_selectors (as %s %s))" % (n, txt(g)), L([s for s, _ in sels]))
            stuck(out, "(eo::dt_constructors %s)" % n)
            for x in [s for s, _ in sels] + ["update-" + s for s, _ in sels] + ["is-" + n]:
                stuck(out, "(eo::dt_selectors %s)" % x)
                stuck(out, "(eo::dt_constructors %s)" % x)
        stuck(out, "(eo::dt_selectors %s)" % d.name)
        stuck(out, "(eo::dt_constructors (-> %s U))" % txt(G[-1]))
    for g in ("U", "Bool", "Type", "Int", "k0", "k1", "1", "eo::List", "Arr"):
        stuck(out, "(eo::dt_constructors %s)" % g)
        stuck(out, "(eo::dt_selectors %s)" % g)
    for f, at, rt in symbols(ds, G):
        n = len(at)
        if n == 0:
            obs(out, f, rt)
            continue
        if n > 2 and not full:
            continue
        for ts in itertools.product(G, repeat=n):
            e = expected(at, rt, ts)
            obs(out, "(%s %s)" % (f, " ".join(names[t] for t in ts)), e)
            if e is not None and n == 2 and rt != "Bool":
                # curried
                equal(out, "(eo::typeof (_ %s %s))" % (f, names[ts[0]]), "(-> %s %s)" % (txt(expected([at[0]], at[1], ts[:1])), txt(e))) \
                    if not params_of(at[1]) - params_of(at[0]) and not params_of(rt) - params_of(at[0]) else None
            if f in [x[0] for d in ds for x in d.cons] and e is not None:
                stuck(out, "(eo::dt_selectors (%s %s))" % (f, " ".join(names[t] for t in ts)))
        # too many arguments
        ts = next((x for x in itertools.product(G, repeat=n) if expected(at, rt, x) is not None), None)
        if ts:
            obs(out, "(_ %s %s k0)" % (f, " ".join(names[t] for t in ts)), None)
        if f.startswith("(as"):
            obs(out, "(%s %s)" % (f.split()[1], " ".join(names[G[0]] for _ in range(n))), None)
    out.append("(pop)")
    lines.append((key + decl(ds, single), "\n".join(x for x in out if x)))


def options(types, maxsel):
    r = []
    for n in range(maxsel + 1):
        r += list(itertools.product(types, repeat=n))
    return r


def mk(name, params, opt, tag=""):
    return DT(name, params, [("c%s%d" % (tag, i), [("s%s%d%d" % (tag, i, j), t) for j, t in enumerate(ts)]) for i, ts in enumerate(opt)])


def part(name, f):
    a, b = len(lines) + len(cases), c.transitions
    f()
    c.part(name, len(lines) + len(cases) - a, c.transitions - b)


def famA():
    G = ["U", "Bool", "D"]
    o = options(G, 2)
    for k in (1, 2):
        for opt in itertools.product(o, repeat=k):
            d = mk("D", [], opt)
            check([d], G, single=False)
            if k == 1 or TH:
                check([d], G, single=True)
    for opt in itertools.product(o if TH else options(["U", "D"], 1), repeat=3):
        check([mk("D", [], opt)], G, single=True)
    for ts in itertools.product(["U", "Bool", "D", C("Arr", "U", "D")], repeat=3):
        check([mk("D", [], [ts, ()])], ["U", "Bool", "D", C("Arr", "U", "D")], single=True)
    for n in (4, 5, 9, 17) + ((40,) if TH else ()):
        for m in (0, 1, 3):
            check([mk("D", [], [["U"] * m] * n)], ["U", "D"], single=True, full=m < 3)
    for m in (4, 7, 10):
        check([mk("D", [], [["U", "D"] * (m // 2)])], ["U", "D"])


def famB():
    X, Y = "?X", "?Y"
    D1 = C("D", X)
    G1 = ["U", "Bool", C("D", "U"), C("D", "Bool"), C("D", C("D", "U"))]
    t1 = ["U", X, D1] + ([C("D", "U")] if TH else [])
    o = options(t1, 2)
    for k in (1, 2):
        for opt in itertools.product(o, repeat=k):
            check([mk("D", "X", opt)], G1, single=len(opt[0]) % 2 == 0)
            if k == 1:
                check([mk("D", "X", opt)], G1, single=len(opt[0]) % 2 == 1)
    for ts in options([C("D", "U"), C("D", D1), C("Arr", X, D1), C("Arr", X, X), X], 2):
        check([mk("D", "X", [ts])], ["U", "Bool", C("D", "U"), C("D", C("D", "U")), C("Arr", "U", "U"), C("Arr", "U", C("D", "U")), C("Arr", "U", "Bool")], single=True)
    G2 = ["U", "Bool", C("D", "U", "Bool"), C("D", "Bool", "U"), C("D", "U", "U")]
    o = options(["U", X, Y, C("D", X, Y), C("D", Y, X), C("D", X, X)], 2)
    for opt in itertools.product(o, repeat=1):
        for s in (True, False):
            check([mk("D", "XY", opt)], G2, single=s)
    o = options([X, Y, C("D", Y, X)] if not TH else ["U", X, Y, C("D", X, Y), C("D", Y, X)], 1 if not TH else 2)
    for opt in itertools.product(o, repeat=2):
        check([mk("D", "XY", opt)], G2, single=True)
    # three and four parameters: constructors that mention each subset of them
    Z, W = "?Z", "?W"
    G3 = ["U", "Bool", C("D", "U", "Bool", "U"), C("D", "U", "U", "Bool")]
    subs = [t for n in range(4) for t in itertools.combinations([X, Y, Z], n)] + [(Z, Y), (Y, Z, X), (C("D", X, Y, Z),), (C("D", Z, Z, Y),), (C("Arr", X, Z), Y)]
    for opt in itertools.product(subs, repeat=1):
        for s in (True, False):
            check([mk("D", "XYZ", opt)], G3, single=s)
    for opt in itertools.product(subs, repeat=2):
        check([mk("D", "XYZ", opt)], G3, single=len(opt[0]) % 2 == 0)
    for i in range(len(subs) if TH else 4):
        check([mk("D", "XYZ", subs[i:] + subs[:i])], G3, single=i % 2 == 0)
        check([mk("E", "XYZ"[:i % 4], [subs[0]], "E"), mk("D", "XYZ", subs[i:i + 3])], G3[:3] + ([C("E", *["U"] * (i % 4))] if i % 4 else ["E"]))
    G4 = ["U", "Bool", C("D", "U", "Bool", "U", "Bool")]
    sub4 = [t for n in range(5) for t in itertools.combinations([X, Y, Z, W], n)]
    for a in sub4:
        check([mk("D", "XYZW", [a])], G4, single=len(a) % 2 == 0)
        check([mk("D", "XYZW", [(X, Y, Z, W), a])], G4)
        check([mk("D", "XYZW", [a, (W, Z, Y, X)])], G4, single=True)


def famC():
    for (np_, mp) in ((0, 0), (1, 0), (0, 1), (1, 1)):
        dD = C("D", "?X") if np_ else "D"
        gD = C("D", "U") if np_ else "D"
        dE = C("E", "?X") if mp else "E"
        gE = C("E", "U") if mp else "E"
        G = ["U", "Bool", gD, gE] + ([C("D", "Bool")] if np_ else []) + ([C("E", "Bool")] if mp else []) + ([C("D", gE)] if np_ else [])
        tD = (["?X"] if np_ else ["U"]) + [dD, dE if np_ or not mp else gE]
        tE = (["?X"] if mp else ["U"]) + [dE, dD if mp or not np_ else gD]
        for oD in itertools.product(options(tD, 2 if TH else 1), repeat=1):
            for oE in itertools.product(options(tE, 2), repeat=1):
                ds = [mk("D", "X" * np_, oD, "D"), mk("E", "X" * mp, oE, "E")]
                check(ds, G)
                if TH:
                    check(ds[::-1], G)
        for oD in itertools.product(options(tD, 1), repeat=2):
            check([mk("E", "X" * mp, [(), (tE[2],)], "E"), mk("D", "X" * np_, oD, "D")], G)
    for perm in itertools.permutations("DEF"):
        for a in itertools.product("DEFU", repeat=3):
            check([mk(n, "", [(t,), ()], n) for n, t in zip(perm, a)], ["U", "D", "E", "F"])


def famDeep():
    X, Y = "?X", "?Y"
    G1 = ["U", "Bool", C("D", "U"), C("D", "Bool"), C("D", C("D", "U"))]
    for opt in itertools.product(options(["U", X, C("D", X)], 2), repeat=3):
        check([mk("D", "X", opt)], G1, single=True)
    G2 = ["U", "Bool", C("D", "U", "Bool"), C("D", "Bool", "U")]
    for opt in itertools.product(options([X, Y, C("D", X, Y), C("D", Y, X)], 2), repeat=2):
        check([mk("D", "XY", opt)], G2)
    for ts in itertools.product(["U", X, Y, C("D", X, Y), C("D", Y, X), C("D", X, X)], repeat=3):
        check([mk("D", "XY", [ts])], G2)
    G3 = ["U", "Bool", C("D", "U", "Bool", "U"), C("D", "U", "U", "U")]
    for opt in itertools.product(options([X, Y, "?Z", C("D", Y, "?Z", X)], 2), repeat=1):
        check([mk("D", "XYZ", opt)], G3)
    for perm in itertools.permutations("DEF"):
        for a in itertools.product(options("DEFU", 1), repeat=3):
            check([mk(n, "", [t, ()], n) for n, t in zip(perm, a)], ["U", "D", "E", "F"])
    for a in itertools.product(options("DE", 2), repeat=3):
        check([mk("D", "", a[:2], "D"), mk("E", "", a[2:], "E")], ["U", "D", "E"])


# ---- scopes, histories, names
def famD():
    decls = {
        "plain": ([mk("D", "", [("U", "D"), ()])], ["U", "D"]),
        "other": ([mk("D", "", [("U",), ("Bool",), ()])], ["U", "Bool", "D"]),
        "par": ([mk("D", "X", [("?X", C("D", "?X")), ()])], ["U", C("D", "U")]),
        "amb": ([mk("D", "XY", [("?X",), ("?Y",)])], ["U", "Bool", C("D", "U", "Bool")]),
        "two": ([mk("D", "", [("E",), ()], "D"), mk("E", "", [("D",)], "E")], ["U", "D", "E"]),
    }
    # what is declared before in the same, or in an already closed, scope does not matter
    for n in (1, 2, 3) if TH else (1, 2):
        for hist in itertools.product(decls, repeat=n):
            for last in decls:
                pre = "".join("(push)%s(define h () (eo::dt_constructors %s))(pop)" % (decl(decls[h][0]), decls[h][0][0].name) for h in hist)
                check(*decls[last], pre=pre, key="after %s: " % (hist,))
    # a datatype declared in an inner scope does not change the outer one, whose constructors are not the inner ones
    for o, i in itertools.product(decls, repeat=2):
        do, di = decls[o][0], decls[i][0]
        out = ["(push)", decl(do)]
        saved = []
        for d in do:
            out.append("(define o%s () %s)" % (d.name, d.name))
            for n, sels in d.cons:
                out.append("(define o%s () %s)" % (n, n))
                out += ["(define o%s () %s)" % (s, s) for s, _ in sels]
        out += ["(push)", decl(di)]
        for ins in (True, False):
            for d in do:
                equal(out, "(eo::dt_constructors o%s)" % d.name, L(["o" + n for n, _ in d.cons]))
                for n, sels in d.cons:
                    equal(out, "(eo::dt_selectors o%s)" % n, L(["o" + s for s, _ in sels]))
                    equal(out, "(eo::is_eq o%s %s)" % (n, n), "false" if ins and n in [m for e in di for m, _ in e.cons] else "true") if not ins or n in [m for e in di for m, _ in e.cons] else None
            if ins:
                for d in di:
                    equal(out, "(eo::dt_constructors %s)" % d.name, L([n for n, _ in d.cons]))
                    for n, sels in d.cons:
                        equal(out, "(eo::dt_selectors %s)" % n, L([s for s, _ in sels]))
                out.append("(pop)")
        out.append("(pop)")
        lines.append(("nested %s %s" % (o, i), "\n".join(out)))
    # exactly the declared names are introduced
    for k, (ds, G) in decls.items():
        intro = set()
        for d in ds:
            intro.add(d.name)
            for n, sels in d.cons:
                intro |= {n, "is-" + n}
                for s, _ in sels:
                    intro |= {s, "update-" + s}
        pool = set(intro)
        for x in intro:
            for p in ("is-", "update-", "set-", "mk-", "$eo_disamb_type_", "get-", "un"):
                pool.add(p + x)
            pool.add(x + "_var")
        pool |= {"X", "Y", "is", "update", "D", "E", "_", "as"}
        for x in sorted(pool):
            if x in ("_", "as"):
                continue
            c.tr(1)
            cases.append(Case("name %s %s" % (k, x), PRE + decl(ds) + "\n(define t () %s)\n" % x, "correct" if x in intro else "reject"))
            for end in ("(push)%s(pop)", "%s(reset)"):
                cases.append(Case("name gone %s %s %s" % (end, k, x), PRE + end % decl(ds) + "\n(define t () %s)\n" % x, "reject"))
            for how in ("f.smt2",):
                # declared in a reference file
                cases.append(Case("reference name %s %s" % (k, x), None, "correct" if x in intro else "reject",
                                  files={"c.eo": PRE.replace("(declare-consts <numeral> Int)", "(declare-consts <numeral> Int)") + '(reference "r.smt2")(define t () %s)' % x, "r.smt2": decl(ds)}, argv=["c.eo"]))
                cases.append(Case("proof name %s %s" % (k, x), None, "correct" if x in intro else "reject",
                                  files={"s.eo": PRE, "c.smt3": '(include "s.eo")' + decl(ds) + '(define t () %s)' % x}, argv=["c.smt3"]))
    # names which are used already
    for nm, ty in (("c", "(-> Bool Bool)"), ("s", "(-> Bool Bool)"), ("is-c", "(-> U Bool)"), ("update-s", "(-> U U U)"), ("D", "Type")):
        out = ["(push)(declare-const kB Bool)(declare-const kU U)(declare-const %s %s)(define old () %s)" % (nm, ty, nm), "(declare-datatype D ((c (s U))))(declare-const kD D)"]
        obs(out, "(c kU)", "D")
        obs(out, "(s kD)", "U")
        obs(out, "(is-c kD)", "Bool")
        obs(out, "(update-s kD kU)", "D")
        equal(out, "(eo::is_eq old %s)" % nm, "false")
        equal(out, "(eo::dt_constructors D)", L(["c"]))
        equal(out, "(eo::dt_selectors c)", L(["s"]))
        if nm != "D":
            a = {"c": "kB", "s": "kB", "is-c": "kU", "update-s": "kU kU"}[nm]
            obs(out, "(%s %s)" % (nm, a), "U" if nm == "update-s" else "Bool")
            equal(out, "(%s %s)" % (nm, a), "(_ old %s)" % a)
            stuck(out, "(eo::dt_selectors old)")
        else:
            stuck(out, "(eo::dt_constructors old)")
        lines.append(("used " + nm, "\n".join(out) + "(pop)"))
    # two datatypes with the same selector and constructor names
    for same in ("c", "s"):
        out = ["(push)(declare-const kU U)(declare-const kB Bool)(declare-datatypes ((D 0) (E 0)) (((c (s U))) ((%s (%s Bool)))))(declare-const kD D)(declare-const kE E)" %
               ("c" if same == "c" else "d", "s" if same == "s" else "r")]
        cE, sE = ("c" if same == "c" else "d", "s" if same == "s" else "r")
        obs(out, "(c kU)", "D")
        obs(out, "(%s kB)" % cE, "E")
        obs(out, "(s kD)", "U")
        obs(out, "(%s kE)" % sE, "Bool")
        obs(out, "(is-c kD)", "Bool")
        obs(out, "(is-%s kE)" % cE, "Bool")
        obs(out, "(update-s kD kU)", "D")
        obs(out, "(update-%s kE kB)" % sE, "E")
        equal(out, "(eo::dt_selectors %s)" % cE, L([sE]))
        equal(out, "(eo::dt_constructors E)", L([cE]))
        lines.append(("same name " + same, "\n".join(out) + "(pop)"))


# ---- queries made in programs and rules, after substitution
SIG = PRE + """(program $cons ((T Type)) :signature (Type) eo::List ((($cons T) (eo::dt_constructors T))))
(program $consof ((T Type) (x T)) :signature (T) eo::List ((($consof x) (eo::dt_constructors (eo::typeof x)))))
(program $sels ((T Type) (x T)) :signature (T) eo::List ((($sels x) (eo::dt_selectors x))))
(program $selsof ((F Type) (f F) (T Type) (x T)) :signature (F) eo::List ((($selsof (f x)) ($selsof f)) (($selsof f) (eo::dt_selectors f))))
(program $len ((T Type) (x T) (xs eo::List :list)) :signature (eo::List) Int ((($len eo::List::nil) 0) (($len (eo::List::cons x xs)) (eo::add 1 ($len xs)))))
(program $allsels ((T Type) (x T) (xs eo::List :list)) :signature (eo::List) eo::List ((($allsels eo::List::nil) eo::List::nil) (($allsels (eo::List::cons x xs)) (eo::list_concat eo::List::cons (eo::dt_selectors x) ($allsels xs)))))
(define mcons ((T Type)) (eo::dt_constructors T))
(declare-const P (-> eo::List Bool))
(declare-rule rcons ((T Type) (x T)) :args (x) :conclusion (P (eo::dt_constructors (eo::typeof x))))
(declare-rule rsels ((T Type) (x T)) :args (x) :conclusion (P (eo::dt_selectors x)))
"""


def famE():
    G = {"D": ["U", "Bool", "D"], "X": ["U", "Bool", C("D", "U"), C("D", "Bool")]}
    dts = [("D", o) for o in itertools.product(options(["U", "D"], 2), repeat=2)]
    dts += [("X", o) for o in itertools.product(options(["U", "?X", C("D", "?X")], 2 if TH else 1), repeat=2)]
    for kind, opt in dts:
        d = mk("D", "X" if kind == "X" else "", opt)
        out = ["(push)", decl([d], kind == "X")]
        for i, g in enumerate(G[kind]):
            out.append("(declare-const k%d %s)" % (i, txt(g)))
            if match(d.typ, g, {}) is None:
                stuck(out, "($cons %s)" % txt(g))
                stuck(out, "($consof k%d)" % i)
                stuck(out, "(mcons %s)" % txt(g))
                continue
            e = L(["(as %s %s)" % (n, txt(g)) if ambiguous(d, sels) and d.params else n for n, sels in d.cons])
            equal(out, "($cons %s)" % txt(g), e)
            equal(out, "($consof k%d)" % i, e)
            equal(out, "(mcons %s)" % txt(g), e)
            equal(out, "($len ($cons %s))" % txt(g), str(len(d.cons)))
            equal(out, "($allsels ($cons %s))" % txt(g), L([s for _, sels in d.cons for s, _ in sels]))
            out.append("(step z (P %s) :rule rcons :args (k%d))" % (e, i))
            for n, sels in d.cons:
                h = "(as %s %s)" % (n, txt(g)) if ambiguous(d, sels) and d.params else n
                l = L([s for s, _ in sels])
                equal(out, "($sels %s)" % h, l)
                equal(out, "($selsof %s)" % h, l)
                out.append("(step z (P %s) :rule rsels :args (%s))" % (l, h))
                s = match(d.typ, g, {})
                at = [subst(t, s) for _, t in sels]
                if at and all(t in G[kind] for t in at):
                    app = "(%s %s)" % (h, " ".join("k%d" % G[kind].index(t) for t in at))
                    if all(G[kind].index(t) <= i for t in at):
                        equal(out, "($selsof %s)" % app, l)
                        stuck(out, "($sels %s)" % app)
        out.append("(pop)")
        lines2.append(("query " + decl([d]), "\n".join(out)))
    # a wrong list is not accepted
    D = "(declare-datatype D ((a (s U) (t D)) (b)))(declare-const k D)(declare-const u U)\n"
    right = {"rcons": ("k", ["a", "b"]), "rsels": ("a", ["s", "t"]), "rsels ": ("b", [])}
    for r, (arg, names) in right.items():
        for n in range(4):
            for xs in itertools.product(["a", "b", "s", "t"], repeat=n):
                cases.append(Case("wrong %s %s" % (r, xs), SIG + D + "(step z (P %s) :rule %s :args (%s))\n" % (L(xs), r, arg), "correct" if list(xs) == names else "reject"))
                c.tr(1)
    for r, args in (("rcons", ["u", "true", "a", "b1", "D", "1", "s"]), ("rsels", ["k", "u", "s", "t", "is-a", "D", "true", "1", "(a u k)", "update-s"])):
        for a in args:
            for y in (L([]), L(["a", "b"]), L(["s", "t"]), "(eo::dt_constructors D)"):
                if r == "rcons" and a == "b" :
                    continue
                cases.append(Case("not a datatype %s %s %s" % (r, a, y), SIG + D + "(step z (P %s) :rule %s :args (%s))\n" % (y, r, a), "reject"))


# ---- what is not a declaration
def famF():
    ok = ["(declare-datatype D ((a)))", "(declare-datatypes ((D 0)) (((a))))", "(declare-datatype D (par (X) ((a))))", "(declare-datatypes ((D 1)) ((par (X) ((a)))))",
          "(declare-datatypes ((D 1) (E 0)) ((par (X) ((a))) ((b))))", "(declare-datatype D ((a (s U))))"]
    for t in ok:
        cases.append(Case("ok " + t, PRE + t, "correct"))
        # every proper prefix which ends after a token, and every closing parenthesis more
        toks = t.replace("(", " ( ").replace(")", " ) ").split()
        for i in range(1, len(toks)):
            cases.append(Case("prefix %d %s" % (i, t), PRE + " ".join(toks[:i]), "reject"))
        for i in range(len(toks)):
            cases.append(Case("drop %d %s" % (i, t), PRE + " ".join(toks[:i] + toks[i + 1:]), "any" if toks[i] not in "()" else "reject"))
    for np_ in range(4):
        for ar in range(4):
            for ps in ([], ["X"], ["X", "Y"], ["X", "Y", "Z"]):
                b = "(par (%s) ((a)))" % " ".join(ps) if ps else "((a))"
                cases.append(Case("arity %d %s" % (ar, ps), PRE + "(declare-datatypes ((D %d)) (%s))" % (ar, b), "correct" if ar == len(ps) else "reject"))
    for n in range(4):
        for m in range(4):
            for ar in itertools.product((0, 1), repeat=n):
                t = "(declare-datatypes (%s) (%s))" % (" ".join("(D%d %d)" % (i, a) for i, a in enumerate(ar)),
                                                       " ".join(("(par (X) ((a%d)))" if i < n and ar[i] else "((a%d))") % i for i in range(m)))
                cases.append(Case("count " + t, PRE + t, "correct" if n == m and n > 0 else "reject"))
    for ty, good in (("U", 1), ("D", 1), ("V", 0), ("X", 0), ("a", 0), ("b", 0), ("Arr", 0), ("(Arr U)", 0), ("(Arr U U)", 1), ("(D U)", 0), ("1", 0), ("(-> U D)", 1), ("(U U)", 0), ("k", 0), ("s", 0), ("Bool", 1), ("(-> U k)", 0)):
        cases.append(Case("field type " + ty, PRE + "(declare-const k U)(declare-datatype D ((a (s %s)) (b)))" % ty, "correct" if good else "reject"))
        cases.append(Case("field type 2 " + ty, PRE + "(declare-const k U)(declare-datatypes ((D 0) (E 0)) (((a)) ((b (s %s)))))" % ty, "correct" if good else "reject"))
    for ty, good in (("X", 1), ("(D X)", 1), ("D", 0), ("Y", 0), ("(D U)", 1), ("(D X X)", 0), ("(X X)", 0), ("(D a)", 0), ("(Arr X (D X))", 1)):
        for w in ("(declare-datatype D (par (X) ((a (s %s)) (b))))", "(declare-datatypes ((D 1)) ((par (X) ((a (s %s)) (b)))))"):
            cases.append(Case("field type par " + ty + w, PRE + w % ty, "correct" if good else "reject"))
    for t in ("(declare-datatype D (par () ((a))))", "(declare-datatypes () ())", "(declare-datatype D)", "(declare-datatype D a)", "(declare-datatype D (a))", "(declare-datatype 1 ((a)))", "(declare-datatype D ((1)))",
              "(declare-datatype D ((a s)))", "(declare-datatype D ((a (s))))", "(declare-datatype D ((a (s U U))))", "(declare-datatype D ((a)) ((b)))", "(declare-datatype D ((a)) U)", "(declare-datatypes ((D -1)) (((a))))",
              "(declare-datatypes ((D 1.0)) (((a))))", "(declare-datatypes ((D)) (((a))))", "(declare-datatypes (D) (((a))))", "(declare-datatypes ((D 0)) ((a)))", "(declare-datatypes ((D 0)) a)", "(declare-datatypes ((D 4294967296)) (((a))))",
              "(declare-datatype D (par X ((a))))", "(declare-datatype D (par (X) (a)))", "(declare-datatype D (par (X) ((a)) ((b))))", "(declare-datatypes ((D 0 0)) (((a))))", "(declare-datatypes ((D U)) (((a))))"):
        cases.append(Case("malformed " + t, PRE + t, "reject"))


lines2 = []
if __name__ == "__main__":
    part("one datatype", famA)
    part("parametric datatypes", famB)
    part("several datatypes", famC)
    if DEEP:
        part("deeper", famDeep)
    part("scopes and names", famD)
    part("queries in programs and rules", famE)
    part("malformed declarations", famF)
    c.bounds += ["up to 3 datatypes, 2 parameters, 3 constructors and 2 fields (families up to 40 constructors, 12 fields)", "every symbol applied to every tuple of up to 7 ground types"]
    for i in range(0, len(lines), max(1, len(lines) // 6)):
        c.sample(lines[i][0])
    print(len(lines), len(lines2), len(cases))
    c.positive(PRE, lines, chunk=20)
    c.positive(SIG, lines2, chunk=20)
    c.run(cases)
    scale.run(c)
    c.finish()
