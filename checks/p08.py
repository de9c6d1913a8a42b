"""P08: core evaluation operators. Model: an evaluator over explicit terms in
which a failed evaluation is the value STUCK. All operator terms up to depth 2
(thorough: 3 over representatives) over atoms of every kind, each replayed
directly and through every evaluation context: let, macro expansion, program
body, rule conclusion and rule requirement."""
import itertools
from mc import engine, lits
from mc import scale
from mc.lits import num, rat, dec, bv, hx, st, bo, SKIP
from mc.terms import C, txt

c = engine.Check("P08")
TH = c.thorough
PRE = """(declare-const U Type)
(declare-const Int Type)
(declare-const Q Type)
(declare-const Dec Type)
(declare-const HexT Type)
(declare-const BitVec (-> Int Type))
(declare-const Str Type)
(declare-consts <numeral> Int)
(declare-consts <rational> Q)
(declare-consts <decimal> Dec)
(declare-consts <hexadecimal> HexT)
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-consts <string> Str)
(declare-const a U)
(declare-const b U)
(declare-const |c d| U)
(declare-const f (-> U U))
(declare-const g (-> U U U))
(declare-const L (-> Type Type))
(declare-parameterized-const pr ((T Type :implicit)) (-> T U))
(declare-const = (-> Bool Bool Bool))
(program $only ((x U)) :signature (U) U ((($only a) b)))
(program $id ((T Type) (x T)) :signature (T) T ((($id x) x)))
(program $loop ((x U)) :signature (U) U ((($loop x) ($loop x))))
"""
S = "STUCK"
FUN = "(-> U U)"
BT = {"a": "U", "b": "U", "|c d|": "U", "f": FUN, "g": "(-> U U U)", "L": "(-> Type Type)", "U": "Type", "Int": "Type",
      "Str": "Type", "Q": "Type", "Dec": "Type", "HexT": "Type", "Bool": "Type", FUN: "Type", "Type": "Type",
      "(-> U U U)": "Type", "(-> Type Type)": "Type"}
NAMES = {"a": "a", "b": "b", "|c d|": "c d", "f": "f", "g": "g", "L": "L", "U": "U", "Int": "Int", "Str": "Str", "Q": "Q",
         "Dec": "Dec", "HexT": "HexT"}


def typ(v):
    """type of a value; None where the model does not say"""
    if v[0] == "lit":
        l = v[1]
        return {"num": ("t", "Int"), "rat": ("t", "Q"), "dec": ("t", "Dec"), "hex": ("t", "HexT"), "str": ("t", "Str"),
                "bool": ("t", "Bool")}.get(l[0]) or ("t", C("BitVec", str(l[1])))
    if v[0] == "var":
        return v[2]
    t = v[1]
    if isinstance(t, str):
        return ("t", BT[t]) if t in BT else None
    h = t
    while isinstance(h, tuple):
        h = h[1]
    if h == "g" and not isinstance(t[1], tuple):
        return ("t", FUN)
    return {"f": ("t", "U"), "pr": ("t", "U"), "g": ("t", "U"), "L": ("t", "Type"), "BitVec": ("t", "Type")}.get(h)


def vtext(v):
    if v[0] == "lit":
        return lits.text(v[1])
    if v[0] == "var":
        return "(eo::var %s %s)" % (lits.text(st(v[1])), vtext(v[2]))
    return txt(v[1])


def istype(v):
    return typ(v) == ("t", "Type")


def ev(t):
    k = t[0]
    if k == "v":
        return t[1]
    if k == "stuck":
        return S
    o, xs = t[1], t[2]
    if o == "ite":
        x = ev(xs[0])
        if x == ("lit", bo(True)):
            return ev(xs[1])
        if x == ("lit", bo(False)):
            return ev(xs[2])
        return SKIP if x == SKIP else S
    vs = [ev(x) for x in xs]
    if SKIP in vs:
        return SKIP
    if o == "requires":
        return vs[2] if vs[0] == vs[1] != S else S
    if o == "is_ok":
        return ("lit", bo(vs[0] != S))
    if o == "is_eq":
        return ("lit", bo(vs[0] == vs[1] != S))
    if o == "is_var":
        return ("lit", bo(vs[0][0] == "var"))
    if o in ("is_z", "is_q", "is_bin", "is_str", "is_bool"):
        return ("lit", bo(vs[0] != S and vs[0][0] == "lit" and lits.op(o, [vs[0][1]])[1]))
    if S in vs:
        return S
    if o == "eq":
        return ("lit", bo(vs[0] == vs[1]))
    if o == "typeof":
        r = typ(vs[0])
        return SKIP if r is None else r
    if o == "nameof":
        v = vs[0]
        if v[0] == "var":
            return ("lit", st(v[1]))
        if v[0] == "t" and isinstance(v[1], str) and v[1] in NAMES:
            return ("lit", st(NAMES[v[1]]))
        return S
    if o == "var":
        if vs[0][0] == "lit" and vs[0][1][0] == "str" and istype(vs[1]):
            return ("var", "".join(map(chr, vs[0][1][1])), vs[1])
        return S
    if o == "$id":
        return vs[0]
    if o == "$only":
        return ("t", "b") if vs[0] == ("t", "a") else S
    if o == "pr":
        v = vs[0]
        return ("t", ("@", "pr", vtext(v)))
    if o == "cmp":
        return ("lit", bo(False)) if vs[0] == vs[1] else SKIP
    if any(v[0] != "lit" for v in vs):
        return S
    r = lits.op(o, [v[1] for v in vs])
    return S if r is None else r if r == SKIP else ("lit", r)


SYN = {"$id": "$id", "$only": "$only", "pr": "_ pr"}


def show(t, env=None):
    """env: maps leaves to parameter names"""
    if env and t in env:
        return env[t]
    if t[0] == "v":
        return vtext(t[1])
    if t[0] == "stuck":
        return t[1]
    return "(%s %s)" % (SYN.get(t[1], "eo::" + t[1]), " ".join(show(x, env) for x in t[2]))


def leaves(t, out):
    if t[0] == "v":
        if t not in out:
            out.append(t)
    elif t[0] == "op":
        for x in t[2]:
            leaves(x, out)
    return out


def V(x):
    return ("v", x)


def tm(x):
    return V(("t", x))


def op(o, *xs):
    return ("op", o, tuple(xs))


LIT = [bo(True), bo(False), num(0), num(1), num(-3), num(97), rat(1, 2), dec(1, 2), st("x"), st("a"), st(""), bv(1, 1), bv(3, 5), hx(4, 10)]
ATOMS = [V(("lit", l)) for l in LIT] + [tm(x) for x in ("a", "b", "|c d|", "f", "U", "Int", "Bool", FUN, C("f", "a"), C("g", "a"), C("L", "U"), "Type")] \
    + [V(("var", "x", ("t", "U"))), V(("var", "a", ("t", "U"))), V(("var", "x", ("t", "Bool")))]
STUCKS = [("stuck", s) for s in ("(eo::add 1 true)", "($only b)", "(f ($only b))", "($id ($only b))")]
ALL = ATOMS + STUCKS
UN = ["is_ok", "is_z", "is_q", "is_bin", "is_str", "is_bool", "is_var", "typeof", "nameof", "not", "neg", "len", "to_z", "to_q", "to_str",
      "is_neg", "$id", "$only", "pr"]
BI = ["eq", "is_eq", "var", "cmp", "and", "add", "concat"]
lines = []
n = [0]
fam = {}


def commands(t, r, ctxs):
    """groups observing that t evaluates to r in each context"""
    n[0] += 1
    i = n[0]
    if r == S:
        lhs, rhs = "(eo::is_ok %s)", "false"
    else:
        lhs, rhs = "%s", vtext(r)
    out = []
    if "direct" in ctxs:
        out.append("(declare-const t%d (eo::requires %s %s Bool))" % (i, lhs % show(t), rhs))
    if "let" in ctxs:
        out.append("(declare-const u%d (eo::define ((z%d %s)) (eo::requires %s %s Bool)))" % (i, i, show(t), lhs % ("z%d" % i), rhs))
    ls = leaves(t, [])
    for cx in ctxs:
        for sub in ([ls] if len(ls) < 2 or not TH else [ls] + [[x] for x in ls]):
            env = {x: "x%d" % k for k, x in enumerate(sub)}
            body = lhs % show(t, env)
            ar = " ".join(show(x) for x in sub)
            tag = "%d_%d" % (i, ls.index(sub[0]) if sub and len(sub) < len(ls) else 99)
            ps = " ".join("(T%d Type) (x%d T%d)" % (k, k, k) for k in range(len(sub)))
            if cx == "macro" and sub:
                out.append("(define m%s (%s) (eo::requires %s %s Bool))\n(declare-const v%s (m%s %s))" % (
                    tag, ps, body, rhs, tag, tag, " ".join("Type " + show(x) for x in sub)))
            elif cx == "prog" and sub:
                sg = " ".join("T%d" % k for k in range(len(sub)))
                xs = " ".join("x%d" % k for k in range(len(sub)))
                out.append("(program $b%s (%s) :signature (%s) Bool ((($b%s %s) %s)))\n(declare-const w%s (eo::requires ($b%s %s) %s Bool))" % (
                    tag, ps, sg, tag, xs, body, tag, tag, ar, rhs))
            elif cx == "concl":
                out.append("(declare-rule rc%s (%s) :args (%s) :conclusion (eo::requires %s %s true))\n(step sc%s true :rule rc%s :args (%s))" % (
                    tag, ps, " ".join("x%d" % k for k in range(len(sub))), body, rhs, tag, tag, ar))
            elif cx == "req":
                out.append("(declare-rule rr%s (%s) :args (%s) :requires ((%s %s)) :conclusion true)\n(step sr%s true :rule rr%s :args (%s))" % (
                    tag, ps, " ".join("x%d" % k for k in range(len(sub))), body, rhs, tag, tag, ar))
    return out


ALLC = ("direct", "let", "macro", "prog", "concl", "req")
done = set()
neg = []
NEG = 50 if TH else 300


def add(t, family, ctxs=ALLC):
    if t in done:
        return
    done.add(t)
    r = ev(t)
    c.tr(len(ctxs))
    if r == SKIP:
        return
    c.st(t)
    fam[family] = fam.get(family, 0) + 1
    key = show(t)
    for g in commands(t, r, ctxs):
        lines.append((key, g))
    # the observation is not vacuous: another outcome is refused
    if len(done) % NEG == 0 or family == "atoms":
        for w in (S, ("lit", bo(True)), ("lit", bo(False)), ("t", "a"), ("t", "U")):
            if w != r:
                for g in commands(t, w, ("direct", "macro", "prog", "concl", "req")):
                    neg.append(engine.Case("not " + key + " = " + (w if w == S else vtext(w)), PRE + g, "reject"))
    if len(done) % 7919 == 3:
        c.sample(lines[-1][1])


for x in ALL:
    for o in UN:
        add(op(o, x), "depth 1")
    for y in ALL:
        for o in BI:
            add(op(o, x, y), "depth 1")
CONDS = [V(("lit", bo(True))), V(("lit", bo(False))), V(("lit", num(1))), tm("a"), STUCKS[0], V(("lit", st("a")))]
BR = [V(("lit", num(1))), V(("lit", bo(True))), tm("a"), tm("b"), STUCKS[0], STUCKS[1], tm(C("f", "a")), V(("var", "x", ("t", "U")))]
for k in CONDS:
    for x, y in itertools.product(BR, repeat=2):
        add(op("ite", k, x, y), "ite")
for x, y in itertools.product(ALL, repeat=2):
    for z in BR if TH or x == y or x in STUCKS or y in STUCKS else BR[:1]:
        add(op("requires", x, y, z), "requires")
# depth 2: an operator applied to evaluated and to stuck applications
INNER = [op("eq", tm("a"), tm("a")), op("eq", tm("a"), tm("b")), op("eq", tm("a"), STUCKS[0]), op("is_eq", STUCKS[0], STUCKS[0]),
         op("is_eq", tm("b"), tm("b")), op("add", V(("lit", num(1))), V(("lit", num(-3)))), op("add", tm("a"), V(("lit", num(1)))),
         op("nameof", tm("a")), op("nameof", tm(C("f", "a"))), op("typeof", tm("a")), op("typeof", STUCKS[1]), op("typeof", V(("lit", bv(3, 5)))),
         op("typeof", tm("f")), op("var", V(("lit", st("x"))), tm("U")), op("var", tm("a"), tm("U")), op("var", V(("lit", st("x"))), tm(FUN)),
         op("is_ok", STUCKS[1]), op("is_ok", tm("a")), op("$only", tm("a")), op("$only", tm("f")), op("$id", STUCKS[2]), op("$id", tm("a")),
         op("pr", STUCKS[0]), op("pr", tm("a")), op("pr", V(("lit", bo(True)))), op("ite", V(("lit", bo(True))), tm("a"), STUCKS[0]),
         op("ite", V(("lit", bo(False))), tm("a"), STUCKS[0]), op("ite", tm("a"), tm("a"), tm("a")), op("requires", tm("a"), tm("a"), tm("b")),
         op("requires", tm("a"), tm("b"), tm("b")), op("requires", STUCKS[0], STUCKS[0], tm("a")), op("concat", V(("lit", st("x"))), V(("lit", st("a")))),
         op("to_str", V(("lit", num(97)))), op("len", V(("lit", bv(3, 5)))), op("is_var", V(("var", "x", ("t", "U")))), op("cmp", tm("a"), tm("a"))]
OUT = INNER + [tm("a"), tm("b"), tm("U"), V(("lit", bo(True))), V(("lit", num(-2))), V(("lit", st("x"))), V(("lit", st("a"))), STUCKS[0], STUCKS[1],
               V(("var", "x", ("t", "U")))]
for x in INNER:
    for o in UN:
        add(op(o, x), "depth 2")
        for p in UN:
            add(op(p, op(o, x)), "depth 3", ALLC if TH else ("direct", "prog"))
    for y in OUT:
        for o in BI:
            add(op(o, x, y), "depth 2")
            add(op(o, y, x), "depth 2")
for k in INNER + CONDS:
    for x, y in itertools.product(OUT if TH else OUT[::2], OUT if TH else OUT[1::3]):
        add(op("ite", k, x, y), "ite depth 2", ALLC if TH else ("direct", "prog", "macro"))
for x, y in itertools.product(OUT, repeat=2):
    for z in (OUT if TH else OUT[::7]):
        add(op("requires", x, y, z), "requires depth 2", ALLC if TH else ("direct", "prog", "concl"))
if TH:
    for o in UN + BI:
        for x, y in itertools.product(INNER, repeat=2):
            for p in BI:
                if o in UN:
                    add(op(o, op(p, x, y)), "depth 3", ("direct", "prog", "req"))
                else:
                    for z in (tm("a"), STUCKS[0], V(("lit", bo(True)))):
                        add(op(o, op(p, x, y), z), "depth 3", ("direct", "prog"))
# bare stuck terms and values everywhere
for x in ALL:
    add(x, "atoms", ("direct", "let", "macro", "prog", "concl", "req"))
for k, v in fam.items():
    c.part(k, 0, v)

# hash and cmp: a numeral unique to the value, and a total order, also through a program
vals = [x for x in ATOMS] + [tm(C("f", C("f", "a"))), tm(C("g", "a", "b")), tm(C("g", "b", "a")), tm("g"), tm("Str"), tm(C("pr", "a")), tm(C("L", C("L", "U")))]
PRE2 = PRE + """(program $h ((T Type) (x T)) :signature (T) Int ((($h x) (eo::hash x))))
(program $cmp ((T Type) (x T) (S Type) (y S)) :signature (T S) Bool ((($cmp x y) (eo::cmp x y))))
"""
hl = []
for i, x in enumerate(vals):
    s = show(x)
    hl.append(("hash " + s, "(declare-const h%d (eo::requires (eo::is_z (eo::hash %s)) true Bool))\n"
               "(declare-const i%d (eo::requires ($h %s) (eo::hash %s) Bool))" % (i, s, i, s, s)))
    for j, y in enumerate(vals):
        u = show(y)
        if i != j:
            hl.append(("hash %s %s" % (s, u),
                       "(declare-const h%d_%d (eo::requires (eo::eq (eo::hash %s) (eo::hash %s)) false Bool))\n"
                       "(declare-const i%d_%d (eo::requires (eo::cmp %s %s) (eo::not (eo::cmp %s %s)) Bool))\n"
                       "(declare-const j%d_%d (eo::requires (eo::cmp %s %s) ($cmp %s %s) Bool))\n"
                       "(declare-const k%d_%d (eo::requires (eo::cmp %s %s) (eo::is_neg (eo::add (eo::neg (eo::hash %s)) (eo::hash %s))) Bool))\n"
                       % (i, j, s, u, i, j, s, u, u, s, i, j, s, u, s, u, i, j, s, u, s, u)))
        for k, z in enumerate(vals if TH else vals[::3]):
            w = show(z)
            hl.append(("cmp %s %s %s" % (s, u, w), "(declare-const l%d_%d_%d (eo::requires (eo::ite (eo::and (eo::cmp %s %s) (eo::cmp %s %s)) (eo::cmp %s %s) true) true Bool))"
                       % (i, j, k, s, u, u, w, s, w)))
for i, x in enumerate(STUCKS):
    for j, y in enumerate(vals):
        hl.append(("stuck cmp", "(declare-const q%d_%d (eo::requires (eo::and (eo::is_ok (eo::cmp %s %s)) (eo::is_ok (eo::hash %s)) (eo::is_ok (eo::cmp %s %s))) false Bool))"
                   % (i, j, show(x), show(y), show(x), show(y), show(x))))
c.part("hash and cmp", 0, len(hl))
c.tr(len(hl))

# the branch not taken is never evaluated: conditionals guarding divergence,
# with every condition and nesting, decided at parse time and under a program
lz = []
LOOP = "($loop a)"


def lazy(d):
    """(text, params->value) conditional trees with the diverging call only in untaken branches"""
    if d == 0:
        yield "a"
        return
    for sub in lazy(d - 1):
        yield "(eo::ite true %s %s)" % (sub, LOOP)
        yield "(eo::ite false %s %s)" % (LOOP, sub)
        yield "(eo::ite (eo::eq %s a) %s %s)" % (sub, sub, LOOP)
        yield "(eo::ite (eo::is_eq %s b) %s %s)" % (sub, LOOP, sub)


for i, t in enumerate(x for d in ((1, 2, 3, 4) if TH else (1, 2, 3)) for x in lazy(d)):
    # under a program the conditions depend on the parameter
    body = t.replace(" true ", " (eo::eq x a) ").replace(" false ", " (eo::eq x b) ").replace(LOOP, "($loop x)")
    lz.append(("lazy " + body, "(program $z%d ((x U)) :signature (U) U ((($z%d x) %s)))\n(declare-const y%d (eo::requires ($z%d a) a Bool))" % (i, i, body, i, i)))
    lz.append(("lazy rule " + body, "(declare-rule z%d ((x U)) :args (x) :requires ((%s a)) :conclusion true)\n(step zs%d true :rule z%d :args (a))" % (i, body, i, i)))
    lz.append(("lazy macro " + body, "(define zm%d ((x U)) %s)" % (i, body)))
    c.tr(3)
c.part("lazy conditionals", 0, len(lz))
c.bounds.append("all terms of one core operator over %d atoms and %d stuck terms; depth 2 (3 for unary) over %d representative inner applications; contexts: %s"
                % (len(ATOMS), len(STUCKS), len(INNER), ", ".join(ALLC)))
if __name__ == "__main__":
    c.positive(PRE, lines, chunk=400)
    c.run(neg)
    c.positive(PRE2, hl, chunk=400)
    c.positive(PRE, lz, chunk=50)
    scale.run(c)
    c.finish()
