"""P10: typing. Model: first order matching of argument types against the
declared (curried) type scheme, with literal arithmetic in dependent types.
All applications of every head to every tuple of typed terms, two levels deep,
and every command slot that demands a type."""
import itertools
from mc import engine
from mc import scale
from mc.engine import Case
from mc.terms import C, T, match, subst

c = engine.Check("P10")
TH = c.thorough
L = "(declare-const "
DECL = [  # name, implicit/explicit parameters, type
    ("List", "", "(-> Type Type)"), ("BitVec", "", "(-> Int Type)"), ("Array", "", "(-> Type Type Type)"),
    ("Pair", "", "(-> Type Type Type)"), ("a", "", "U"), ("b", "", "U"), ("i", "", "Int"), ("f", "", "(-> U U)"), ("g", "", "(-> U U U)"),
    ("P", "", "(-> U Bool)"), ("la", "", "(List U)"), ("lla", "", "(List (List U))"), ("lb", "", "(List Bool)"),
    ("arr", "", "(Array U Bool)"), ("arr2", "", "(Array Int (-> U U))"), ("F2", "", "(-> (-> U U) U)"), ("p", "", "(Pair U (List Bool))"),
    ("fb", "", "(-> Bool Bool)"), ("k", "", "(-> (List U) (-> U U) (-> Int Bool))"), ("V", "", "Type"), ("v", "", "V"),
    ("eq", "T", "(-> T T Bool)"), ("ite", "T", "(-> Bool T T T)"), ("cons", "T", "(-> T (List T) (List T))"),
    ("select", "T S", "(-> (Array T S) T S)"), ("store", "T S", "(-> (Array T S) T S (Array T S))"), ("fst", "T S", "(-> (Pair T S) T)"),
    ("snd", "T S", "(-> (Pair T S) S)"), ("mkp", "T S", "(-> T S (Pair T S))"), ("map", "T S", "(-> (-> T S) (List T) (List S))"),
    ("app", "T S", "(-> (-> T S) T S)"), ("comp", "T S R", "(-> (-> T S) (-> S R) (-> T R))"), ("lst", "T", "(-> T (List T))"),
    ("twin", "T", "(-> (Pair T T) (List T))"), ("any", "T", "(-> T U)"), ("anyb", "T", "(-> T Bool)"),
    ("bvadd", "n", "(-> (BitVec n) (BitVec n) (BitVec n))"), ("bvcat", "n m", "(-> (BitVec n) (BitVec m) (BitVec (eo::add n m)))"),
    ("bvpos", "n", "(-> (BitVec n) (eo::requires (eo::gt n 1) true (BitVec n)))"),
    ("bvrep", "h! n", "(-> (BitVec n) (BitVec (eo::mul h n)))"), ("bvzero", "h!", "(BitVec h)"), ("cst", "h! T", "(-> T (Array Int T))"),
    # parameters of compound types that occur in the type of the application (x!:ty, _ for spaces)
    ("DL", "", "(-> (List U) Type)"), ("dl", "h!:(List_U)", "(DL h)"), ("DF", "", "(-> (-> U U) Type)"), ("df", "h!:(->_U_U)", "(-> U (DF h))"),
    ("DA", "", "(-> (Array U Bool) U Type)"), ("da", "h!:(Array_U_Bool) m!:U", "(-> Bool (DA h m))"), ("DB", "", "(-> (BitVec 2) Type)"), ("db", "h!:(BitVec_2)", "(DB h)"),
]
PRE = """(declare-const Int Type)
(declare-const U Type)
(declare-consts <numeral> Int)
"""
ENV = {"U": "Type", "Int": "Type", "Bool": "Type", "true": "Bool", "false": "Bool", "Type": "Type"}


def curry(t):
    if isinstance(t, list):
        if t[0] == "->":
            r = curry(t[-1])
            for x in reversed(t[1:-1]):
                r = C("->", curry(x), r)
            return r
        return C(*[curry(x) for x in t])
    return t


def params(t, ps):
    if isinstance(t, str):
        return "?" + t if t in ps else t
    return ("@", params(t[1], ps), params(t[2], ps))


from mc.terms import parse
for nm, ps, ty in DECL:
    t = curry(parse(ty)[0])
    names = [x.split("!")[0] for x in ps.split()]
    kind = {x.split("!")[0]: x.split("!:")[1].replace("_", " ") if ":" in x else "Type" if x[0].isupper() else "Int" for x in ps.split()}
    sch = params(t, names)
    for x in reversed(ps.split()):
        if "!" in x:
            x = x.split("!")[0]
            sch = C("->", C("quote", "?" + x, curry(parse(kind[x])[0])), sch)
    ENV[nm] = sch
    if ps:
        PRE += "(declare-parameterized-const %s (%s) %s)\n" % (
            nm, " ".join("(%s %s%s)" % (x.split("!")[0], kind[x.split("!")[0]], "" if "!" in x else " :implicit") for x in ps.split()), ty)
    else:
        PRE += L + "%s %s)\n" % (nm, ty)
    if nm == "BitVec":
        PRE += "(declare-consts <binary> (BitVec (eo::len eo::self)))\n"
PRE += """(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-rule tt () :conclusion true)
(declare-rule conc ((F Bool)) :args (F) :conclusion F)
(declare-rule concP ((x U)) :args (x) :conclusion (P x))
(declare-rule given ((F Bool)) :args () :conclusion F :conclusion-explicit)
""".replace(":args () :conclusion F :conclusion-explicit", ":conclusion-explicit F")


def hd(t):
    while isinstance(t, tuple):
        t = t[1]
    return t


def args(t):
    r = []
    while isinstance(t, tuple):
        r.append(t[2])
        t = t[1]
    return r[::-1]


STUCK = "*stuck*"


def norm(t):
    if isinstance(t, str):
        return t
    h = hd(t)
    if h.startswith("eo::"):
        xs = [norm(x) for x in args(t)]
        if STUCK in xs:
            return STUCK
        if h == "eo::requires":
            return xs[2] if ground(xs[0]) and xs[0] == xs[1] else C(h, *xs) if not (ground(xs[0]) and ground(xs[1])) else STUCK
        if not all(x.lstrip("-").isdigit() for x in xs if isinstance(x, str)) or any(not isinstance(x, str) for x in xs):
            return C(h, *xs) if not all(ground(x) for x in xs) else STUCK
        x, y = map(int, xs)
        return {"eo::add": str(x + y), "eo::mul": str(x * y), "eo::gt": "true" if x > y else "false"}[h]
    x, y = norm(t[1]), norm(t[2])
    return STUCK if STUCK in (x, y) else ("@", x, y)


def ground(t):
    if isinstance(t, str):
        return not t.startswith("?")
    return ground(t[1]) and ground(t[2])


memo = {}


def lit(x):
    if x.lstrip("-").isdigit():
        return "Int"
    if x.startswith("#b"):
        return C("BitVec", str(len(x) - 2))
    return None


def typ(t):
    """scheme of a term, or None when it has no type"""
    if t in memo:
        return memo[t]
    if isinstance(t, str):
        r = lit(t) or ENV[t]
    elif hd(t) == "->":
        r = "Type" if all(typ(x) == "Type" for x in args(t)) else None
    else:
        r = None
        ft, at = typ(t[1]), typ(t[2])
        if ft is not None and at is not None and hd(ft) == "->":
            A, R = args(ft)
            if hd(A) == "quote":
                v, ty = args(A)
                if at == ty:
                    r = norm(subst(R, {v: t[2]}))
            else:
                s = match(A, at, {})
                if s is not None:
                    r = norm(subst(R, s))
            if r == STUCK:
                r = None
    memo[t] = r
    return r


def show(t):
    if isinstance(t, str):
        return t
    return "(%s %s)" % (hd(t), " ".join(map(show, args(t))))


ARITY = {"List": 1, "BitVec": 1, "Array": 2, "Pair": 2, "f": 1, "g": 2, "P": 1, "F2": 1, "fb": 1, "k": 3, "eq": 2, "ite": 3, "cons": 2, "select": 2,
         "store": 3, "fst": 1, "snd": 1, "mkp": 2, "map": 2, "app": 2, "comp": 2, "lst": 1, "twin": 1, "bvadd": 2, "bvcat": 2, "bvpos": 1, "bvrep": 2,
         "bvzero": 1, "cst": 2, "->": 2, "DL": 1, "dl": 1, "DF": 1, "df": 2, "DA": 2, "da": 3, "DB": 1, "db": 1}
POOL0 = ["a", "i", "true", "1", "#b1", "#b00", "f", "g", "P", "la", "lla", "lb", "arr", "arr2", "F2", "p", "fb", "U", "Bool", "List", "k", "v",
         T("(List U)"), T("(BitVec 2)"), T("(BitVec i)"), curry(parse("(-> U U)")[0])]
SMALL = ["a", "true", "1", "f", "la", "arr", "arr2", "U", "#b00", "lb", "i", "P"]
good, bad = [], []
seen = set()


def gen(heads, pool, pool3, over=True):
    for h in heads:
        n = ARITY[h]
        for k in range(1, n + 2 if over else n + 1):
            if h == "->" and k != 2:
                continue
            for xs in itertools.product(pool if k <= 2 else pool3 if k == 3 else pool3[:4], repeat=k):
                t = C(h, *xs)
                if t in seen:
                    continue
                seen.add(t)
                ty = typ(t)
                c.tr(k)
                if ty is None:
                    bad.append(t)
                else:
                    c.st(t, ty)
                    good.append((t, ty))


gen(ARITY, POOL0, SMALL)
reps = {}
for t, ty in good:
    if ground(ty):
        reps.setdefault(ty, t)
for x in POOL0:
    reps.pop(typ(x), None)
n1 = len(good), len(bad)
POOL1 = sorted(reps.values(), key=lambda t: (len(repr(t)), repr(t)))
cap = 60 if TH else 26
# one well typed term of each type, structurally smallest types first
POOL1 = POOL1[:cap]
h2 = [h for h in ARITY if h not in ("->",)]
gen(h2, POOL1 + POOL0[:6], (POOL1[:10] + SMALL[:8]) if TH else POOL1[:6] + SMALL[:3], over=False)
if TH:
    reps2 = {}
    for t, ty in good[n1[0]:]:
        if ground(ty):
            reps2.setdefault(ty, t)
    gen(h2, sorted(reps2.values(), key=lambda t: (len(repr(t)), repr(t)))[:70], SMALL[:4], over=False)
c.part("well typed applications", 0, len(good))
c.part("ill typed applications", 0, len(bad))
lines = []
for i, (t, ty) in enumerate(good):
    if not ground(ty):
        continue
    s, y = show(t), show(ty)
    e = ["(define d%d () %s :type %s)" % (i, s, y), "(declare-const o%d (eo::requires (eo::typeof %s) %s Bool))" % (i, s, y)]
    if ty == "Type":
        e.append("(declare-const c%d %s)\n(define e%d () c%d :type %s)" % (i, s, i, i, s))
        e.append("(define l%d ((x %s)) x :type (-> %s %s))" % (i, s, s, s))
    if ty == "Bool":
        e.append("(assume s%d %s)\n(step t%d %s :rule conc :args (%s))\n(step w%d %s :rule given)" % (i, s, i, s, s, i, s))
    lines.append((s + " : " + y, "\n".join(e)))
    if len(lines) % 2503 == 1:
        c.sample(lines[-1][1])
for i, t in enumerate(bad):
    lines.append((show(t) + " untyped", "(declare-const x%d (eo::requires (eo::is_ok (eo::typeof %s)) false Bool))" % (i, show(t))))
# a literal whose category has no declared type has none of the declared types: it is put in every argument
# position that asks for one, in every well typed application of the first level
nolit = set()
for t, ty in list(good):
    h, xs = hd(t), args(t)
    if len(xs) != ARITY.get(h) or any(isinstance(x, tuple) for x in xs):
        continue
    sch = ENV[h] if h != "->" else None
    for i in range(len(xs)):
        if sch is None:
            continue
        A, sch2 = args(sch)
        if hd(A) != "->" and not (isinstance(A, str) and A.startswith("?")):
            for l in ('"s"', "1.5", "1/2", "#xf"):
                nolit.add(C(h, *(xs[:i] + [l] + xs[i + 1:])))
        sch = sch2
for t in sorted(nolit, key=repr):
    c.tr()
    lines.append((show(t) + " untyped literal", "(declare-const u%d (eo::requires (eo::is_ok (eo::typeof %s)) false Bool))" % (len(lines), show(t))))
c.part("literals without a declared type", 0, len(nolit))
# all signatures over a set of argument types, applied to all pairs of base terms
AT = ["U", "Bool", "T", "S", "(List T)", "(-> T S)", "(Array T T)", "(BitVec n)"] + (["(List (List S))", "(-> S T)", "(-> U T)", "(Pair T (List S))"] if TH else [])
PRE_S = PRE
sig = []
for i, (x, y) in enumerate(itertools.product(AT, repeat=2)):
    names = [v for v in ("T", "S", "n") if v in (x + " " + y).replace("(", " ").replace(")", " ").split()]
    ret = "(Pair %s %s)" % ("T" if "T" in names else "U", "S" if "S" in names else "Bool")
    nm = "sg%d" % i
    ENV[nm] = params(curry(parse("(-> %s %s %s)" % (x, y, ret))[0]), names)
    PRE_S += ("(declare-parameterized-const %s (%s) (-> %s %s %s))\n" % (nm, " ".join("(%s %s :implicit)" % (v, "Int" if v == "n" else "Type") for v in names), x, y, ret)
              if names else "(declare-const %s (-> %s %s %s))\n" % (nm, x, y, ret))
    for u, w in itertools.product(POOL0, repeat=2):
        t = C(nm, u, w)
        ty = typ(t)
        c.tr(2)
        e = "(declare-const q%s_%d (eo::requires " % (nm, len(sig))
        if ty is None:
            sig.append((show(t) + " untyped " + x + y, e + "(eo::is_ok (eo::typeof %s)) false Bool))" % show(t)))
        elif ground(ty):
            c.st(t)
            sig.append((show(t) + " typed " + x + y, e + "(eo::typeof %s) %s Bool))" % (show(t), show(ty))))
c.part("all signatures", 0, len(sig))
cases = []
WRAP = ["(define t () (any %s) :type U)", "(assume t (anyb %s))", "(declare-const t (List (Array %s U)))", "(step t (anyb %s) :rule given)"]
step = 1
for i, t in enumerate(bad):
    s = show(t)
    cases.append(Case("ill " + s, PRE + WRAP[i % 4 if i % 4 != 2 else 0] % s + "\n", "reject"))
# ill typed terms in every position of a command
IT = [T("(f true)"), T("(g a true)"), T("(eq a true)"), T("(P la)"), T("(cons a lb)"), T("(ite a a a)"), T("(a a)"), T("(bvadd #b1 #b00)"), T("(bvpos #b1)"), T("(bvrep a #b1)"),
      T("(f a a)"), T("(List a)"), T("(BitVec true)"), T("(select arr 1)"), T("(app f true)"), T("(map f lb)"), T("(twin p)"), T("(F2 P)"), C("->", "a", "U"), C("->", "U", "a")]
DEEP = ["(define t () (eo::define ((x %s)) (any x)) :type U)", "(assume t (forall ((y U)) (anyb %s)))", "(assume t (forall ((y U)) (anyb (mkp y %s))))",
        "(assume-push t (anyb %s))(step-pop s true :rule tt)", "(step t :rule conc :args ((anyb %s)))", "(step t (anyb %s) :rule given)", "(step t true :rule tt)(step u (anyb (any %s)) :rule given)",
        "(define t ((x U)) (mkp x %s) :type (-> U (Pair U U)))", "(declare-const t (Array U (List %s)))", "(define t () (lst (lst %s)) :type U)",
        "(define t ((x %s)) x)", "(declare-datatype D ((c (s %s))))", "(declare-parameterized-const t ((x %s)) U)", "(declare-consts <string> %s)",
        "(program $p ((x %s)) :signature (U) U (((($p x)) x)))", "(declare-rule r ((x %s)) :args (x) :conclusion true)", "(declare-const t (-> U %s))", "(declare-const t (-> %s U))",
        "(program $p ((x U)) :signature (%s) U ((($p x) x)))"]
for t in IT:
    assert typ(t) is None, t
    for d in DEEP:
        cases.append(Case("ill %s in %s" % (show(t), d), PRE + d % show(t) + "\n", "reject"))
c.part("ill typed terms in command positions", 0, len(IT) * len(DEEP))
# a type annotation is accepted only for the computed type
TYS = []
for x in POOL0 + POOL1:
    if typ(x) is not None and ground(typ(x)) and typ(x) not in TYS:
        TYS.append(typ(x))
TYS.append(C("->", "U", "Bool"))
allreps = {}
for x in POOL0:
    allreps.setdefault(typ(x), x)
for x in POOL1:
    allreps.setdefault(typ(x), x)
for x in allreps.values():
    for y in TYS:
        ok = typ(x) == y
        c.tr()
        cases.append(Case("%s : %s" % (show(x), show(y)), PRE + "(define t () %s :type %s)\n" % (show(x), show(y)), "correct" if ok else "reject"))
# every slot that demands a type or a formula, for one term of each type
SLOTS = [("(declare-const t %s)", "Type"), ("(define t ((x %s)) x)", "Type"), ("(program $p ((x %s)) :signature (U) U ((($p x) x)))", "Type"),
         ("(declare-rule r ((x %s)) :args (x) :conclusion true)", "Type"), ("(declare-parameterized-const t ((x %s)) U)", "Type"),
         ("(assume t (forall ((x %s)) true))", "Type"), ("(declare-datatype D ((c (s %s))))", "Type"), ("(declare-consts <string> %s)", "Type"),
         ("(program $p ((x U)) :signature (%s) U ((($p x) x)))", "Type"), ("(program $p ((x U)) :signature (U) %s ((($p x) x)))", "Type"), ("(declare-const t (-> U %s U))", "Type"), ("(declare-const t (-> U %s))", "Type"),
         ("(assume t %s)", "Bool"), ("(assume-push t %s)(declare-rule q ((F Bool)) :assumption F :conclusion true)(step-pop s :rule q)", None), ("(step t :rule conc :args (%s))", "Bool"),
         ("(step t %s :rule given)", "Bool"), ("(assume t (forall ((x U)) %s))", "Bool"), ("(step t (P %s) :rule given)", "U"), ("(step t :rule concP :args (%s))", "U")]
for x in allreps.values():
    for sl, ty in SLOTS:
        if ty is None:
            sl, ty, pre = "(assume-push t %s)(step-pop s :rule q)", "Bool", "(declare-rule q ((F Bool)) :assumption F :conclusion true)\n"
        else:
            pre = ""
        c.tr()
        cases.append(Case(sl % show(x), PRE + pre + sl % show(x) + "\n", "correct" if typ(x) == ty else "reject"))
c.part("annotations and slots", 0, len(allreps) * (len(TYS) + len(SLOTS)))
# reference files: assertions must be formulas as well
for x in allreps.values():
    s = show(x)
    cases.append(Case("assert " + s, files={"s.eo": PRE, "r.smt2": "(assert %s)\n" % s, "c.eo": '(include "s.eo")\n(reference "r.smt2")\n'},
                      argv=["c.eo"], expect="correct" if typ(x) == "Bool" else "reject"))
# scope: the type of a parameter or bound variable is the declared one
for x in ("U", "Bool", "Int", "(List U)", "(-> U U)"):
    for y in ("U", "Bool", "Int", "(List U)", "(-> U U)"):
        e = "correct" if x == y else "reject"
        cases.append(Case("param %s %s" % (x, y), PRE + "(define t ((x %s)) x :type (-> %s %s))\n" % (x, x, y), e))
        cases.append(Case("bound %s %s" % (x, y), PRE + "(declare-const q (-> %s Bool))\n(assume t (forall ((z Int) (x %s) (w V)) (q x)))\n" % (y, x), e))
        cases.append(Case("let %s %s" % (x, y), PRE + "(declare-const q (-> %s Bool))\n(declare-const d %s)\n(assume t (eo::define ((x d)) (q x)))\n" % (y, x), e))
        cases.append(Case("scope %s %s" % (x, y), PRE + "(declare-const q (-> %s Bool))\n(push)\n(declare-const d %s)\n(pop)\n(declare-const d %s)\n(assume t (q d))\n" % (y, y, x), e))
# operations that do not evaluate before the parameters are known: the type of
# the definition is the one that the operation has for all arguments
PRE_O = "(declare-const Int Type)(declare-const Rat Type)(declare-const Str Type)(declare-const U Type)(declare-const u U)(declare-const f (-> Int Int))(declare-const pl (-> eo::List Bool))\n" \
    "(declare-consts <numeral> Int)(declare-consts <rational> Rat)(declare-consts <string> Str)\n"
OPT = ["Int", "Rat", "Str", "Bool", "eo::List", "U", "Type"]
LL = "eo::List"
OPS = [(o, (t, t), t) for o in ("add", "mul") for t in ("Int", "Rat")] + [("neg", (t,), t) for t in ("Int", "Rat")]
OPS += [(o, ("Bool", "Bool"), "Bool") for o in ("and", "or", "xor")] + [("not", ("Bool",), "Bool")]
OPS += [("ite", ("Bool", t, t), t) for t in OPT] + [("requires", (t, t, r), r) for t in ("Int", "U") for r in OPT]
OPS += [(o, (t,), "Bool") for o in ("is_ok", "is_z", "is_q", "is_bin", "is_str", "is_bool", "is_var", "is_neg") for t in OPT]
OPS += [(o, (t, t), "Bool") for o in ("is_eq", "cmp") for t in OPT] + [("gt", ("Int", "Int"), "Bool"), ("gt", ("Rat", "Rat"), "Bool")]
OPS += [("hash", (t,), "Int") for t in OPT] + [("to_z", (t,), "Int") for t in ("Int", "Rat", "Str")] + [("to_q", (t,), "Rat") for t in ("Int", "Rat")]
OPS += [("to_str", ("Int",), "Str"), ("len", ("Str",), "Int"), ("concat", ("Str", "Str"), "Str"), ("extract", ("Str", "Int", "Int"), "Str"), ("find", ("Str", "Str"), "Int")]
OPS += [("zdiv", ("Int", "Int"), "Int"), ("zmod", ("Int", "Int"), "Int"), ("qdiv", ("Rat", "Rat"), "Rat"), ("nameof", ("U",), "Str"), ("typeof", ("U",), "Type")]
OPS += [("cons eo::List::cons", (t, LL), LL) for t in OPT if t != "Type"]
OPS += [("list_len eo::List::cons", (LL,), "Int"), ("list_concat eo::List::cons", (LL, LL), LL), ("list_rev eo::List::cons", (LL,), LL), ("list_setof eo::List::cons", (LL,), LL),
        ("list_minclude eo::List::cons", (LL, LL), "Bool"), ("list_meq eo::List::cons", (LL, LL), "Bool"), ("list_diff eo::List::cons", (LL, LL), LL), ("list_inter eo::List::cons", (LL, LL), LL)]
OPS += [("list_%s eo::List::cons" % o, (LL, t), r) for t in OPT if t != "Type" for o, r in (("find", "Int"), ("erase", LL), ("erase_all", LL))]
byt = {}
for n, (o, ts, r) in enumerate(OPS):
    vs = ["x%d" % k for k in range(len(ts))]
    byt.setdefault(r, []).append((n, "(eo::%s %s)" % (o, " ".join(vs)), list(zip(vs, ts))))


def opcase(body, ps, r):
    for y in OPT:
        c.st(("op", body, r, y))
        c.tr()
        cases.append(Case("op %s %s : %s" % (body, ps, y), PRE_O + "(define m (%s) %s :type (-> %s %s))\n" % (
            " ".join("(%s %s)" % x for x in ps), body, " ".join(x[1] for x in ps), y), "correct" if y == r else "reject"))


OPD = 0
for o, ts, r in OPS:
    vs = ["x%d" % k for k in range(len(ts))]
    opcase("(eo::%s %s)" % (o, " ".join(vs)), list(zip(vs, ts)), r)
    for k, t in enumerate(ts):
        for n, b, ps in (byt.get(t, []) if TH else byt.get(t, [])[OPD % 3::5]):
            OPD += 1
            b = b.replace("x", "y")
            for nm in ("extract", "hash", "xor", "concat"):
                b = b.replace(nm.replace("x", "y"), nm)
            args = vs[:k] + [b] + vs[k + 1:]
            opcase("(eo::%s %s)" % (o, " ".join(args)), [(v, w) for v, w in zip(vs, ts) if v != vs[k]] + [(v.replace("x", "y"), w) for v, w in ps], r)
c.part("types of unevaluated operations", len(OPS) * len(OPT), len(OPS) * len(OPT))
c.bounds.append("%d operations with parameters as arguments, alone and nested, against %d types" % (len(OPS), len(OPT)))
c.bounds.append("%d heads; arguments from %d base terms (all tuples, arity+1) and %d well typed compound terms of pairwise different types" % (len(ARITY), len(POOL0), len(POOL1)))
if __name__ == "__main__":
    print(len(good), len(bad), len(POOL1), len(cases), n1)
    c.positive(PRE, lines, chunk=400)
    c.positive(PRE_S, sig, chunk=700)
    c.run(cases)
    scale.run(c)
    c.finish()
