"""P22: dependent signatures. Model: type and terminator expressions are trees
over the parameters; an application is judged by matching the argument types,
substituting and evaluating with the mathematical meaning of the operators.
All expressions of a bounded grammar, all argument widths (numerals and
symbolic ones), all annotations and argument counts, directly and through
macros, programs, rules and quantified parameters."""
import itertools
from mc import engine
from mc import scale
from mc.engine import Case

c = engine.Check("P22")
TH = c.thorough
DEEP = True
last = [0, 0, 0]


def part(name):
    c.part(name, 0, 0)
    n = len(c.seen)
    c.parts[name] = dict(states=n - last[0], transitions=c.transitions - last[1], traces=c.traces - last[2])
    last[:] = [n, c.transitions, c.traces]


W = [0, 1, 2, 3] + ([4, 5, 17] if TH else [])  # widths
SYM = ["k", "j"]          # widths that are constants without a value
PRE = """(declare-const U Type)
(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const Rat Type)
(declare-consts <rational> Rat)
(declare-const BitVec (-> Int Type))
(declare-const Mat (-> Int Int Type))
(declare-const Seq (-> Type Type))
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-const k Int)
(declare-const j Int)
(declare-const a U)
(declare-const P (-> Bool Bool))
(declare-parameterized-const is ((T Type :implicit)) (-> T Bool))
(declare-parameterized-const eq ((T Type :implicit)) (-> T T Bool))
(define bvzero ((m Int)) (eo::to_bin m 0))
(program $ty ((n Int) (m Int)) :signature (Int Int) Type ((($ty n n) (BitVec n)) (($ty 1 m) U) (($ty n 1) (Seq (BitVec n)))))
(program $wd ((n Int)) :signature (Int) Int ((($wd 0) 0) (($wd n) (eo::add 2 ($wd (eo::add n -1))))))
(program $zero ((m Int)) :signature (Int) (BitVec m) ((($zero 0) (eo::to_bin 0 0)) (($zero 2) #b10) (($zero 3) (eo::concat #b1 ($zero 2)))))
(declare-parameterized-const zeroOf ((m Int)) (BitVec m))
(declare-parameterized-const anyOf ((m Int :implicit)) (BitVec m))
(declare-parameterized-const seq.empty ((T Type :implicit)) (Seq T))
(declare-parameterized-const mzero ((n Int) (m Int)) (Mat n m))
(program $nil ((T Type)) :signature (Type) T ((($nil Bool) false) (($nil Int) 0) (($nil (Seq T)) (as seq.empty (Seq T)))))
"""
for w in W + SYM:
    PRE += "".join("(declare-const %s%s (BitVec %s))\n" % (p, w, w) for p in "xyz")
for w in W + SYM[:1]:
    for w2 in W + SYM[:1]:
        PRE += "(declare-const m%s_%s (Mat %s %s))\n" % (w, w2, w, w2)


class Stuck(Exception):
    pass


def num(x):
    if not isinstance(x, int) or isinstance(x, bool):
        raise Stuck
    return x


def ev(e, s):
    """value of a width/condition/type expression: int, bool, str (symbol) or
    tuple (a constructed type)"""
    if not isinstance(e, tuple):
        return s.get(e, e) if isinstance(e, str) else e
    h = e[0]
    if h == "ite":
        b = ev(e[1], s)
        if b is True:
            return ev(e[2], s)
        if b is False:
            return ev(e[3], s)
        raise Stuck
    if h == "requires":
        if ev(e[1], s) != ev(e[2], s) or type(ev(e[1], s)) != type(ev(e[2], s)):
            raise Stuck
        return ev(e[3], s)
    xs = [ev(x, s) for x in e[1:]]
    if h == "add":
        return num(xs[0]) + num(xs[1])
    if h == "mul":
        return num(xs[0]) * num(xs[1])
    if h == "neg":
        return -num(xs[0])
    if h == "zdiv" or h == "zmod":
        x, y = num(xs[0]), num(xs[1])
        if y == 0 or x < 0 or y < 0:
            if y == 0:
                raise Stuck
            q = x // y if y > 0 else -(x // -y)
            return q if h == "zdiv" else x - q * y
        return x // y if h == "zdiv" else x % y
    if h == "gt":
        return num(xs[0]) > num(xs[1])
    if h == "is_neg":
        return num(xs[0]) < 0
    if h == "is_eq":
        return xs[0] == xs[1]
    if h == "$wd":
        if num(xs[0]) < 0:
            raise Stuck  # does not terminate: never generated
        return 2 * xs[0]
    if h == "$ty":
        n, m = xs
        if n == m:
            return ("BitVec", n)
        if n == 1:
            return "U"
        if m == 1:
            return ("Seq", ("BitVec", n))
        raise Stuck
    return (h,) + tuple(xs)


def hasvar(e):
    return e in ("n", "m") if not isinstance(e, tuple) else any(hasvar(x) for x in e[1:])


OPS = {"add", "mul", "neg", "zdiv", "zmod", "gt", "is_neg", "is_eq", "ite", "requires"}


def tx(e):
    if isinstance(e, bool):
        return "true" if e else "false"
    if not isinstance(e, tuple):
        return str(e)
    return "(%s%s %s)" % ("eo::" if e[0] in OPS else "", e[0], " ".join(tx(x) for x in e[1:]))


def val(e, s):
    try:
        return ev(e, s)
    except Stuck:
        return None


cnt = 0
lines = []


def obs(l, r):
    global cnt
    cnt += 1
    c.tr()
    return "(declare-const o%d (eo::requires %s %s Bool))" % (cnt, l, r)


def good(l):
    return "(eo::is_ok %s)" % l


# ------------------------------------------------------ A. computed types
def widths(leaves):
    out = list(leaves)
    out += [(o, x, y) for o in ("add", "mul", "zdiv", "zmod") for x in leaves for y in leaves]
    out += [("neg", x) for x in leaves] + [("$wd", x) for x in leaves]
    return out


SHAPES = [  # name, parameters, argument types, parameters bound by each argument
    ("nm", "(n Int :implicit) (m Int :implicit)", [("BitVec", "n"), ("BitVec", "m")]),
    ("nn", "(n Int :implicit)", [("BitVec", "n"), ("BitVec", "n")]),
    ("en", "(m Int) (n Int :implicit)", ["#m", ("BitVec", "n")]),
    ("ne", "(n Int :implicit) (x (BitVec n)) (m Int)", [("BitVec", "n"), "#m"]),
    ("ee", "(n Int) (m Int)", ["#n", "#m"]),
    ("mat", "(n Int :implicit) (m Int :implicit)", [("Mat", "n", "m")]),
    ("matx", "(n Int :implicit) (m Int :implicit)", [("Mat", "n", "m"), ("BitVec", "m")]),
]


def declare(f, shape, ret):
    nm, ps, ats = shape
    if nm == "ne":
        return "(declare-parameterized-const %s (%s) %s)" % (f, ps, tx(ret))
    ex = [t for t in ats if not isinstance(t, str)]
    return "(declare-parameterized-const %s (%s) %s)" % (f, ps, "(-> %s %s)" % (" ".join(map(tx, ex)), tx(ret)) if ex else tx(ret))


def calls(shape, ws):
    """(argument texts, environment or None when ill typed)"""
    nm, _, ats = shape
    if nm == "mat":
        for n, m in itertools.product(W[:4] + ["k"], repeat=2):
            yield ["m%s_%s" % (n, m)], {"n": n, "m": m}
        return
    if nm == "matx":
        for n, m, m2 in itertools.product((1, 2, "k"), repeat=3):
            yield ["m%s_%s" % (n, m), "x%s" % m2], {"n": n, "m": m} if m == m2 else None
        return
    for v in itertools.product(ws, repeat=2):
        env, txts, okk = {}, [], True
        for t, w, p in zip(ats, v, "xy"):
            key = t[1]
            okk = okk and env.setdefault(key, w) == w
            txts.append(str(w) if isinstance(t, str) else "%s%s" % (p, w))
        yield txts, env if okk else None


def types(leaves, deep):
    ws = widths(leaves)
    out = [("BitVec", w) for w in ws]
    if deep:
        out += [("BitVec", (o, w, x)) for o in (("add", "zdiv", "mul", "zmod") if TH else ("add", "zdiv")) for w in widths(leaves if TH else leaves[:2]) if isinstance(w, tuple) for x in (leaves[1], 1)]
    else:
        out += [("BitVec", ("add", w, leaves[1])) for w in ws if isinstance(w, tuple)]
    conds = [(o, x, y) for o in ("gt", "is_eq") for x in leaves for y in leaves]
    out += [("requires", k, b, ("BitVec", leaves[1])) for k in conds for b in (True, False)]
    out += [("requires", x, y, ("BitVec", ("add", x, y))) for x in leaves for y in leaves]
    out += [("requires", ("add", leaves[0], leaves[1]), y, z) for y in (2, 4) for z in ("U", ("Seq", ("BitVec", leaves[0])))]
    out += [("ite", k, x, y) for k in (conds if deep else conds[::2]) for x, y in
            [(("BitVec", leaves[0]), ("BitVec", leaves[1])), (("BitVec", ("zdiv", leaves[0], 0)), "U"), ("U", ("BitVec", ("zdiv", 1, leaves[1]))), (("requires", leaves[0], leaves[1], "U"), ("BitVec", 1))]]
    out += [("BitVec", ("ite", k, x, y)) for k in conds for x, y in [(leaves[0], leaves[1]), (1, ("add", leaves[0], 1))]]
    out += [("Mat", x, y) for x in leaves[:2] for y in ws] + [("Seq", ("BitVec", w)) for w in ws] + [("$ty", x, y) for x in ws[:12] for y in leaves] + [("Seq", ("$ty", x, y)) for x in leaves for y in leaves]
    out += [("->", ("BitVec", w), ("BitVec", leaves[0])) for w in ws]
    return out


MACROV = {"nm": "(n Int) (m Int) (p (BitVec n)) (q (BitVec m))", "nn": "(n Int) (p (BitVec n)) (q (BitVec n))", "mat": "(n Int) (m Int) (p (Mat n m))",
          "en": "(m Int) (p Int) (n Int) (q (BitVec n))", "ne": "(n Int) (p (BitVec n)) (q Int)", "ee": "(p Int) (q Int)", "matx": "(n Int) (m Int) (p (Mat n m)) (q (BitVec m))"}
fid = 0
for shape in SHAPES:
    leaves = ["n", 2] if shape[0] == "nn" else ["n", "m", 0, 2] if DEEP or shape[0] in ("nm",) else ["n", "m", 2]
    T = types(leaves, DEEP)
    for ret in T:
        if not hasvar(ret) and val(ret, {}) is None:
            continue  # rejected or not at the declaration: not an instance
        fid += 1
        f = "f%d" % fid
        g = [declare(f, shape, ret)]
        c.st((shape[0], ret))
        ws = (W if DEEP else [0, 1, 2]) + SYM
        cs = list(calls(shape, ws))
        # the same application inside a program whose parameters stand for the arguments
        g.append("(program $p%d (%s) :signature (%s) Type ((($p%d %s) (eo::typeof (%s %s)))))" % (
            fid, MACROV[shape[0]].replace("(p ", "(p ").replace(" :implicit", ""),
            " ".join("Int" if isinstance(t, str) else tx(t) for t in shape[2]), fid, "p q" if len(shape[2]) == 2 else "p", f, "p q" if len(shape[2]) == 2 else "p"))
        for q, (args, env) in enumerate(cs):
            app = "(%s %s)" % (f, " ".join(args))
            t = None if env is None else val(ret, env)
            c.st((shape[0], ret, tuple(args)))
            if t is None:
                g.append(obs(good("(eo::typeof %s)" % app), "false"))
                g.append(obs(good("(eo::typeof (is %s))" % app), "false"))
            else:
                g.append(obs("(eo::typeof %s)" % app, tx(t)))
                g.append(obs("(eo::typeof (is %s))" % app, "Bool"))
                if not (isinstance(t, tuple) and t[0] == "->"):
                    g.append("(define d%d_%d () %s :type %s)" % (fid, q, app, tx(t)))
            if q % 3 == 0 or DEEP:
                pr = "($p%d %s)" % (fid, " ".join(args))
                g.append(obs(pr, tx(t)) if t is not None else obs(good(pr), "false"))
        lines.append(("type/%s" % g[0], "\n".join(g)))
c.sample(lines[-1][1][:1500])
c.positive(PRE, lines, chunk=20)
part("computed types")

# where a type is needed, an application whose type does not evaluate is rejected
cs = []
REP = [("BitVec", ("zdiv", "n", "m")), ("requires", ("gt", "n", "m"), True, ("BitVec", "n")), ("ite", ("gt", "n", "m"), "U", ("BitVec", ("zdiv", 1, "m"))), ("$ty", "n", "m"), ("Seq", ("BitVec", ("add", "n", "m"))), ("BitVec", ("add", "n", 1))]
SLOTS = [("define-type", "(define d () %A% :type %T%)"), ("assume", "(assume h (is %A%))"), ("assume-eq", "(assume h (eq %A% %A%))"), ("step", "(declare-rule r ((F Bool)) :args (F) :conclusion F)\n(step s (is %A%) :rule r :args ((is %A%)))"),
         ("conclusion", "(declare-rule r ((T Type) (F T)) :args (F) :conclusion (is F))\n(step s (is %A%) :rule r :args (%A%))"),
         ("as-type", "(declare-const e (eo::typeof %A%))"), ("let", "(define d () (eo::define ((v %A%)) (is v)) :type Bool)"), ("arrow", "(declare-const e (-> (eo::typeof %A%) Bool))\n(define d () (e %A%) :type Bool)"),
         ]
for shape in SHAPES[:2] + SHAPES[5:6]:
    for ret in REP:
        if shape[0] == "nn":
            ret = eval(repr(ret).replace("'m'", "2"))
        for args, env in calls(shape, W[:3] + ["k"]):
            t = None if env is None else val(ret, env)
            app = "(f %s)" % " ".join(args)
            for sn, s in SLOTS:
                c.st(("slot", sn, ret, tuple(args)))
                c.tr()
                cs.append(Case("slot/%s/%s/%s" % (sn, tx(ret), app), PRE + declare("f", shape, ret) + "\n" + s.replace("%A%", app).replace("%T%", tx(t) if t is not None else "(eo::typeof %s)" % app) + "\n",
                               "reject" if t is None else "correct"))
c.run(cs)
part("slots that need a type")


# --------------------------------------------------- B. dependent terminators
def zeros(w, v):
    return "#b" + format(v % (1 << w), "b").zfill(w)[-w:] if w else None


def nil_zero(w):
    return ("ok", bv(w, 0))


def bv(w, v):
    return "(eo::to_bin 0 0)" if w == 0 else "#b" + format(v % (1 << w), "0%db" % w)


# name, text over m, value for a width (None: does not evaluate; '?': accepted but stuck, not judged)
NILS = [("tb0", "(eo::to_bin m 0)", lambda w: bv(w, 0) if isinstance(w, int) else None),
        ("tb1", "(eo::to_bin m 1)", lambda w: bv(w, 1) if isinstance(w, int) else None),
        ("tbm", "(eo::to_bin m m)", lambda w: bv(w, w) if isinstance(w, int) else None),
        ("mac", "(bvzero m)", lambda w: bv(w, 0) if isinstance(w, int) else None),
        ("prog", "($zero m)", lambda w: {0: "(eo::to_bin 0 0)", 2: "#b10", 3: "#b110"}.get(w, "?")),
        ("zof", "(zeroOf m)", lambda w: "(zeroOf %s)" % w),
        ("zof2", "(zeroOf (eo::mul 1 m))", lambda w: "(zeroOf %s)" % w if isinstance(w, int) else None),
        ("amb", "(as anyOf (BitVec m))", lambda w: "(as anyOf (BitVec %s))" % w),
        ("ite", "(eo::ite (eo::is_eq m 2) #b01 (zeroOf m))", lambda w: "#b01" if w == 2 else "(zeroOf %s)" % w),
        ("req", "(eo::requires (eo::is_eq m 1) false (zeroOf m))", lambda w: "?" if w == 1 else "(zeroOf %s)" % w),
        ("gnd", "x2", None)]
ATTR = [("rn", ":right-assoc-nil"), ("ln", ":left-assoc-nil"), ("rs", ":right-assoc-non-singleton-nil"), ("ls", ":left-assoc-non-singleton-nil")]
lines = []


def build(f, at, xs, nil):
    """explicit text of (f xs...)"""
    if at in ("rs", "ls") and len(xs) == 1:
        return xs[0]
    if at in ("rs", "rn"):
        r = nil
        for x in reversed(xs):
            r = "(_ %s %s %s)" % (f, x, r)
        return r
    r = nil
    for x in xs:
        r = "(_ %s %s %s)" % (f, r, x)
    return r


def universe():
    """(kind, param decl, type text, instances [(env text, arg texts, type, key)], terminators)"""
    yield "bv", "(m Int :implicit)", "(BitVec m)", "(m Int)", [(w, ["%s%s" % (p, w) for p in "xyz"], "(BitVec %s)" % w) for w in W + SYM], NILS[:-1]
    yield "seq", "(T Type :implicit)", "(Seq T)", "(T Type)", [(t, ["s%s" % k, "t%s" % k], "(Seq %s)" % t) for k, t in enumerate(["U", "Int", "(BitVec 2)", "(Seq U)", "(BitVec k)"])], [
        ("emp", "(as seq.empty (Seq T))", lambda t: "(as seq.empty (Seq %s))" % t), ("prog", "($nil (Seq T))", lambda t: "(as seq.empty (Seq %s))" % t)]
    yield "any", "(T Type :implicit)", "T", "(T Type)", [("Bool", ["true", "p1"], "Bool"), ("Int", ["3", "k", "(eo::add 1 1)"], "Int"), ("(Seq U)", ["s0", "t0"], "(Seq U)"), ("U", ["a"], "U")], [
        ("prog", "($nil T)", lambda t: {"Bool": "false", "Int": "0", "(Seq U)": "(as seq.empty (Seq U))"}.get(t, "?"))]
    yield "mat", "(n Int :implicit) (m Int :implicit)", "(Mat n m)", "(n Int) (m Int)", [((x, y), ["m%s_%s" % (x, y)], "(Mat %s %s)" % (x, y)) for x in (0, 1, 2, "k") for y in (0, 1, 2, "k")], [
        ("mz", "(mzero n m)", lambda v: "(mzero %s %s)" % v), ("ms", "(eo::ite (eo::is_eq n m) (mzero n n) (mzero n m))", lambda v: "(mzero %s %s)" % v),
        ("mr", "(mzero (eo::add 0 n) m)", lambda v: "(mzero %s %s)" % v if isinstance(v[0], int) else None)]


PRE2 = PRE + "(declare-const p1 Bool)\n" + "".join("(declare-const s%d (Seq %s))\n(declare-const t%d (Seq %s))\n" % (k, t, k, t) for k, t in enumerate(["U", "Int", "(BitVec 2)", "(Seq U)", "(BitVec k)"]))
oid = 0
illc = []
for kind, pdecl, ptype, pvars, insts, nils in universe():
    for nn, ntext, nval in nils:
        for at, attr in ATTR:
            oid += 1
            f = "g%d" % oid
            g = ["(declare-parameterized-const %s (%s) (-> %s %s %s) %s %s)" % (f, pdecl, ptype, ptype, ptype, attr, ntext)]
            c.st(("nil", kind, nn, at))
            # through macro and program parameters of non-ground type
            for n in (1, 2, 3):
                vs = ["v%d" % q for q in range(n)]
                g.append("(define mac%d_%d (%s %s) (%s %s))" % (oid, n, pvars.replace("(m Int)", "(m Int)"), " ".join("(%s %s)" % (v, ptype) for v in vs), f, " ".join(vs)))
                g.append("(program $prg%d_%d (%s %s) :signature (%s) %s ((($prg%d_%d %s) (%s %s))))" % (oid, n, pvars, " ".join("(%s %s)" % (v, ptype) for v in vs), " ".join([ptype] * n), ptype, oid, n, " ".join(vs), f, " ".join(vs)))
            # list parameters
            lp, lx = ("(v0 %s) (v1 %s :list)", "v0 v1") if at[0] == "r" else ("(v1 %s :list) (v0 %s)", "v1 v0")
            NSG = at[1] == "s"
            if not NSG: g.append("(define lst%d (%s %s) (%s %s))" % (oid, pvars, lp % (ptype, ptype), f, lx))
            lp2, lx2 = ("(v1 %s :list) (v0 %s)", "v1 v0") if at[0] == "r" else ("(v0 %s) (v1 %s :list)", "v0 v1")
            if not NSG: g.append("(define lsc%d (%s %s) (%s %s))" % (oid, pvars, lp2 % (ptype, ptype), f, lx2))
            if not NSG: g.append("(program $tail%d (%s (v0 %s) (v1 %s :list)) :signature (%s) %s ((($tail%d (%s %s)) v1)))" % (oid, pvars, ptype, ptype, ptype, ptype, oid, f, lx))
            for key, args, ty in insts:
                nv = nval(key)
                if nv == "?":
                    g.append(obs(good("(eo::nil %s %s)" % (f, ty)), "false"))
                    continue
                if nv is None:
                    g.append(obs(good("(eo::nil %s %s)" % (f, ty)), "false"))
                    for n in (1, 2):
                        if at in ("rs", "ls") and n == 1:
                            continue
                        xs = (args * 2)[:n]
                        g.append(obs(good("(eo::typeof (%s %s))" % (f, " ".join(xs))), "false"))
                    continue
                g.append(obs("(eo::nil %s %s)" % (f, ty), nv))
                g.append(obs("(eo::nil %s (eo::typeof %s))" % (f, args[0]), nv))
                ex = [e for e in args]
                pkey = key if isinstance(key, tuple) else (key,)
                pk = " ".join(map(str, pkey))
                combos = [xs for n in (1, 2, 3, 4) for xs in itertools.product(ex[:2], repeat=n)]
                for xs in combos:
                    xs = list(xs)
                    want = build(f, at, xs, nv)
                    c.st(("nil", kind, nn, at, key, tuple(xs)))
                    app = "(%s %s)" % (f, " ".join(xs))
                    g.append(obs(app, want))
                    if len(xs) <= 2:
                        g.append(obs("(eo::typeof %s)" % app, ty))
                    n = len(xs)
                    if n <= 3:
                        g.append(obs("(mac%d_%d %s %s)" % (oid, n, pk, " ".join(xs)), want))
                        g.append(obs("($prg%d_%d %s)" % (oid, n, " ".join(xs)), want))
                    if n <= 3:
                        # lists built and taken apart
                        el = build(f, at[0] + "n", xs, nv)
                        g.append(obs("(eo::list_len %s %s)" % (f, el), str(n)))
                        tl = build(f, at[0] + "n", xs[1:] if at[0] == "r" else xs[:-1], nv)
                        hd = xs[0] if at[0] == "r" else xs[-1]
                        g.append(obs("(eo::cons %s %s %s)" % (f, hd, tl), el))
                        if not NSG: g.append(obs("($tail%d %s)" % (oid, el), tl))
                        if not NSG: g.append(obs("(lst%d %s %s %s)" % (oid, pk, *((hd, tl) if at[0] == "r" else (tl, hd))), el))
                        e2 = build(f, at[0] + "n", xs + xs, nv)
                        g.append(obs("(eo::list_concat %s %s %s)" % (f, el, el), e2))
                        w3 = build(f, at[0] + "n", xs + [ex[0]] if at[0] == "r" else [ex[0]] + xs, nv)
                        if not NSG: g.append(obs("(lsc%d %s %s %s)" % (oid, pk, *((el, ex[0]) if at[0] == "r" else (ex[0], el))), w3))
                        for q in range(n):
                            g.append(obs("(eo::list_nth %s %s %d)" % (f, el, q), xs[q] if at[0] == "r" else xs[n - 1 - q]))
                # arguments of another instance
                for key2, args2, ty2 in insts:
                    if key2 == key:
                        continue
                    app = "(%s %s %s)" % (f, args[0], args2[0])
                    g.append(obs(good("(eo::typeof %s)" % app), "false"))
                    # the terminator of another instance does not end a list of this one
                    n2 = nval(key2)
                    if n2 not in (None, "?") and n2 != nv:
                        g.append(obs(good("(eo::list_len %s %s)" % (f, build(f, at[0] + "n", [args[0]], n2))), "false"))
            g.append(obs(good("(eo::nil %s U)" % f), "true" if kind == "any" and nval("U") not in (None, "?") else "false"))
            lines.append(("nil/%s" % g[0], "\n".join(g)))
c.sample(lines[3][1][:1500])
c.positive(PRE2, lines, chunk=1, timeout=60)
part("dependent terminators")

# ------------------------------- C. nested terms over a bit-vector signature
BV = PRE + """(declare-parameterized-const cat ((n Int :implicit) (m Int :implicit)) (-> (BitVec n) (BitVec m) (BitVec (eo::add n m))))
(declare-parameterized-const catn ((n Int :implicit) (m Int :implicit)) (-> (BitVec n) (BitVec m) (BitVec (eo::add n m))) :right-assoc-nil (eo::to_bin 0 0))
(declare-parameterized-const ext ((h Int) (l Int) (n Int :implicit)) (-> (BitVec n) (eo::requires (eo::gt n h) true (eo::requires (eo::gt l h) false (eo::requires (eo::is_neg l) false (BitVec (eo::add h (eo::neg l) 1)))))))
(declare-parameterized-const rep ((i Int) (n Int :implicit)) (-> (BitVec n) (eo::requires (eo::gt i 0) true (BitVec (eo::mul i n)))))
(declare-parameterized-const zxt ((i Int) (n Int :implicit)) (-> (BitVec n) (eo::requires (eo::is_neg i) false (BitVec (eo::add n i)))))
(declare-parameterized-const cmp ((n Int :implicit)) (-> (BitVec n) (BitVec n) (BitVec 1)))
(declare-parameterized-const bvor ((n Int :implicit)) (-> (BitVec n) (BitVec n) (BitVec n)) :right-assoc-nil (eo::to_bin n 0))
(declare-parameterized-const bvult ((n Int :implicit)) (-> (BitVec n) (BitVec n) Bool))
(declare-parameterized-const half ((n Int :implicit)) (-> (BitVec n) (eo::requires (eo::zmod n 2) 0 (BitVec (eo::zdiv n 2)))))
(declare-parameterized-const tow ((w Int) (n Int :implicit)) (-> (BitVec n) (eo::ite (eo::gt w n) (BitVec w) (BitVec n))))
"""
BV += "(program $width ((n Int)) :signature (Type) Int ((($width (BitVec n)) n)))\n"
LEAF = [("x1", 1), ("y1", 1), ("x2", 2), ("x3", 3), ("#b01", 2), ("x0", 0), ("xk", "k")]


def apps(pool):
    """(text, width or None) of every application to terms of the pool"""
    def I(f):
        try:
            return f()
        except Stuck:
            return None
    for t, w in pool:
        for h, l in itertools.product((0, 1, 2, 3), (-1, 0, 1, 2)):
            yield "(ext %d %d %s)" % (h, l, t), (h - l + 1 if isinstance(w, int) and w > h and l <= h and l >= 0 else None)
        for i in (-1, 0, 1, 2):
            yield "(rep %d %s)" % (i, t), (i * w if isinstance(w, int) and i > 0 else None)
            yield "(zxt %d %s)" % (i, t), (i + w if isinstance(w, int) and i >= 0 else None)
            yield "(tow %d %s)" % (i, t), (max(i, w) if isinstance(w, int) else None)
        yield "(half %s)" % t, (w // 2 if isinstance(w, int) and w % 2 == 0 else None)
    for (t, w), (t2, w2) in itertools.product(pool, repeat=2):
        n = isinstance(w, int) and isinstance(w2, int)
        yield "(cat %s %s)" % (t, t2), (w + w2 if n else None)
        yield "(catn %s %s)" % (t, t2), (w + w2 if n else None)
        yield "(cmp %s %s)" % (t, t2), (1 if w == w2 else None)
        yield "(bvor %s %s)" % (t, t2), (w if w == w2 and n else None)
        yield "(bvult %s %s)" % (t, t2), ("Bool" if w == w2 else None)


def wty(w):
    return w if w == "Bool" else "(BitVec %s)" % w


lines = []
l1 = list(apps(LEAF))
seen, POOL = set(), list(LEAF)
for t, w in l1:
    c.st(("bv", t))
    k = (t.split()[0], w)
    if w is not None and w != "Bool" and (k not in seen or DEEP and len(POOL) < 60):
        seen.add(k)
        POOL.append((t, w))
l2 = list(apps(POOL))
POOLX = [(t, None) for t, w in l1 if w is None][::9]
for t, w in l1 + l2:
    lines.append((t, obs("(eo::typeof %s)" % t, wty(w)) if w is not None else obs(good("(eo::typeof %s)" % t), "false")))
    c.st(("bv", t))
for t, _ in POOLX:
    for u in ("(cmp %s %s)" % (t, t), "(cat x1 %s)" % t, "(is (rep 1 %s))" % t, "(bvult %s %s)" % (t, t), "(is %s)" % t):
        lines.append((u, obs(good("(eo::typeof %s)" % u), "false")))
c.positive(BV, lines, chunk=300)
part("nested bit-vector terms")

# ------------------------------------------------ D. rules over widths
RULES = [  # parameters, arguments, conclusion text over x y n m, its meaning
    ("(n Int) (x (BitVec n)) (y (BitVec n))", "x y", "(eq (bvor x y) (bvor y x))", lambda w, v: w == v and isinstance(w, int), lambda x, y, w, v: "(eq (_ bvor {0} (_ bvor {1} {2})) (_ bvor {1} (_ bvor {0} {2})))".format(x, y, bv(w, 0))),
    ("(n Int) (m Int) (x (BitVec n)) (y (BitVec m))", "x y", "(eq (cat x y) (cat x y))", lambda w, v: isinstance(w, int) and isinstance(v, int), lambda x, y, w, v: "(eq (_ cat {0} {1}) (_ cat {0} {1}))".format(x, y)),
    ("(n Int) (m Int) (x (BitVec n)) (y (BitVec m))", "x y", "(is (catn x y))", lambda w, v: isinstance(w, int) and isinstance(v, int), lambda x, y, w, v: "(is (_ catn {0} (_ catn {1} (eo::to_bin 0 0))))".format(x, y)),
    ("(n Int) (x (BitVec n)) (y (BitVec n))", "x y", "(eq x (eo::to_bin ($width (eo::typeof x)) 1))", lambda w, v: isinstance(w, int), lambda x, y, w, v: "(eq %s %s)" % (x, bv(w, 1))),
    ("(n Int) (m Int) (x (BitVec n)) (y (BitVec m))", "x y", "(eq (ext ($width (eo::typeof y)) 0 x) (ext ($width (eo::typeof y)) 0 x))", lambda w, v: isinstance(w, int) and isinstance(v, int) and w > v, lambda x, y, w, v: "(eq (ext {1} 0 {0}) (ext {1} 0 {0}))".format(x, v)),
    ("(n Int) (m Int) (x (BitVec n)) (y (BitVec m))", "x y", "(eq (zxt (eo::add ($width (eo::typeof y)) (eo::neg ($width (eo::typeof x)))) x) y)", lambda w, v: isinstance(w, int) and isinstance(v, int) and v >= w, lambda x, y, w, v: "(eq (zxt %d %s) %s)" % (v - w, x, y)),
    ("(n Int) (x (BitVec n)) (y (BitVec (eo::add n 1)))", "x y", "(eq (zxt 1 x) y)", None, None),
]
cs = []
ARGS = [("x%s" % w, w) for w in W + SYM] + [("y1", 1), ("#b10", 2)]
for q, (ps, ar, con, cond, mean) in enumerate(RULES[:-1]):
    for (x, w), (y, v) in itertools.product(ARGS, repeat=2):
        okk = cond(w, v)
        d = BV + "(declare-rule r (%s) :args (%s) :conclusion %s)\n" % (ps, ar, con)
        c.st(("rule", q, x, y))
        c.tr(2)
        if okk:
            right = mean(x, y, w, v)
            cs.append(Case("rule/%d/%s/%s" % (q, x, y), d + "(step s %s :rule r :args (%s %s))\n" % (right, x, y), "correct"))
            for (x2, w2), (y2, v2) in itertools.product(ARGS, repeat=2):
                if cond(w2, v2) and (DEEP or (x2 == x) != (y2 == y)):
                    other = mean(x2, y2, w2, v2)
                    cs.append(Case("rulex/%d/%s/%s/%s/%s" % (q, x, y, x2, y2), d + "(step s %s :rule r :args (%s %s))\n" % (other, x, y), "correct" if other == right else "reject"))
        else:
            cs.append(Case("rulei/%d/%s/%s" % (q, x, y), d + "(step s :rule r :args (%s %s))\n" % (x, y), "reject"))
    # premises: the widths come from matching a formula
    for (x, w), (y, v) in itertools.product(ARGS, repeat=2):
        if w != v:
            continue
        okk = cond(w, v)
        d = BV + "(declare-rule r (%s) :premises ((bvult x y)) :conclusion %s)\n(assume h (bvult %s %s))\n" % (ps, con, x, y)
        cs.append(Case("prem/%d/%s/%s" % (q, x, y), d + ("(step s %s :rule r :premises (h))\n" % mean(x, y, w, v) if okk else "(step s :rule r :premises (h))\n"), "correct" if okk else "reject"))
        c.tr(3)
c.run(cs)
part("rules over widths")

# ------------------------------------- E. types of literals depend on their value
LITS = {"numeral": [("0", 0), ("1", 1), ("2", 2), ("7", 7), ("10", 10)], "binary": [("#b0", (1, 0)), ("#b1", (1, 1)), ("#b10", (2, 2)), ("#b011", (3, 3)), ("#b0000", (4, 0))],
        "hexadecimal": [("#x0", (4, 0)), ("#xa", (4, 10)), ("#x1f", (8, 31))], "string": [('""', ""), ('"a"', "a"), ('"ab"', "ab"), ('"aba"', "aba"), ('"\\u{61}"', "a")]}
LT = {"numeral": [("(BitVec eo::self)", lambda v: "(BitVec %d)" % v), ("(Mat eo::self (eo::add eo::self eo::self))", lambda v: "(Mat %d %d)" % (v, 2 * v)), ("(eo::ite (eo::is_neg eo::self) U (BitVec (eo::neg eo::self)))", lambda v: "(BitVec -%d)" % v if v else "(BitVec 0)")],
      "binary": [("(BitVec (eo::len eo::self))", lambda v: "(BitVec %d)" % v[0]), ("(Mat (eo::len eo::self) (eo::to_z eo::self))", lambda v: "(Mat %d %d)" % v), ("(eo::ite (eo::is_eq (eo::to_z eo::self) 0) U (BitVec 1))", lambda v: "(BitVec 1)" if v[1] else "U"), ("(eo::requires (eo::gt (eo::len eo::self) 1) true U)", lambda v: "U" if v[0] > 1 else None)],
      "string": [("(BitVec (eo::len eo::self))", lambda v: "(BitVec %d)" % len(v)), ("(eo::ite (eo::is_eq eo::self (eo::concat eo::self eo::self)) U Int)", lambda v: "Int" if v else "U")]}
base = PRE.replace("(declare-consts <binary> (BitVec (eo::len eo::self)))\n", "")
NUMTY = {}
cs = []
for cat, rules in LT.items():
    for text, mean in rules:
        for lt, v in LITS[cat]:
            t = mean(v)
            c.st(("lit", cat, text, lt))
            c.tr(2)
            b = "(declare-const Int Type)(declare-const U Type)(declare-const Seq (-> Type Type))(declare-parameterized-const BitVec ((n Int)) Type)"
            b = "(declare-const U Type)\n(declare-const Int Type)\n(declare-parameterized-const BitVec ((T Type :implicit)) (-> T Type))\n(declare-parameterized-const Mat ((T Type :implicit) (S Type :implicit)) (-> T S Type))\n(declare-const Seq (-> Type Type))\n"
            b += "(declare-parameterized-const is ((T Type :implicit)) (-> T Bool))\n"
            b += "(program $ty ((n Int) (m Int)) :signature (Int Int) Type ((($ty n n) (BitVec n)) (($ty n 1) (Seq (BitVec n)))))\n"
            if cat != "numeral":
                b += "(declare-consts <numeral> Int)\n"
            b += "(declare-consts <%s> %s)\n" % (cat, text)
            if cat == "numeral":
                # numerals inside the expected type would be typed by the rule under test
                tt = "(eo::requires (eo::is_eq (eo::typeof %s) %s) true Bool)" % (lt, t)
            else:
                tt = "(eo::requires (eo::typeof %s) %s Bool)" % (lt, t)
            if t is None:
                cs.append(Case("lit/%s/%s/%s" % (cat, text, lt), b + "(assume h (is %s))\n" % lt, "reject"))
                cs.append(Case("lit2/%s/%s/%s" % (cat, text, lt), b + "(declare-const o (eo::requires (eo::is_ok (eo::typeof %s)) false Bool))\n" % lt, "correct"))
            else:
                cs.append(Case("lit/%s/%s/%s" % (cat, text, lt), b + "(declare-const o %s)\n(assume h (is %s))\n" % (tt, lt), "correct"))
                for l2, v2 in LITS[cat]:
                    t2 = mean(v2)
                    cs.append(Case("lits/%s/%s/%s/%s" % (cat, text, lt, l2), b + "(declare-parameterized-const eq ((T Type :implicit)) (-> T T Bool))\n(assume h (eq %s %s))\n" % (lt, l2), "correct" if t2 == t else "reject"))
c.run(cs)
part("types of literals")
# ------------- F. arguments whose value appears in the type: their own types
TY1 = ["Int", "Rat", "Bool", "U", "Type", "(BitVec 2)", "(BitVec k)", "(Seq U)", "(-> U U)", "(-> Int Type)"]
ARG1 = [("3", "Int"), ("k", "Int"), ("-1/2", "Rat"), ("true", "Bool"), ("(P true)", "Bool"), ("a", "U"), ("U", "Type"), ("(BitVec 2)", "Type"), ("Bool", "Type"), ("#b10", "(BitVec 2)"), ("x2", "(BitVec 2)"),
        ("xk", "(BitVec k)"), ("x3", "(BitVec 3)"), ("(as seq.empty (Seq U))", "(Seq U)"), ("(as seq.empty (Seq Int))", "(Seq Int)"), ("hu", "(-> U U)"), ("hb", "(-> U Bool)"), ("BitVec", "(-> Int Type)"), ("Seq", "(-> Type Type)")]
b0 = PRE + "(declare-const hu (-> U U))\n(declare-const hb (-> U Bool))\n(declare-const iv U)\n"
for i, t in enumerate(TY1):
    b0 += "(declare-const W%d (-> %s Type))\n(declare-const D%d (-> Type %s Type))\n" % (i, t, i, t)
b0 += "(declare-const PR (-> Type Type Type))\n"
decls, lines = [], []


def judged(tm, ty, key):
    n = len(lines)
    c.st(key)
    c.tr()
    lines.append((key, "(declare-const v%d (eo::requires %s Bool))" % (n, "(eo::is_ok (eo::typeof %s)) false" % tm if ty is None else "(eo::typeof %s) %s" % (tm, ty))))


for i, t in enumerate(TY1):
    decls += ["(declare-parameterized-const q%d ((n %s)) (W%d n))" % (i, t, i), "(declare-parameterized-const o%d ((n %s :opaque)) (W%d n))" % (i, t, i),
              "(declare-parameterized-const f%d ((n %s)) (-> U (W%d n)))" % (i, t, i), "(declare-parameterized-const p%d ((T Type) (n T)) T)" % i if i == 0 else "",
              "(declare-parameterized-const m%d ((T Type :implicit) (n %s)) (-> T (PR T (W%d n))))" % (i, t, i)]
    for x, tx in ARG1:
        r = "(W%d %s)" % (i, x) if tx == t else None
        judged("(q%d %s)" % (i, x), r, "quoted/%s/%s" % (t, x))
        judged("(_ q%d %s)" % (i, x), r, "quoted _/%s/%s" % (t, x))
        judged("(o%d %s)" % (i, x), r, "opaque/%s/%s" % (t, x))
        judged("(f%d %s a)" % (i, x), r, "quoted then argument/%s/%s" % (t, x))
        judged("(f%d %s true)" % (i, x), None, "quoted then wrong argument/%s/%s" % (t, x))
        for y, ty in ARG1:
            judged("(m%d %s %s)" % (i, x, y), r and "(PR %s %s)" % (ty, r), "implicit/%s/%s/%s" % (t, x, y))
for x, tx in ARG1:
    for y, ty in ARG1:
        judged("(p0 %s %s)" % (x, y), x if tx == "Type" and ty == x else None, "type then term/%s/%s" % (x, y))
PAIR = [(i, j) for i in range(len(TY1)) for j in range(len(TY1)) if TH or (i + j) % 3 == 0 or i == j]
for i, j in PAIR:
    decls += ["(declare-parameterized-const r%d_%d ((n %s) (m %s)) (PR (W%d n) (W%d m)))" % (i, j, TY1[i], TY1[j], i, j)]
    for x, tx in ARG1:
        for y, ty in ARG1:
            judged("(r%d_%d %s %s)" % (i, j, x, y), "(PR (W%d %s) (W%d %s))" % (i, x, j, y) if tx == TY1[i] and ty == TY1[j] else None, "two quoted/%d/%d/%s/%s" % (i, j, x, y))
decls += ["(declare-parameterized-const dv ((n Int) (x (BitVec n))) (Mat n n))", "(declare-const PB (-> Int Type))", "(declare-parameterized-const dw ((n Int) (x (BitVec n)) (y (BitVec n))) (PR (BitVec n) (Mat n n)))"]
VS = [("#b10", "2"), ("x2", "2"), ("x3", "3"), ("xk", "k"), ("xj", "j"), ("x0", "0"), ("a", "?"), ("2", "?")]
for n, (x, wx), (y, wy) in itertools.product(["0", "2", "3", "k", "j", "a", "Int"], VS, VS):
    judged("(dv %s %s)" % (n, x), "(Mat %s %s)" % (n, n) if wx == n else None, "depends on the first/%s/%s" % (n, x))
    judged("(dw %s %s %s)" % (n, x, y), "(PR (BitVec %s) (Mat %s %s))" % (n, n, n) if wx == n == wy else None, "depends on the first/%s/%s/%s" % (n, x, y))
c.positive(b0 + "\n".join(d for d in decls if d) + "\n", lines, chunk=400)
part("types of quoted arguments")
# ------------- G. the type of every operator, seen from the types it occurs in
b1 = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const Rat Type)
(declare-consts <rational> Rat)
(declare-const Str Type)
(declare-consts <string> Str)
(declare-const BV Type)
(declare-consts <binary> BV)
(declare-const U Type)
(declare-const a U)
(declare-const b U)
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const P (-> U Bool))
(declare-parameterized-const any ((T Type :implicit)) (-> T U))
(declare-datatype D ((mk (s1 U) (s2 Int)) (nn)))
(declare-const In (-> Int Type))
(declare-const Ra (-> Rat Type))
(declare-const St (-> Str Type))
(declare-const Bi (-> BV Type))
(declare-const Bo (-> Bool Type))
(declare-const Un (-> U Type))
(declare-const Li (-> eo::List Type))
(declare-const Ty (-> Type Type))
"""
FAM = {"Int": "In", "Rat": "Ra", "Str": "St", "BV": "Bi", "Bool": "Bo", "U": "Un", "eo::List": "Li", "Type": "Ty"}
LITS = {"Int": ["0", "3", "-2"], "Rat": ["1/2", "-5/2"], "Str": ['""', '"a"', '"abca"'], "BV": ["#b01", "#b11", "#b0"], "Bool": ["true", "false"], "U": ["a", "b"], "Type": ["Int", "U"],
        "eo::List": ["eo::List::nil", "(eo::List::cons a b)"]}
# operator, types of its arguments (None: the rest are constants of the text), type of its value
OPS = [("eo::add", "Int Int", "Int"), ("eo::add", "Rat Rat", "Rat"), ("eo::add", "BV BV", "BV"), ("eo::mul", "Int Int", "Int"), ("eo::mul", "Rat Rat", "Rat"), ("eo::mul", "BV BV", "BV"),
       ("eo::neg", "Int", "Int"), ("eo::neg", "Rat", "Rat"), ("eo::neg", "BV", "BV"), ("eo::qdiv", "Int Int", "Rat"), ("eo::qdiv", "Rat Rat", "Rat"), ("eo::zdiv", "Int Int", "Int"),
       ("eo::zmod", "Int Int", "Int"), ("eo::is_neg", "Int", "Bool"), ("eo::is_neg", "Rat", "Bool"), ("eo::gt", "Int Int", "Bool"), ("eo::gt", "Rat Rat", "Bool"),
       ("eo::and", "Bool Bool", "Bool"), ("eo::and", "BV BV", "BV"), ("eo::or", "Bool Bool", "Bool"), ("eo::or", "BV BV", "BV"), ("eo::xor", "Bool Bool", "Bool"), ("eo::xor", "BV BV", "BV"),
       ("eo::not", "Bool", "Bool"), ("eo::not", "BV", "BV"), ("eo::len", "BV", "Int"), ("eo::len", "Str", "Int"), ("eo::concat", "Str Str", "Str"), ("eo::concat", "BV BV", "BV"),
       ("eo::extract", "Str Int Int", "Str"), ("eo::extract", "BV Int Int", "BV"), ("eo::find", "Str Str", "Int"), ("eo::to_z", "Int", "Int"), ("eo::to_z", "Rat", "Int"), ("eo::to_z", "BV", "Int"), ("eo::to_z", "Str", "Int"),
       ("eo::to_q", "Int", "Rat"), ("eo::to_q", "Rat", "Rat"), ("eo::to_bin", "Int BV", "BV"), ("eo::to_bin", "Int Int", "BV"), ("eo::to_str", "Int", "Str"), ("eo::to_str", "Rat", "Str"), ("eo::to_str", "BV", "Str"),
       ("eo::to_str", "Str", "Str"), ("eo::nameof", "U", "Str"), ("eo::list_len or", "Bool", "Int"), ("eo::list_find or", "Bool Bool", "Int"), ("eo::list_nth or", "Bool Int", "Bool"),
       ("eo::list_concat or", "Bool Bool", "Bool"), ("eo::cons or", "Bool Bool", "Bool"), ("eo::list_rev or", "Bool", "Bool"), ("eo::list_erase or", "Bool Bool", "Bool"), ("eo::list_erase_all or", "Bool Bool", "Bool"),
       ("eo::list_setof or", "Bool", "Bool"), ("eo::list_minclude or", "Bool Bool", "Bool"), ("eo::list_meq or", "Bool Bool", "Bool"), ("eo::list_diff or", "Bool Bool", "Bool"), ("eo::list_inter or", "Bool Bool", "Bool"),
       ("eo::list_singleton_elim or", "Bool", "Bool"), ("eo::list_len eo::List::cons", "eo::List", "Int"), ("eo::list_concat eo::List::cons", "eo::List eo::List", "eo::List"), ("eo::list_rev eo::List::cons", "eo::List", "eo::List"),
       ("eo::dt_constructors", "Type", "eo::List"), ("eo::dt_selectors", "U", "eo::List")]
for x in sorted(LITS):
    OPS += [("eo::%s" % o, x, "Bool") for o in ("is_ok", "is_z", "is_q", "is_bin", "is_str", "is_bool", "is_var")] + [("eo::hash", x, "Int"), ("eo::typeof", x, "Type"), ("eo::ite", "Bool %s %s" % (x, x), x)]
    for y in sorted(LITS):
        OPS += [("eo::eq", "%s %s" % (x, y), "Bool"), ("eo::is_eq", "%s %s" % (x, y), "Bool"), ("eo::cmp", "%s %s" % (x, y), "Bool"), ("eo::requires", "%s %s %s" % (x, x, y), y)]
lines, inst, bad = [], [], []
for n, (op, args, ret) in enumerate(OPS):
    ts = args.split()
    ps = " ".join("(x%d %s)" % (i, t) for i, t in enumerate(ts))
    tm = "(%s %s)" % (op, " ".join("x%d" % i for i in range(len(ts))))
    for fam in FAM:
        key = "operator in a type/%s/%s/%s" % (op, args, fam)
        c.st(key)
        d = "(declare-parameterized-const f%d (%s) (%s %s))" % (n, ps, FAM[fam], tm)
        d2 = "(declare-parameterized-const f%d (%s) (-> U (%s %s)))" % (n, ps, FAM[fam], tm)
        if fam == ret:
            lines.append((key, d))
            for sel in itertools.product(*[LITS[t] for t in ts]):
                gr = "(%s %s)" % (op, " ".join(sel))
                c.st((n, sel))
                # the type is the family at the value, or there is no type when there is no value
                inst.append(("%s of %s" % (key, " ".join(sel)), d + "\n(declare-const r (eo::ite (eo::is_ok %s) (eo::requires (eo::typeof (f%d %s)) (%s %s) Bool) (eo::requires (eo::is_ok (eo::typeof (f%d %s))) false Bool)))"
                             % (gr, n, " ".join(sel), FAM[fam], gr, n, " ".join(sel))))
        else:
            bad.append(Case(key, b1 + d + "\n", "reject"))
            bad.append(Case(key + " result", b1 + d2 + "\n(define t () (any (f%d %s a)) :type U)\n" % (n, " ".join(LITS[t][0] for t in ts)), "reject"))
c.tr(len(lines) + len(inst) + len(bad))
c.positive(b1, lines, chunk=100)
c.positive(b1, [(k, "(push)\n" + t + "\n(pop)") for k, t in inst], chunk=200)
c.run(bad)
part("operators in types")
c.bounds = ["result types: every width expression of one operator over %s parameters and constants, plus a second operator on top; side conditions and conditionals over all comparisons of leaves; 7 parameter shapes; argument widths 0..%d and two symbolic widths" % ("the", 17 if TH else 3),
            "%d parameter types x %d arguments, quoted, opaque, after an implicit one, and in pairs" % (len(TY1), len(ARG1)), "terminators: 17 terminator expressions x 4 annotations x all instances x up to 4 arguments, through macros, programs, list operations", "bit-vector terms of depth 2 over 10 dependent operators", "6 rules over all pairs of 8 arguments", "13 literal type rules over all literals listed"]
c.assumptions = ["a terminator that is stuck but has a type (program application, failed requires) may appear in an accepted term; only that it is never replaced by a value is judged"]
scale.run(c)
c.finish()
