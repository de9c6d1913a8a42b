"""P09: associativity / chaining / list annotations. For every annotation and
every number of arguments up to a bound (and large ones by family), the term
denoted by (f t1 ... tn) is compared with the explicit curried application the
manual prescribes; list-marked parameters are enumerated over every subset of
the arguments, every list instantiation, in macros, programs and rules."""
import itertools
import sys
from mc import engine
from mc import scale

c = engine.Check("P09")
T = c.thorough
sys.setrecursionlimit(100000)

PRE = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const BitVec (-> Int Type))
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-const ra (-> Bool Bool Bool) :right-assoc)
(declare-const la (-> Bool Bool Bool) :left-assoc)
(declare-const rn (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const ln (-> Bool Bool Bool) :left-assoc-nil false)
(declare-const rs (-> Bool Bool Bool) :right-assoc-non-singleton-nil false)
(declare-const ls (-> Bool Bool Bool) :left-assoc-non-singleton-nil false)
(declare-const no (-> Bool Bool Bool))
(declare-const np (-> Bool Bool Bool Bool Bool))
(declare-const P (-> Bool Bool))
(declare-const S Type)
(declare-const nS S)
(declare-parameterized-const hc ((T Type :implicit)) (-> T S S) :right-assoc-nil nS)
(declare-parameterized-const hl ((T Type :implicit)) (-> S T S) :left-assoc-nil nS)
(declare-const hra (-> Int S S) :right-assoc)
(declare-const hla (-> S Int S) :left-assoc)
(declare-parameterized-const al ((xs S)) Bool :arg-list hc)
(declare-parameterized-const bvor ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) :right-assoc-nil (eo::to_bin m 0))
(declare-parameterized-const bvls ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) :left-assoc-nil (eo::to_bin m 0))
(declare-parameterized-const bvns ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) :right-assoc-non-singleton-nil (eo::to_bin m 0))
"""
COMB = ["ra", "la", "rn", "ln", "rs", "ls"]
for k in COMB:
    PRE += "(declare-const ch_%s (-> Bool Bool Bool) :chainable %s)\n" % (k, k)
    PRE += "(declare-const pw_%s (-> Bool Bool Bool) :pairwise %s)\n" % (k, k)
    PRE += "(declare-parameterized-const che_%s ((T Type :implicit)) (-> T T Bool) :chainable %s)\n" % (k, k)
    PRE += "(declare-parameterized-const pwe_%s ((T Type :implicit)) (-> T T Bool) :pairwise %s)\n" % (k, k)
MAXN = 70
for i in range(12):
    PRE += "(declare-const c%d Bool)\n(declare-const i%d Int)\n(declare-const v%d (BitVec 3))\n(declare-const s%d S)\n" % (i, i, i, i)

STUCK = "?"
NILS = {"rn": "false", "ln": "false", "rs": "false", "ls": "false", "hc": "nS", "hl": "nS",
        "bvor": "#b000", "bvls": "#b000", "bvns": "#b000"}
LEFT = {"la", "ln", "ls", "hl", "hla", "bvls"}
NS = {"rs", "ls", "bvns"}
PLAIN = {"ra", "la", "hra", "hla"}


def txt(t):
    """iterative: terms are nested hundreds deep"""
    out, st = [], [t]
    while st:
        x = st.pop()
        if isinstance(x, str):
            out.append(x)
        else:
            out.append("(_")
            st.append(")")
            st.extend(reversed(x))
    return " ".join(out)


def elems(f, t):
    """elements of an f-list from the outermost inwards, or None"""
    r = []
    while isinstance(t, tuple) and t[0] == f and len(t) == 3:
        r.append(t[2] if f in LEFT else t[1])
        t = t[1] if f in LEFT else t[2]
    return r if t == NILS[f] else None


def join(f, a, b):
    return (f, a, b)


def build(f, args, marks=None):
    """The documented desugaring of (f args): args are terms, marks says which
    of them were written as list-marked parameters."""
    n = len(args)
    marks = marks or [False] * n
    if f.startswith(("ch_", "che_")):
        comb = f.split("_")[1]
        parts = [(f, args[i], args[i + 1]) for i in range(n - 1)]
        return combine(comb, parts)
    if f.startswith(("pw_", "pwe_")):
        comb = f.split("_")[1]
        parts = [(f, args[i], args[j]) for i in range(n) for j in range(i + 1, n)]
        return combine(comb, parts)
    if f == "al":
        if n == 1 and marks[0]:
            return ("al", args[0])
        r = build("hc", args, marks)
        return STUCK if r == STUCK else ("al", r)
    if f in PLAIN:
        if n <= 2:
            return (f,) + tuple(args)
        if f in LEFT:
            r = args[0]
            for a in args[1:]:
                r = (f, r, a)
        else:
            r = args[-1]
            for a in args[-2::-1]:
                r = (f, a, r)
        return r
    if f in NILS:
        left = f in LEFT
        order = list(zip(args, marks))
        if not left:
            order.reverse()
        if order[0][1]:
            r = order[0][0]
            order = order[1:]
        else:
            r = NILS[f]
        for a, m in order:
            if m:
                ea, er = elems(f, a), elems(f, r)
                if ea is None or er is None:
                    return STUCK
                # splice a's elements around r
                for e in reversed(ea):
                    r = (f, r, e) if left else (f, e, r)
            else:
                r = (f, r, a) if left else (f, a, r)
        if f in NS and sum(not m for m in marks) < 2:
            er = elems(f, r)
            if er is None:
                return STUCK
            if len(er) == 1:
                r = er[0]
        return r
    return (f,) + tuple(args)


def combine(comb, parts):
    if len(parts) == 1:
        return parts[0]
    if not parts:
        return NILS.get(comb, STUCK)
    return build(comb, parts)


lines = []


def emit(key, lhs, exp, pre=""):
    n = len(lines)
    c.tr()
    c.st(txt(exp))
    if exp == STUCK:
        t = "%s(declare-const x%d (eo::requires (eo::is_ok %s) false Bool))" % (pre, n, lhs)
    else:
        t = "%s(declare-const x%d (eo::requires %s %s Bool))" % (pre, n, lhs, txt(exp))
    lines.append((key, t))
    if n % 4999 == 7:
        c.sample(t)


def vals(f, n):
    p = {"hc": "s", "hl": "s", "al": "s", "bvor": "v", "bvls": "v", "bvns": "v", "hra": "i", "hla": "i"}.get(f, "c")
    if f.startswith(("che", "pwe")):
        p = "i"
    if f == "hra":
        return ["i%d" % (i % 12) for i in range(n - 1)] + ["s0"]
    if f == "hla":
        return ["s0"] + ["i%d" % (i % 12) for i in range(n - 1)]
    return ["%s%d" % (p, i % 12) for i in range(n)]


# 1. plain applications with every number of arguments, and repeated arguments
FUNS = ["ra", "la", "rn", "ln", "rs", "ls", "hc", "hl", "hra", "hla", "al", "bvor", "bvls", "bvns", "no", "np"] + \
    [k + "_" + x for k in ("ch", "pw", "che", "pwe") for x in COMB]
for f in FUNS:
    ns = list(range(1, 36)) + [48, 63, 64, 65, 66, 100] if not f.startswith("pw") else list(range(1, 14)) + [20, 33]
    for n in ns:
        if f in ("no",) and n > 2 or f == "np" and n > 4:
            continue
        if f.split("_")[0] in ("ch", "pw", "che", "pwe") and n == 1 and f.split("_")[1] in PLAIN:
            continue
        v = vals(f, n)
        emit("%s/%d" % (f, n), "(%s %s)" % (f, " ".join(v)), build(f, v))
        if n >= 1 and not f.startswith(("ch", "pw", "al")) and not (f in PLAIN and n == 1):
            emit("_%s/%d" % (f, n), "(_ %s %s)" % (f, " ".join(v)), (f,) + tuple(v))
    # all argument tuples over two letters, with nil and nested applications
    if f in ("hra", "hla"):
        continue
    a = vals(f, 2) + ([NILS[f]] if f in NILS else ["true"])
    if f in NILS:
        nested = build(f, vals(f, 2))
        alph = [(x, x) for x in a] + [("(%s %s)" % (f, " ".join(vals(f, 2))), nested)]
    else:
        alph = [(x, x) for x in a]
    for n in (1, 2, 3, 4):
        if f == "no" and n > 2 or (f.split("_")[0] in ("ch", "pw", "che", "pwe") and n == 1 and f.split("_")[1] in PLAIN):
            continue
        for tup in itertools.product(alph, repeat=n):
            if f in ("che_ra", "pwe_ra") or f.startswith(("che", "pwe")) and any(x[0] == "true" for x in tup):
                continue
            emit("%s(%s)" % (f, ",".join(x[0] for x in tup)), "(%s %s)" % (f, " ".join(x[0] for x in tup)),
                 build(f, [x[1] for x in tup]))

# 2. list-marked parameters: every subset of marked arguments, every list
TYPE = {"rn": "Bool", "ln": "Bool", "rs": "Bool", "ls": "Bool", "hc": "S", "hl": "S", "al": "S",
        "bvor": "(BitVec 3)", "bvls": "(BitVec 3)", "bvns": "(BitVec 3)", "no": "Bool", "ra": "Bool", "la": "Bool"}
MN = 4 if T else 3
nprog = 0
for f in ("rn", "ln", "rs", "ls", "hc", "hl", "al", "bvor", "bvls", "bvns", "no", "ra", "la"):
    g = "hc" if f == "al" else f
    v = vals(f, 4)
    if g in NILS:
        def mk(L):
            r = NILS[g]
            for e in reversed(L):
                r = (g, r, e) if g in LEFT else (g, e, r)
            return r
        lists = [mk(()), mk((v[0],)), mk((v[1], v[0]))] + ([mk((v[0], v[1], v[0]))] if T else [])
        improper = [v[2], (g, v[0], v[1])]
        listvals = lists + improper
    else:
        listvals = [v[0], v[1]]
    plain = [v[3], lists[1] if g in NILS else v[1]]
    for n in range(1, MN + 1):
        if f in ("no", "ra", "la") and (n > 2 or (n == 1 and f != "no")):
            if f == "no" or n == 1:
                continue
        for marks in itertools.product((False, True), repeat=n):
            ty = TYPE[f]
            bty = "(BitVec k)" if f.startswith("bv") else ty
            # a macro, a program with fixed width, and a program generic in the width
            forms = []
            ps = " ".join("(p%d %s%s)" % (i, ty, " :list" if m else "") for i, m in enumerate(marks))
            psg = ("(k Int) " if f.startswith("bv") else "") + " ".join(
                "(p%d %s%s)" % (i, bty, " :list" if m else "") for i, m in enumerate(marks))
            body = "(%s %s)" % (f, " ".join("p%d" % i for i in range(n)))
            ret = "Type"
            PRE += "(define m%d (%s) %s)\n" % (nprog, ps, body)
            PRE += "(program q%d (%s) :signature (%s) %s (((q%d %s) %s)))\n" % (
                nprog, psg, " ".join([bty] * n), ret, nprog, " ".join("p%d" % i for i in range(n)), body)
            for vs in itertools.product(*[listvals if m else plain for m in marks]):
                e = build(f, list(vs), list(marks))
                for h in ("m", "q"):
                    emit("%s%s%s(%s)" % (h, f, "".join("l" if m else "." for m in marks), ",".join(map(txt, vs))),
                         "(%s%d %s)" % (h, nprog, " ".join(map(txt, vs))), e)
            nprog += 1
# 2b. the same parameters in several places: every sequence of two parameters,
# each marked or not
REP = 5 if T else 4
for f in ("rn", "ln", "rs", "ls", "hc", "hl", "al", "bvor", "bvls", "bvns"):
    g = "hc" if f == "al" else f
    v = vals(f, 4)

    def mk(L):
        r = NILS[g]
        for e in reversed(L):
            r = (g, r, e) if g in LEFT else (g, e, r)
        return r
    listvals = [mk(()), mk((v[0],)), mk((v[1], v[0])), v[2]]
    plain = [v[3], mk((v[1],))]
    ty = TYPE[f]
    bty = "(BitVec k)" if f.startswith("bv") else ty
    for n in range(2, REP + 1):
        for seq in itertools.product((0, 1), repeat=n):
            if seq == tuple(range(n)):
                continue
            for marks in ((True, True), (True, False), (False, True), (False, False)):
                used = sorted(set(seq))
                if any(marks[i] for i in (0, 1) if i not in used):
                    continue
                ps = " ".join("(p%d %s%s)" % (i, ty, " :list" if m else "") for i, m in enumerate(marks))
                psg = ("(k Int) " if f.startswith("bv") else "") + " ".join("(p%d %s%s)" % (i, bty, " :list" if m else "") for i, m in enumerate(marks))
                body = "(%s %s)" % (f, " ".join("p%d" % i for i in seq))
                PRE += "(define m%d (%s) %s)\n" % (nprog, ps, body)
                PRE += "(program q%d (%s) :signature (%s %s) Type (((q%d p0 p1) %s)))\n" % (nprog, psg, bty, bty, nprog, body)
                for vs in itertools.product(*[listvals if m else plain for m in marks]):
                    e = build(f, [vs[i] for i in seq], [marks[i] for i in seq])
                    for h in ("m", "q"):
                        emit("%s%s%s %s(%s)" % (h, f, seq, marks, ",".join(map(txt, vs))), "(%s%d %s)" % (h, nprog, " ".join(map(txt, vs))), e)
                nprog += 1
# marked parameters used where the annotation has no effect: in another operator,
# nested, or repeated
PRE += "(define w0 ((p Bool :list) (q Bool)) (P p))\n(define w1 ((p Bool :list) (q Bool)) (rn q (ln p q) p))\n"
PRE += "(define w2 ((p Bool :list)) (rn p p))\n(define w3 ((f (-> Bool Bool Bool)) (p Bool :list)) (f p c0))\n"
PRE += "(define w4 ((p Bool :list) (q Bool)) (_ rn p q))\n"
for L in ("false", "c1", "(_ rn c0 false)", "(_ rn c0 (_ rn c1 false))"):
    e = elems("rn", {"false": "false", "c1": "c1", "(_ rn c0 false)": ("rn", "c0", "false"),
                     "(_ rn c0 (_ rn c1 false))": ("rn", "c0", ("rn", "c1", "false"))}[L])
    emit("w0", "(w0 %s c2)" % L, ("P", L))
    emit("w4", "(w4 %s c2)" % L, ("rn", L, "c2"))
    emit("w3", "(w3 rn %s)" % L, ("rn", L, "c0"))
    if e is None:
        emit("w2", "(w2 %s)" % L, STUCK)
    else:
        r = L
        for x in reversed(e):
            r = ("rn", x, r)
        emit("w2", "(w2 %s)" % L, r)
    emit("w1", "(w1 %s c2)" % L, ("rn", "c2", ("rn", ("ln", L, "c2"), L)))
c.bounds.append("1..35 arguments and up to 100 by family; all tuples of up to 4 arguments over nil/nested/plain; list marks: all subsets of up to %d parameters x all list instantiations, in macros and programs" % MN)
c.positive(PRE, lines, chunk=400)
scale.run(c)
c.finish()
