"""P07: programs. Model: an interpreter of ordered rewrite rules over explicit
terms. All programs over a set of patterns and bodies up to a number of cases,
applied to all terms up to a depth."""
import itertools
from mc import engine
from mc import scale
from mc.terms import C, txt, match, subst

c = engine.Check("P07")
TH = c.thorough
PRE = """(declare-const D Type)
(declare-const a D)
(declare-const b D)
(declare-const f (-> D D))
(declare-const h (-> D D))
(declare-const g (-> D D D))
(declare-const m1 (-> D D D D))
(declare-const m2 (-> D D D D))
(declare-const m3 (-> D D D D))
(declare-const F2 (-> (-> D D) D))
"""
STUCK = ("stuck",)
FUEL = [0]


class Diverge(Exception):
    pass


def ev(t, s, progs):
    """t: leaf | ('@',h,a) | ('$',name,args) | ('ite',c,a,b) | ('eq',a,b) | ('req',a,b,c)"""
    if isinstance(t, str):
        return s.get(t, t)
    if t[0] == "@":
        x = ev(t[1], s, progs)
        y = ev(t[2], s, progs)
        return STUCK if x == STUCK or y == STUCK else ("@", x, y)
    if t[0] == "$":
        args = [ev(x, s, progs) for x in t[2]]
        if STUCK in args:
            return STUCK
        return call(t[1], args, progs)
    if t[0] == "ite":
        k = ev(t[1], s, progs)
        return ev(t[2], s, progs) if k == "true" else ev(t[3], s, progs) if k == "false" else STUCK
    if t[0] == "eq":
        x, y = ev(t[1], s, progs), ev(t[2], s, progs)
        return STUCK if STUCK in (x, y) else "true" if x == y else "false"
    if t[0] == "req":
        x, y = ev(t[1], s, progs), ev(t[2], s, progs)
        z = ev(t[3], s, progs)
        return z if x == y and STUCK not in (x, y) else STUCK
    raise ValueError(t)


def call(name, args, progs):
    FUEL[0] += 1
    if FUEL[0] > 300:
        raise Diverge()
    for pats, body in progs[name]:
        s = {}
        for p, x in zip(pats, args):
            s = match(p, x, s)
            if s is None:
                break
        if s is not None:
            return ev(body, s, progs)
    return STUCK


def run(name, args, progs):
    FUEL[0] = 0
    try:
        return call(name, list(args), progs)
    except (Diverge, RecursionError):
        return None


def show(t):
    if isinstance(t, str):
        return t[1:] if t.startswith("?") else t
    if t[0] == "@":
        xs = []
        while isinstance(t, tuple) and t[0] == "@":
            xs.append(show(t[2]))
            t = t[1]
        return "(_ %s %s)" % (show(t), " ".join(reversed(xs)))
    if t[0] == "$":
        return "(%s %s)" % (t[1], " ".join(map(show, t[2])))
    return "(eo::%s %s)" % ({"ite": "ite", "eq": "is_eq", "req": "requires"}[t[0]], " ".join(map(show, t[1:])))


def pvars(t):
    if isinstance(t, str):
        return {t} if t.startswith("?") else set()
    return set().union(*[pvars(x) for x in (t[2] if t[0] == "$" else t[1:])])


PT = {"?x": "D", "?y": "D", "?F": "(-> D D)", "?n": "N"}


def defn(name, cases, sig="D", ret="D", params=None):
    vs = sorted(set().union(*[pvars(p) for ps, _ in cases for p in ps]))
    ps = " ".join("(%s %s)" % (v[1:], (params or PT)[v]) for v in vs)
    return "(program %s (%s) :signature (%s) %s (%s))" % (
        name, ps, sig, ret, " ".join("((%s %s) %s)" % (name, " ".join(map(show, p)), show(b)) for p, b in cases))


# ground terms up to depth 3
T1 = ["a", "b"]
T2 = T1 + [C("f", x) for x in T1] + [C("g", x, y) for x in T1 for y in T1]
T3 = T2 + [C("f", x) for x in T2[2:]] + [C("g", x, y) for x in T2 for y in T2 if not (x in T1 and y in T1)]
ARGS = T2 + [C("f", C("f", "a")), C("f", C("g", "a", "b")), C("f", C("g", "b", "b")), C("g", C("f", "a"), "a"), C("g", "a", C("f", "a")),
             C("g", C("f", "a"), C("f", "a")), C("g", C("f", "a"), C("f", "b")), C("g", C("g", "a", "b"), C("g", "a", "b")),
             C("g", C("g", "a", "a"), "b"), C("g", "b", C("g", "b", "a")), C("h", "a"), C("h", C("f", "a"))]
x, y, F = "?x", "?y", "?F"
PATS = [x, "a", "b", C("f", x), C("f", "a"), C("f", C("f", x)), C("g", x, y), C("g", x, x), C("g", "a", x), C("g", x, "b"),
        C("g", C("f", x), y), C("g", x, C("f", x)), C("g", C("f", x), x), C("g", C("f", x), C("f", y)), C("f", C("g", x, x)), C("f", C("g", x, y)),
        C("g", C("g", x, y), y), C(F, x), C(F, "a"), C(F, C("f", x)), C(C(F, x), y) if 0 else C("g", y, x)]
nm = [0]
lines = []


def obs(t, v):
    """group of commands: the call t (text) evaluates to v / is stuck"""
    nm[0] += 1
    if v == STUCK:
        return "(declare-const t%d (eo::requires (eo::is_ok %s) false Bool))" % (nm[0], t)
    return "(declare-const t%d (eo::requires %s %s Bool))" % (nm[0], t, txt(v))


def prog_lines(cases, args, name="$p", others=(), **kw):
    """definition + all applications, one group"""
    progs = {name: cases}
    progs.update(others)
    ls = []
    for ar in args:
        v = run(name, ar, progs)
        c.tr()
        if v is None:
            continue
        t = "(%s %s)" % (name, " ".join(map(txt, ar)))
        ls.append(obs(t, v))
        c.st((tuple(map(repr, cases)), ar))
    nm[0] += 1
    new = "$p%d" % nm[0]
    text = "\n".join([defn(name, cases, **kw)] + ls)
    text = text.replace(name + " ", new + " ").replace(name + ")", new + ")")
    lines.append((repr(cases)[:300], text))
    if len(lines) % 997 == 1:
        c.sample(text[:700])


def mark(i, p):
    vs = sorted(v for v in pvars(p) if v != F)
    l = [vs[0] if vs else "a", vs[1] if len(vs) > 1 else "b", C("f", "b")]
    if F in pvars(p):
        l[2] = C(F, "b")
    return C("m%d" % i, *l)


one = [(t,) for t in ARGS]
# A: first match over all ordered pairs (and triples) of patterns
for p, q in itertools.product(PATS, repeat=2):
    prog_lines([((p,), mark(1, p)), ((q,), mark(2, q))], one)
P3 = PATS if TH else [PATS[i % len(PATS)] for i in (0, 1, 3, 4, 5, 6, 7, 8, 11, 12, 14, 17, 18, 20)]
for ps in itertools.product(P3, repeat=3):
    prog_lines([((p,), mark(i + 1, p)) for i, p in enumerate(ps)], one[:14] if TH else one[::2])
c.positive(PRE, lines, chunk=40)
c.bounds.append("all programs of 2 cases over %d patterns and of 3 cases over %d patterns, on %d terms" % (len(PATS), len(P3), len(ARGS)))

# A': all patterns up to depth 2 (with every way of repeating a variable or a
# compound subpattern), before a default case, on all terms up to depth 2
lines.clear()
L0 = [x, y, "a"]
L1 = L0 + [C("f", t) for t in L0] + [C("g", s, t) for s in L0 for t in L0]
L2 = [t for t in L1 if t not in L0] + [C("f", t) for t in L1 if t not in L0] + [C("g", s, t) for s in L1 for t in L1 if not (s in L0 and t in L0)]
G2 = T2 + [C("f", t) for t in T2[2:]] + [C("g", s, t) for s in T2 for t in T2 if not (s in T1 and t in T1)]
DEEP = [C("g", C("g", s, t), C("g", s, t)) for s in T2[:4] for t in T2[:4]] + [C("g", C("f", C("f", s)), C("f", C("f", t))) for s in T1 for t in T1]
for p in L2:
    prog_lines([((p,), mark(1, p)), ((x,), mark(2, x))], [(t,) for t in (G2 + DEEP if TH else G2)])
if TH:
    # a compound subpattern at any two or three places
    for s in [C("f", x), C("g", x, y), C("f", "a"), C("g", x, x), C("f", C("f", x))]:
        for ctxp in (lambda p, q, r: C("g", p, C("g", q, r)), lambda p, q, r: C("g", C("f", p), C("g", r, q)), lambda p, q, r: C("g", C("g", p, r), q), lambda p, q, r: C("g", C("g", p, q), C("g", q, p))):
            for p, q, r in itertools.product([s, x, C("f", s)], repeat=3):
                pp = ctxp(p, q, r)
                prog_lines([((pp,), mark(1, pp)), ((x,), mark(2, x))],
                           [(ctxp(u, v, w),) for u in T2[:4] + [C("f", C("f", "a"))] for v in T2[:4] + [C("f", C("f", "a")), C("f", C("f", "b"))] for w in (T2[:4] + [C("g", "a", "b")])])
# the same in two arguments
S2 = [C("f", x), C("g", x, x), C("g", x, y), C("f", "a"), C("f", C("f", x)), x]
for p1, p2 in itertools.product(S2 + [C("g", s, s) for s in S2], repeat=2):
    prog_lines([((p1, p2), mark(1, C("g", p1, p2))), ((x, y), mark(2, C("g", x, y)))],
               [(s, t) for s in T2[:6] + [C("g", C("f", "a"), C("f", "b")), C("g", C("f", "a"), C("f", "a"))] for t in T2[:7] + [C("g", C("f", "b"), C("f", "b")), C("g", C("f", "b"), C("f", "a")), C("f", C("f", "b"))]], sig="D D")
c.positive(PRE, lines, chunk=10)
c.bounds.append("all patterns up to depth 2 over two variables and a, f, g, followed by a default, on all %d terms up to depth 2; pairs of %d patterns with repeated compound subpatterns in two arguments" % (len(G2), 2 * len(S2)))

# B: bodies
lines.clear()
OTH = {"$q": [((C("f", x),), x), (("a",), "b")]}
PREQ = PRE + "(program $q ((x D)) :signature (D) D ((($q (f x)) x) (($q a) b)))\n"


def bodies(p):
    vs = sorted(v for v in pvars(p) if v != F)
    v = vs[0] if vs else "a"
    w = vs[-1] if vs else "b"
    r = [v, w, "a", C("f", v), C("g", w, v), C("g", C("f", w), w), ("$", "$q", [v]), ("$", "$q", [C("f", v)]), C("f", ("$", "$q", [v])),
         ("ite", ("eq", v, w), C("f", v), C("f", w)), ("ite", ("eq", v, "a"), ("$", "$q", [v]), "b"), ("req", v, "a", C("f", w)), ("req", v, w, "b"),
         ("$", "$q", [("$", "$q", [v])]), C("g", ("$", "$q", [v]), ("$", "$q", [w]))]
    if F in pvars(p):
        r += [C(F, "b"), C(F, C(F, v)), F]
    if isinstance(p, tuple):
        r += [("$", "$p", [v]), C("f", ("$", "$p", [v])), C("g", ("$", "$p", [v]), ("$", "$p", [w])), ("$", "$p", [("$", "$p", [v])]),
              ("ite", ("eq", v, "a"), "b", ("$", "$p", [w])), ("$", "$p", [C("f", "b")]) if v == x and p == C("g", x, y) else "b",
              ("req", ("$", "$p", [v]), ("$", "$p", [w]), C("f", v))]
    return r


BASE = [[], [((x,), x)], [(("a",), "a")], [((x,), C("f", x))], [((C("f", x),), ("$", "$p", [x])), (("b",), C("f", "b"))]]
for p in PATS:
    for bd in bodies(p):
        for base in BASE:
            prog_lines([((p,), bd)] + base, one, others=OTH)
c.positive(PREQ, lines, chunk=40)

# C: two arguments
lines.clear()
P2 = [x, y, "a", C("f", x), C("f", y), C("g", x, y), C("g", y, y), C(F, x)]
if not TH:
    P2 = P2[:5] + [P2[6], P2[7]]
A2 = ["a", "b", C("f", "a"), C("f", "b"), C("g", "a", "a"), C("g", "a", "b"), C("f", C("f", "a"))]
two = [(s, t) for s in A2 for t in A2]
for p1, p2, q1, q2 in itertools.product(P2, repeat=4):
    prog_lines([((p1, p2), mark(1, C("g", p1, p2))), ((q1, q2), mark(2, C("g", q1, q2)))], two if TH else two[::3] + two[:6], sig="D D")
c.positive(PRE, lines, chunk=60)
c.bounds.append("all two-argument programs of two cases over %d patterns per argument" % len(P2))

# D: three arguments, accumulators, and functions as arguments
lines.clear()
for ps in itertools.product([x, y, "a", C("f", x)], repeat=3):
    prog_lines([(ps, mark(1, C("m1", *ps)))], list(itertools.product(["a", "b", C("f", "a"), C("f", "b")], repeat=3)), sig="D D D")
FUN = ["f", "h", C("g", "a"), C("g", C("f", "b"))]
for p1, p2 in itertools.product([F, "f", C("g", x), C("g", "a")], [x, "a", C("f", x), C(F, x)]):
    for q1, q2 in itertools.product([F, "h", C("g", x)], [y, C("g", x, y)]):
        for bd in ([C("f", "b")], [C(F, "b"), C(F, C(F, "a"))])[F in pvars(p1) or F in pvars(p2)]:
            prog_lines([((p1, p2), bd), ((q1, q2), mark(2, C("g", q2, q2)))], [(s, t) for s in FUN for t in ARGS[:10]], sig="(-> D D) D")
c.positive(PRE, lines, chunk=60)

# E: literals as patterns and results, arguments that have to be evaluated first
lines.clear()
PRL = PRE + "(declare-const N Type)\n(declare-consts <numeral> N)\n(declare-const s (-> N N))\n(declare-const S Type)\n(declare-consts <string> S)\n"
NP = ["0", "1", "-1", "?n", C("s", "?n"), C("s", "0"), C("s", "1")]
NA = ["0", "1", "-1", "2", C("s", "0"), C("s", "1"), C("s", C("s", "0"))]
SRC = {"0": "(eo::add 1 -1)", "1": "(eo::add 0 1)", "-1": "(eo::neg 1)", "2": "(eo::mul 2 1)", C("s", "0"): "(_ s (eo::neg 0))"}
for p, q in itertools.product(NP, repeat=2):
    cs = [((p,), "10" if "?n" not in pvars(p) else C("s", "?n")), ((q,), "20" if "?n" not in pvars(q) else C("s", C("s", "?n")))]
    prog_lines(cs, [(t,) for t in NA], sig="N", ret="N")
    ls = []
    for t in NA:
        if t in SRC:
            ls.append(obs("($p %s)" % SRC[t], run("$p", [t], {"$p": cs})).replace("$p", "$z%d" % nm[0]).replace("$z%d" % nm[0], "$pp"))
    nm[0] += 1
    lines.append(("evaluated argument " + repr(cs), (defn("$p", cs, sig="N", ret="N") + "\n" + "\n".join(ls)).replace("$pp", "$p").replace("$p", "$p%d" % nm[0])))
for lits in (['""', '"a"', '"ab"'], ["true", "false"], ["1/2", "0/1", "-1/2"], ["#b0", "#b00", "#b1", "#b"]):
    ty = {"\"": "S", "t": "Bool"}.get(lits[0][0])
    for i, p in enumerate(lits):
        for j, q in enumerate(lits):
            nm[0] += 1
            cs = [((p,), lits[0]), ((q,), lits[1])]
            sg = ty or "(eo::typeof %s)" % p
            d = "(program $w%d ((T Type) (z T)) :signature (T) T ((($w%d %s) %s) (($w%d %s) %s)))" % (nm[0], nm[0], p, lits[0], nm[0], q, lits[1])
            ls = [obs("($w%d %s)" % (nm[0], l), run("$w", [l], {"$w": cs})) for l in lits]
            # obs increments nm: recompute the names used
            base = d.split()[1]
            ls = [l for l in ls]
            import re
            ls = [re.sub(r"\$w\d+", lambda m: base, l) for l in ls]
            lines.append((d, d + "\n" + "\n".join(ls)))
            c.tr(len(lits))
            c.st(("lit", p, q))
lines = [(k, t) for k, t in lines if "#b " not in t and "#b)" not in t]
c.positive(PRL, lines, chunk=60)

# F: recursion: lists, mutual recursion, depth, sharing
lines = []
LIST = PRE + """(declare-const or (-> D D D) :right-assoc-nil b)
(program $len ((x D) (y D :list)) :signature (D) D ((($len b) 0) (($len (or x y)) (eo::add 1 ($len y)))))
(program $rev ((x D) (y D :list) (z D)) :signature (D D) D ((($rev b z) z) (($rev (or x y) z) ($rev y (_ or x z)))))
(program $mem ((x D) (y D :list) (l D)) :signature (D D) Bool ((($mem b l) false) (($mem (or l y) l) true) (($mem (or x y) l) ($mem y l))))
(program $odd () :signature (D) Bool)
(program $even ((x D) (y D :list)) :signature (D) Bool ((($even b) true) (($even (or x y)) ($odd y))))
(program $odd ((x D) (y D :list)) :signature (D) Bool ((($odd b) false) (($odd (or x y)) ($even y))))
(program $sub ((T Type) (U Type) (S Type) (x S) (y S) (F (-> T U)) (t T) (z U)) :signature (S S U) U
 ((($sub x y x) y) (($sub x y (F t)) (_ ($sub x y F) ($sub x y t))) (($sub x y z) z)))
(program $dup ((x D)) :signature (D) D ((($dup a) a) (($dup (f x)) (_ g ($dup x) ($dup x)))))
(program $cnt ((x D) (y D)) :signature (D) D ((($cnt a) 1) (($cnt (g x y)) (eo::add ($cnt x) ($cnt y)))))
(program $fib ((n D)) :signature (D) D ((($fib 0) 0) (($fib 1) 1) (($fib n) (eo::add ($fib (eo::add n -1)) ($fib (eo::add n -2))))))
(program $ack ((m D) (n D)) :signature (D D) D ((($ack 0 n) (eo::add n 1)) (($ack m 0) ($ack (eo::add m -1) 1)) (($ack m n) ($ack (eo::add m -1) ($ack m (eo::add n -1))))))
(program $down ((n D)) :signature (D) D ((($down 0) a) (($down n) ($down (eo::add n -1)))))
(program $up ((n D)) :signature (D) D ((($up 0) 0) (($up n) (eo::add 1 ($up (eo::add n -1))))))
(program $acc ((n D) (x D)) :signature (D D) D ((($acc 0 x) x) (($acc n x) ($acc (eo::add n -1) (_ f x)))))
(program $wrap ((n D)) :signature (D) D ((($wrap 0) a) (($wrap n) (_ f ($wrap (eo::add n -1))))))
(program $peel ((x D)) :signature (D) D ((($peel a) 0) (($peel (f x)) (eo::add 1 ($peel x)))))
(declare-consts <numeral> D)
"""
els = ["a", "(f a)", "(g a b)"]
for n in range(0, 5):
    for xs in itertools.product(els, repeat=n):
        l = "b"
        for e in reversed(xs):
            l = "(_ or %s %s)" % (e, l)
        r = "b"
        for e in xs:
            r = "(_ or %s %s)" % (e, r)
        c.st(("list", xs))
        c.tr(6)
        for t, v in (("($len %s)" % l, str(n)), ("($rev %s b)" % l, r), ("($even %s)" % l, "true" if n % 2 == 0 else "false"),
                     ("($odd %s)" % l, "false" if n % 2 == 0 else "true")):
            lines.append((t, obs(t, v)))
        for e in els:
            t = "($mem %s %s)" % (l, e)
            lines.append((t, obs(t, "true" if e in xs else "false")))


def fib(n):
    p, q = 0, 1
    for _ in range(n):
        p, q = q, p + q
    return p


for n in list(range(0, 12)) + [30, 60, 90, 200]:
    lines.append(("fib %d" % n, obs("($fib %d)" % n, str(fib(n)))))
for m, n, v in [(0, 0, 1), (0, 3, 4), (1, 0, 2), (1, 3, 5), (2, 0, 3), (2, 2, 7), (2, 4, 11), (3, 0, 5), (3, 1, 13), (3, 2, 29)]:
    lines.append(("ack", obs("($ack %d %d)" % (m, n), str(v))))
for n in [0, 1, 2, 3, 10, 50, 100, 1000, 5000, 20000] + ([100000, 300000] if TH else []):
    lines.append(("down %d" % n, obs("($down %d)" % n, "a")))
    lines.append(("up %d" % n, obs("($up %d)" % n, str(n))))
    lines.append(("acc %d" % n, obs("($acc %d a)" % n, "($wrap %d)" % n)))
    if n <= 5000:
        lines.append(("peel %d" % n, obs("($peel ($wrap %d))" % n, str(n))))
    lines.append(("down stuck %d" % n, obs("($down (_ f %d))" % n, STUCK)))
for n in range(0, 10):
    t = "a"
    for _ in range(n):
        t = "(f %s)" % t
    lines.append(("dup %d" % n, obs("($cnt ($dup %s))" % t, str(2 ** n))))
t = "a"
for _ in range(60):
    t = "(f %s)" % t
lines.append(("dup 60", obs("($cnt ($dup %s))" % t, str(2 ** 60))))
ST = T3 if TH else T3[:40]
for u in ST:
    for p, q in ((("a"), C("f", "b")), (C("f", "a"), "b"), ("f", "h"), (C("g", "a"), "f"), ("b", "a"), (C("g", "a", "b"), "a")):
        def sb(t):
            if t == p:
                return q
            if isinstance(t, tuple):
                return ("@", sb(t[1]), sb(t[2]))
            return t
        c.tr()
        lines.append(("sub", obs("($sub %s %s %s)" % (txt(p), txt(q), txt(u)), sb(u))))
assert all(isinstance(k, str) for k, _ in lines)
c.positive(LIST, lines, chunk=100, timeout=60)
c.run([engine.Case("recursion " + k, LIST + t + "\n", "correct") for k, t in lines if k.split()[0] in ("fib", "ack", "down", "up", "acc", "peel", "dup")], timeout=60)

# G: where a call is evaluated does not matter; nor what was evaluated before
ctx = []
DEF = [("%s" % defn("$p", cs), cs) for cs in (
    [((C("f", x),), x), ((C("g", x, x),), "a"), ((C("g", x, y),), C("f", y)), (("a",), "b")],
    [((C("g", x, C("f", x)),), ("$", "$p", [x])), ((C("f", x),), C("f", ("$", "$p", [x]))), (("a",), "a")],
    [((C(F, x),), C(F, C(F, x))), ((x,), C("f", x))])]
for d, cs in DEF:
    for t in ARGS:
        v = run("$p", [t], {"$p": cs})
        if v is None:
            continue
        tt = txt(t)
        vt = "true" if v == STUCK else txt(v)
        lhs = "(eo::is_ok %s)" if v == STUCK else "%s"
        rhs = "false" if v == STUCK else vt
        forms = [
            "(declare-const w (eo::requires %s %s Bool))" % (lhs % ("($p %s)" % tt), rhs),
            "(define k () ($p %s))\n(declare-const w (eo::requires %s %s Bool))" % (tt, lhs % "k", rhs),
            "(define k ((z D)) ($p z))\n(declare-const w (eo::requires %s %s Bool))" % (lhs % ("(k %s)" % tt), rhs),
            "(program $o ((z D)) :signature (D) D ((($o z) ($p z))))\n(declare-const w (eo::requires %s %s Bool))" % (lhs % ("($o %s)" % tt), rhs),
            "(program $o ((z D)) :signature (D) D ((($o z) %s)))\n(declare-const w (eo::requires ($o a) %s Bool))" % (lhs % ("($p %s)" % tt), rhs),
            "(declare-rule r ((z D)) :args (z) :requires ((%s %s)) :conclusion true)\n(step w true :rule r :args (%s))" % (lhs % "($p z)", rhs, tt),
            "(declare-const P (-> D Bool))\n(declare-const Q (-> Bool Bool))\n(declare-rule r ((z D)) :args (z) :conclusion (%s %s))\n(step w (%s %s) :rule r :args (%s))"
            % ("Q" if v == STUCK else "P", lhs % "($p z)", "Q" if v == STUCK else "P", rhs, tt),
            "(declare-const w (eo::requires (let ((z %s)) %s) %s Bool))" % (tt, lhs % "($p z)", rhs),
            "(declare-const w (eo::requires (eo::define ((z ($p %s))) %s) %s Bool))" % (tt, lhs % "z", rhs),
        ]
        c.tr(len(forms))
        for i, fm in enumerate(forms):
            c.st(("place", i, repr(cs), t))
            if "let ((z" in fm:
                ctx.append(engine.Case("place%d %s" % (i, tt), '(include "s.eo")\n' + fm + "\n", "correct", name="c.smt3", files={"s.eo": PRE + d + "\n"}))
            else:
                ctx.append(engine.Case("place%d %s" % (i, tt), PRE + d + "\n" + fm + "\n", "correct"))
c.run(ctx)
H = [("($fib 7)", "13"), ("($mem (_ or a b) a)", "true"), ("($even b)", "true"), ("($sub a b (f a))", "(f b)"), ("($dup (f a))", "(g a a)"), ("($rev (_ or a b) b)", "(_ or a b)")]
hist = []
for n in (2, 3):
    for seq in itertools.product(H, repeat=n):
        c.tr(n)
        hist.append((repr([s[0] for s in seq]), "\n".join(obs(s, v) for s, v in seq)))
c.positive(LIST, hist, chunk=1 if TH else 3)

# H: when programs are not invoked, and which definitions are legal
O = lambda t, v: engine.Case(t, PRE2 + obs(t, v) + "\n", "correct")
PRE2 = PRE + """(program $i ((x D)) :signature (D) D ((($i x) x)))
(program $j ((F (-> D D))) :signature ((-> D D)) D ((($j F) a)))
(program $k ((T Type) (x T)) :signature (T) D ((($k x) a)))
(program $part ((x D)) :signature (D) D ((($part a) b)))
(program $b ((x Bool)) :signature (Bool) D ((($b x) a)))
"""
cs = []
for st in ("(eo::add a b)", "($part b)", "(eo::requires a b a)", "(_ f ($part b))", "(_ g a (eo::extract a b a))", "($i ($part b))", "(eo::ite a b b)"):
    for fn in ("$i", "$k"):
        cs.append(O("(%s %s)" % (fn, st), STUCK))
        c.tr()
for fn in ("$i", "$part", "eo::add", "eo::not", "eo::is_ok"):
    cs.append(engine.Case("$j " + fn, PRE2 + "(declare-const w (eo::requires (eo::is_ok ($j %s)) true Bool))\n" % fn, "reject"))
    cs.append(engine.Case("$k " + fn, PRE2 + "(declare-const w (eo::requires ($k %s) a Bool))\n" % fn, "reject"))
cs += [O("($j f)", "a"), O("($j (_ g a))", "a"), O("($k f)", "a"), O("($k D)", "a"), O("($k ($i a))", "a"), O("($part ($part a))", STUCK), O("($part ($i a))", "b"),
       O("($b (eo::is_ok ($part b)))", "a"), O("($b (eo::is_ok ($part a)))", "a")]
PR = "(x D) (y D) (F (-> D D))"
for body, okk in [
    ("((($n x) x))", 1), ("((($n x) y))", 0), ("((($n (f x)) x) (($n y) x))", 0), ("((($n a) x))", 0), ("((($n (F x)) (F y)))", 0),
    ("(((f x) x))", 0), ("((x x))", 0), ("((($i x) x))", 0), ("((a a))", 0), ("((($n (eo::add x y)) x))", 0), ("((($n ($i x)) x))", 0), ("((($n (f ($i x))) x))", 0),
    ("((($n (eo::is_ok x)) a))", 0), ("((($n x y) x))", 0), ("((($n x) x) (($n x y) x))", 0), ("(((_ $n x) x))", 1), ("((($n ($n x)) x))", 0), ("((($n x) zz))", 0), ("((($n zz) a))", 0),
    ("((($n x) ($n x)))", 1), ("((($n x)))", 0), ("((($n x) x x))", 0), ("(($n x) x)", 0), ("((($n (g x x)) (g x x)) (($n (f y)) (F y)))", 0), ("((($n (F x)) (_ F x)))", 1)]:
    cs.append(engine.Case("definition " + body, PRE2 + "(program $n (%s) :signature (D) D %s)\n" % (PR, body), "correct" if okk else "reject"))
# (the types of the arguments of a call that is evaluated are not checked)
for t in ("($i a b)", "(_ $part a)", "($i)"):
    cs.append(engine.Case("ill formed call " + t, PRE2 + "(declare-const w (eo::requires %s a Bool))\n" % t, "any" if t.startswith("(_") else "reject"))
cs.append(engine.Case("forward declared without a body", PRE2 + "(program $fw ((x D)) :signature (D) D)\n(declare-const w (eo::requires (eo::is_ok ($fw a)) false Bool))\n", "any"))
for n, cm in enumerate(["(program $fw ((x D)) :signature (D D) D ((($fw x x) x)))", "(program $fw ((x D)) :signature (D) Bool ((($fw x) true)))"]):
    cs.append(engine.Case("forward declaration with another type %d" % n, PRE2 + "(program $fw () :signature (D) D)\n" + cm + "\n", "reject"))
for k in cs:
    c.st(k.key)
c.run(cs)
# I: a stuck argument at every position of calls of up to six arguments, for
# catch-all cases and cases that bind every subset of the arguments
lines = []
STK = ["(eo::add a b)", "($part b)", "(_ f ($part b))", "(_ g a (eo::neg b))"]
for n in range(1, 7):
    xs = ["x%d" % i for i in range(n)]
    prm = " ".join("(%s D)" % x for x in xs)
    sg = " ".join(["D"] * n)
    for m in range(1 << n):
        # argument i is used in the result (bit set), or fixed to a
        pat = " ".join(x if m >> i & 1 else "a" for i, x in enumerate(xs))
        res = [x for i, x in enumerate(xs) if m >> i & 1]
        nm[0] += 1
        d = "(program $q%d (%s) :signature (%s) D ((($q%d %s) b) (($q%d %s) a)))" % (nm[0], prm, sg, nm[0], pat, nm[0], " ".join(xs))
        e = "(program $r%d (%s) :signature (%s) D ((($r%d %s) %s)))" % (nm[0], prm, sg, nm[0], " ".join(xs), res[-1] if res else "a")
        ls = [d, e, obs("($q%d %s)" % (nm[0], " ".join(["a"] * n)), "b")]
        q = d.split()[1]
        r = e.split()[1]
        for sub in range(1, 1 << n):
            if bin(sub).count("1") > (n if TH else 2):
                continue
            for k, st in enumerate(STK if bin(sub).count("1") == 1 else STK[:1]):
                args = " ".join(st if sub >> i & 1 else "a" for i in range(n))
                ls.append(obs("(%s %s)" % (q, args), STUCK))
                ls.append(obs("(%s %s)" % (r, args), STUCK))
                c.tr(2)
                c.st(("stuck argument", n, m, sub, k))
        lines.append(("stuck arguments of %d, pattern %d" % (n, m), "\n".join(ls)))
c.sample(lines[20][1][:600])
c.positive(PRE2, lines, chunk=10)
c.bounds.append("stuck arguments at every set of up to %s positions of calls of up to six arguments" % ("six" if TH else "two"))
scale.run(c)
c.finish()
