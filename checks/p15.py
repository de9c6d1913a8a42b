"""P15: printed terms read back as the same term. Every term within the bounds
is printed by the checker (in the message about a type that does not
evaluate), and what is printed is read back and compared with the term."""
import itertools
import re
import sys
from mc import engine
from mc.engine import Case

c = engine.Check("P15")
TH = c.thorough
last = [0, 0, 0]


def part(name):
    c.part(name, 0, 0)
    n = len(c.seen)
    c.parts[name] = dict(states=n - last[0], transitions=c.transitions - last[1], traces=c.traces - last[2])
    last[:] = [n, c.transitions, c.traces]


PRE = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const Real Type)
(declare-consts <rational> Real)
(declare-consts <decimal> Real)
(declare-const String Type)
(declare-consts <string> String)
(declare-const BitVec (-> Int Type))
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-const Hex Type)
(declare-consts <hexadecimal> Hex)
(declare-const Lst (-> Type Type))
(declare-const U Type)
(declare-const a U)
(declare-const b U)
(declare-const p Bool)
(declare-const q Bool)
(declare-const f (-> U U))
(declare-const g (-> U U U))
(declare-const h (-> U U U U))
(declare-const hf (-> (-> U U) U U))
(declare-const gf (-> U (-> U U)))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const and (-> Bool Bool Bool) :left-assoc-nil true)
(declare-const + (-> U U U) :left-assoc)
(declare-const ^ (-> U U U) :right-assoc)
(declare-const < (-> U U Bool) :chainable or)
(declare-const distinct (-> U U Bool) :pairwise or)
(declare-const set (-> eo::List U) :arg-list eo::List::cons)
(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-parameterized-const P ((T Type :implicit)) (-> T Bool))
(declare-parameterized-const dep ((n Int :opaque)) (-> U U))
(declare-parameterized-const dep0 ((n Int :opaque)) U)
(declare-parameterized-const dep2 ((n Int :opaque) (t U :opaque)) (-> U U U))
(declare-parameterized-const bv ((n Int)) (-> (BitVec n) U))
(declare-datatypes ((L 1)) ((par (X) ((lnil) (lcons (lhd X) (ltl (L X)))))))
(declare-datatype D ((d0) (d1 (s1 U) (s2 D))))
(declare-parameterized-const mt ((S Type :implicit)) (Lst S))
(program $pr ((x1 U)) :signature (U) U ((($pr (f x1)) x1)))
(program $pr2 ((x2 U) (y2 U)) :signature (U U) U ((($pr2 (f x2) y2) x2)))
"""
SHOW = re.compile(r"Type: \(eo::requires (.*) zz Bool\)", re.S)
DAG = re.compile(r"Type: (.*)", re.S)


def check(name, pairs, pre="", opts=(), wrap=False, same=True):
    """pairs: [(text, text of the same term or None)]"""
    seen, ts = set(), []
    for t in pairs:
        if t not in seen:
            seen.add(t)
            ts.append(t)
    # what is printed
    decl = PRE + "(declare-const zz Bool)\n" + pre
    cs = [Case("%s/%s" % (name, t), None, "reject", files={"c.eo": decl + "(declare-const t (eo::requires %s zz Bool))\n" % t}, name="c.eo", argv=list(opts) + ["c.eo"]) for t in ts]
    res = c.execute(cs, "rel", 10.0, 1 << 20)
    c.execs += len(cs)
    lines, back = [], {}
    for k, t, (v, o) in zip(cs, ts, res):
        c.st((name, pre, t, tuple(opts)))
        c.tr(2)
        m = SHOW.search(o) if "--print-dag" not in opts else DAG.search(o)
        if v != "reject" or "unevalated term" not in o or m is None:
            c.violation(k, "rel", "the term is not printed", "%s | %s" % (v, o))
            continue
        s = m.group(1).rstrip("\n")
        back.setdefault(s, []).append(t)
        if "--print-dag" in opts:
            # the printed term is the whole of the stuck type
            lines.append(("%s/%r prints %r" % (name, t, s), "(define zz () %s)\n(declare-const t %s)" % (t, s)))
        else:
            lines.append(("%s/%r prints %r" % (name, t, s), "(declare-const t (eo::requires %s %s Bool))" % (s, t)))
    if "--print-dag" in opts:
        pre2 = PRE + pre
        c.positive(pre2, lines, chunk=1)
    else:
        c.positive(PRE + pre, lines, chunk=60)
    # distinct terms print differently (they are distinct if written so)
    if same:
        for s, xs in back.items():
            if len(xs) > 1:
                c.positive(PRE + pre, [("%s/%s and %s print %s" % (name, xs[0], x, s), "(declare-const t (eo::requires %s %s Bool))" % (xs[0], x)) for x in xs[1:]])
    c.sample("%r -> %r" % (lines[len(lines) // 2][0], lines[len(lines) // 2][1]) if lines else "none")


def both(name, ts, pre="", **kw):
    check(name, ts, pre, ("--no-print-dag",), **kw)
    check(name + ", shared", ts, pre, ("--print-dag",), **kw)
    part(name)


# -------------------------------------------------------------- literals
B = 70 if TH else 17
INT = sorted({s * (2 ** k + d) for k in list(range(9)) + [31, 32, 63, 64, 65, 128] for d in (-1, 0, 1) for s in (1, -1)} | set(range(-12, 13)) | {10 ** k for k in range(25)})
L = ["%d" % i for i in INT]
L += ["%d/%d" % (n, d) for n in (-7, -2, -1, 0, 1, 2, 3, 10, 10 ** 20) for d in (1, 2, 3, 5, 7, 10, 10 ** 20)]
L += ["#b" + "".join(x) for w in range(1, 9 if TH else 7) for x in itertools.product("01", repeat=w)] + ["#b" + "0" * w + x for w in range(1, B) for x in ("0", "1", "10")] + ["#b" + "1" * w for w in range(1, B)]
L += ["#x" + "".join(x) for w in (1, 2) for x in itertools.product("0123456789aBcDeF", repeat=w)] + ["#x" + "0" * w + x for w in range(1, B) for x in ("0", "1", "a0")] + ["#x" + "f" * w for w in range(1, B)]
SC = ["a", "Z", " ", '""', "\\", "\\u{5c}", "\\u{22}", "\\u{0}", "\\u{41}", "\\u{7f}", "\\u{e9}", "\\u{2ffff}", "u", "{", "}", "4", "1", "|", ";", "(", ")", "\t", "\n", "\\u0041", "'"]
STR = ['"%s"' % "".join(x) for w in (0, 1, 2) + ((3,) if TH else ()) for x in itertools.product(SC, repeat=w)] + ['"\\u{%x}"' % k for k in list(range(0x110 if not TH else 0x400)) + [0xffff, 0x10000, 0x2fffe]]
both("numerals, rationals and bit-vectors", L)
both("strings", STR)
both("literals in terms", ["(P %s)" % x for x in L[::7] + STR[::9]] + ["(_ (_ eo::List::cons %s) (eo::List::cons %s))" % (x, y) for x in L[::41] + STR[::41] for y in STR[::67]])
DEC = ["%s%s.%s" % (s, i, d) for s in ("", "-") for i in ("0", "1", "12") for d in ("0", "5", "25", "001", "125000")]
# decimals print as the rational with an annotation
lines = []
for t in DEC:
    k = Case("decimals/" + t, PRE + "(declare-const zz Bool)\n(declare-const t (eo::requires %s zz Bool))\n" % t, "reject")
    (v, o), = c.execute([k], "rel", 10.0, 1 << 20)
    c.execs += 1
    m = SHOW.search(o)
    c.st(("dec", t))
    c.tr()
    if not m:
        c.violation(k, "rel", "the term is not printed", o)
        continue
    s = m.group(1)
    lines.append(("decimals/%s prints %r" % (t, s), "(declare-const t (eo::requires (eo::to_q %s) (eo::to_q %s) Bool))" % (s, t)))
    lines.append(("decimals/%s prints %s, kind" % (t, s), "(declare-const t (eo::requires %s %s Bool))" % ("true" if ":decimal)" in s or "." in s else "false", "true")))
c.positive(PRE, lines)
part("decimals")

# --------------------------------------------------------------- symbols
CH = ["a", "B", "0", "1", "-", "+", ".", "/", " ", "#", ":", "_", "!", "\\", "\"", "(", ")", ";", "~", "@", "$", "%", "&", "*", "<", ">", "=", "?", "^", ",", "'", "`", "[", "{", "\t", "\n", "é", "x", "b", "e"]
NAMES = ["".join(x) for w in (0, 1, 2) + ((3,) if TH else ()) for x in itertools.product(CH if w < 3 else CH[:16], repeat=w)]
NAMES += ["-12", "-1/2", "-1.5", "+1", "1.5", "1/2", "#b0", "#xF", "true1", ":named", "let1", "x" * 100, "eo", "eo:", "eo::zz", "eo::z z", "-", "--1", "-a", "-1a", "--", "-0", "-0.5", "-1.", "-.5", "-1/", "-/2", "1-", "e1"]
USED = set(re.findall(r"\((?:declare-[a-z-]+|program) (\S+)", PRE)) | {"zz", "_", "!", "->", "lnil", "lcons", "lhd", "ltl", "d0", "d1", "s1", "s2", "t", "^", "+", "<", "or", "p", "q", "D", "L"}
NAMES = list(dict.fromkeys(n for n in NAMES if n not in USED and "|" not in n and n not in ("x1", "x2", "y2")))
# one name at a time
ts = []


def names(kind, mk):
    cs = []
    for n in NAMES:
        d, t = mk("|%s|" % n)
        cs.append((n, d, t, Case("%s/%r" % (kind, n), PRE + "(declare-const zz Bool)\n%s\n(declare-const t (eo::requires %s zz Bool))\n" % (d, t), "reject", argv=["--no-print-dag", "c.eo"])))
    res = c.execute([x[3] for x in cs], "rel", 10.0, 1 << 20)
    c.execs += len(cs)
    back, lines, again = {}, [], []
    for (n, d, t, k), (v, o) in zip(cs, res):
        m = SHOW.search(o)
        c.st((kind, n))
        c.tr(2)
        if not m:
            c.violation(k, "rel", "the term is not printed", o)
            continue
        s = m.group(1)
        if s in back:
            c.violation(k, "rel", "prints the same as the name %r" % back[s], o)
        back[s] = n
        if kind == "names of programs":
            again.append(Case("%s/%r prints %r" % (kind, n, s), PRE + "(declare-const zz Bool)\n%s\n(declare-const t (eo::requires %s zz Bool))\n" % (d, s), same(s), argv=["--no-print-dag", "c.eo"]))
            continue
        lines.append(("%s/%r prints %r" % (kind, n, s), "%s\n(declare-const t (eo::requires %s %s Bool))" % (d, s, t)))
    c.positive(PRE, lines, chunk=1)
    c.run(again)


def same(s):
    """the text of a term that does not evaluate is printed again"""
    def f(v, o):
        m = SHOW.search(o)
        return None if v == "reject" and m and m.group(1) == s else "what is printed does not read back"
    return f


names("names of constants", lambda n: ("(declare-const %s U)" % n, n))
names("names of functions", lambda n: ("(declare-const %s (-> U U))" % n, "(%s a)" % n))
names("names of types", lambda n: ("(declare-const %s Type)" % n, "(-> %s U)" % n))
names("names of bound variables", lambda n: ("", "(forall ((%s U)) (P %s))" % (n, n)))
names("names of programs", lambda n: ("(program %s ((x1 U)) :signature (U) U (((%s (f x1)) x1)))" % (n, n), "(%s a)" % n))
part("names")

# ------------------------------------------------------------------ terms
A0 = ["a", "b", "(eo::var \"x\" U)", "(dep0 3)", "(dep0 4)"]
F1 = ["f", "(g a)", "(_ + a)", "(dep 3)", "(dep (eo::add 1 3))", "(h a b)", "(hf f)", "(gf a)", "(dep2 1 a b)", "(_ ^ b)"]
T1 = A0 + ["(_ %s %s)" % (x, y) for x in F1 for y in A0] + ["(g %s %s)" % x for x in itertools.product(A0, A0)] + ["(+ a b %s)" % x for x in A0] + ["(^ a b %s)" % x for x in A0] + ["(set a b)", "(set a)", "(_ set eo::List::nil)", "(bv 2 #b11)"]
BOOL = ["p", "q", "true", "false", "(P a)", "(or p q)", "(or p)", "(_ or p q)", "(_ or p (or q))", "(or p q true)", "(and p q)", "(and p)", "(_ and p q)", "(and p q (or p q))", "(< a b)", "(< a b a)", "(distinct a b a)", "(distinct a b)", "(P f)", "(P or)", "(P (_ or p))", "(P (_ and p))", "(P (g a))", "(forall ((x U)) (P x))",
        "(forall ((x U) (y (-> U U))) (P (y x)))", "(forall (eo::List::cons a b) p)", "(forall eo::List::nil p)", "(P eo::List::nil)", "(P (eo::List::cons a p))", "(P (_ eo::List::cons a))", "(P (lcons a (as lnil (L U))))", "(P (as lnil (L U)))", "(P (as lnil (L (L U))))",
        "(P d0)", "(P (d1 a d0))", "(P (d1 a))", "(P s1)", "(P (s1 (d1 a d0)))", "(P 1)", "(P U)", "(P (-> U U))", "(P (-> U U U))", "(P (-> (-> U U) U))", "(P (Lst (-> U U)))", "(P Lst)", "(P (BitVec 4))", "(P Type)", "(P Bool)", "(P (L U))", "(P L)",
        "(P forall)", "(P (_ forall (eo::List::cons a)))", "(P set)", "(P (_ < a))", "(P (_ distinct a))"]
T2 = ["(P %s)" % x for x in T1] + BOOL + ["(or %s %s)" % x for x in itertools.product(BOOL, BOOL)] + ["(_ or %s)" % x for x in BOOL] + ["(_ and %s)" % x for x in BOOL] + ["(and %s %s p)" % x for x in itertools.product(BOOL[::3], BOOL[::2])]
T2 += ["(_ %s %s)" % (x, y) for x in F1 for y in T1] + ["(g %s %s)" % x for x in itertools.product(T1, T1)] + ["(h %s %s a)" % x for x in itertools.product(T1[::2], T1[::3])] + ["(_ (h a) %s)" % x for x in T1] + ["(hf %s %s)" % (x, y) for x in F1 for y in T1[::2]] + ["(h %s %s)" % x for x in itertools.product(T1[::3], T1[::3])]
if TH:
    T2 += ["(forall ((x U)) (or %s %s))" % x for x in itertools.product(BOOL, BOOL)] + ["(g (g %s %s) (g %s a))" % x for x in itertools.product(T1[::2], T1[::3], T1[::5])] + ["(or %s (and %s %s) q)" % x for x in itertools.product(BOOL[::2], BOOL[::2], BOOL)]
both("terms", T1 + T2, same=False)
# types
TY0 = ["U", "Bool", "Int", "Type", "(BitVec 4)", "(Lst U)", "D", "(L D)", "eo::List", "(-> U U)"]
TY = TY0 + ["(-> %s %s)" % x for x in itertools.product(TY0, TY0)] + ["(-> %s %s %s)" % x for x in itertools.product(TY0[::2], TY0, TY0[::3])] + ["(Lst %s)" % x for x in TY0] + ["(L (L %s))" % x for x in TY0] + ["(-> (-> %s %s) %s)" % x for x in itertools.product(TY0[:6], TY0[:6], TY0[::2])]
both("types", TY, same=False)

# sizes: depth, width, lengths, shared subterms
SZ = [3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257] + ([511, 512, 513, 1000, 1023, 1024, 1025] if TH else [])
ZP = "".join("(declare-const w%d (-> %s U))\n" % (n, "U " * n) for n in SZ) + "".join("(declare-const v%d U)\n" % i for i in range(10, SZ[-1] + 10))
Z, SH = [], []
for n in SZ:
    vs = ["v%d" % (i + 10) for i in range(n)]
    Z += ["(f " * n + "a" + ")" * n, "(g a " * n + "b" + ")" * n, "(g (g a b) " * n + "b" + ")" * n, "(w%d %s)" % (n, " ".join(vs)), "(_ w%d %s)" % (n, " ".join(vs[1:])), "(+ %s)" % " ".join(vs), "(^ %s)" % " ".join(vs), "(set %s)" % " ".join(vs), "(or %s)" % " ".join(["p", "q", "p"] * n),
          "(and %s)" % " ".join(["p", "q", "q"] * n), "(< %s)" % " ".join(vs), "(forall (%s) (P x%d))" % (" ".join("(x%d U)" % i for i in range(n)), n // 2),
          "".join("(forall ((x%d U)) " % i for i in range(n)) + "(P x%d)" % (n // 2) + ")" * n, "(P (-> %s))" % " ".join(["U", "Int", "Bool"] * n), "(P (->" + " U (->" * (n - 1) + " U Bool" + ")" * (2 * n - 1) + ")" if n < 2 else "(P " + "(-> U " * n + "Bool" + ")" * n + ")",
          "(P " + "(Lst " * n + "U" + ")" * n + ")", '(P "%s")' % ("ab" * n), "(P #b%s)" % ("011" * n), "(P #x%s)" % ("0f1" * n), "(P %s)" % ("123" * n), "(P -%s/%s)" % ("123" * n, "10" * n + "1")]
    if n <= 65:
        Z += ["(distinct %s)" % " ".join(vs)]
        SH += ["(eo::define ((x %s)) " % i + "(eo::define ((x (g x x))) " * n + r + ")" * (n + 1) for i in ("a", "(f a)") for r in ("x", "(h x a x)")]
        SH += ["(eo::define ((x p)) " + "(eo::define ((x (or x (and x q)))) " * n + "x" + ")" * (n + 1), "(eo::define ((x p)) " + "(eo::define ((x (forall ((y U)) (or x x)))) " * n + "x" + ")" * (n + 1)]
    SH += ["(+ %s)" % " ".join(["(f a)", "(g a b)", "(f b)"] * n), "(+ %s)" % " ".join("(f v%d)" % (10 + i % (n // 2 + 1)) for i in range(n))]
both("sizes", Z, ZP, same=False)
check("sharing at sizes", SH, ZP, ("--print-dag",), same=False)
part("sharing at sizes")

# symbols whose names are those that the checker gives to shared subterms
CN = ["_v0", "_v1", "__v0", "_v2"]
CP = "".join("(declare-const %s U)\n" % x for x in CN) + "(declare-const _v3 (-> U U))\n(declare-const ___v0 (-> U U U))\n(declare-const _v Type)\n"
C1 = CN[:3] + ["(f %s)" % x for x in CN[:3]] + ["(g _v0 _v1)", "(_v3 _v1)", "(___v0 a _v0)", "(f a)"]
C2 = C1 + ["(g %s %s)" % x for x in itertools.product(C1, C1)] + ["(f (g %s a))" % x for x in C1]
CS = ["(h %s %s %s)" % x for x in itertools.product(C1, C1, C1)] + ["(h %s %s %s)" % (x, x, y) for x in C2 for y in C1] + ["(g %s %s)" % x for x in itertools.product(C2, C2[::1 if TH else 5])]
CS += ["(forall ((%s U)) (or (P (f %s)) (P (f %s)) (P %s)))" % (x, x, y, z) for x in CN for y in CN for z in CN]
check("symbols named like shared subterms", CS, CP, ("--print-dag",), same=False)
part("symbols named like shared subterms")

# ------------------------------------- computations that are stuck: each operator
ARG = {1: ["a", "p", "(f a)", "(eo::requires p q a)"], 2: ["a", "(or p q)", "1", "(eo::add 1 zq)"]}
OPS1 = "hash nameof typeof not neg is_neg len to_z to_q to_str dt_constructors dt_selectors".split()
OPS2 = "eq and or xor add mul zdiv zmod qdiv gt concat find to_bin cmp".split()
LST2 = "list_len list_rev list_setof list_singleton_elim".split()
LST3 = "list_concat list_nth list_find list_erase list_erase_all list_minclude list_meq list_diff list_inter cons".split()
ST = ["($pr a)", "($pr2 a b)", "(eo::requires p q a)", "(eo::ite p a b)"]
E = ["(eo::%s %s)" % (o, x) for o in OPS1 for x in ST] + ["(eo::%s %s %s)" % (o, x, y) for o in OPS2 for x in ST + ["1", "a", "\"s\"", "#b1"] for y in ST] + ["(eo::%s or %s)" % (o, x) for o in LST2 for x in ST] + ["(eo::%s or %s %s)" % (o, x, y) for o in LST3 for x in ST + ["(or p q)"] for y in ST]
E += ["(eo::requires %s %s %s)" % x for x in itertools.product(ST[:3], ["p", "1"], ["a", "(f b)"])] + ["(eo::ite %s %s %s)" % x for x in itertools.product(ST[:3], ST, ["a"])] + ["(eo::extract %s %s %s)" % x for x in itertools.product(ST[:2], ["0", "($pr a)"], ["1", "($pr b)"])] + ["(eo::nil or %s)" % x for x in ["U"]] + ["(f %s)" % x for x in ST] + ["(g %s %s)" % x for x in itertools.product(ST, ST)]
E += ["($pr %s)" % x for x in ST + ["a", "(g a b)"]] + ["($pr2 %s %s)" % x for x in itertools.product(ST, ST)] + ["(P (-> U (eo::typeof %s)))" % x for x in ST[:2]] + ["(or (P %s) %s)" % (x, y) for x in ST for y in BOOL[:8] + BOOL[9:12]] + ["(_ or (P %s))" % x for x in ST]
# an operator that evaluates is of no interest here: both sides evaluate


def stuck(ts):
    """terms that do not evaluate are compared by printing them again"""
    shown = {}
    cs = [Case("stuck/%s" % t, PRE + "(declare-const zz Bool)\n(declare-const t (eo::requires %s zz Bool))\n" % t, "reject", argv=["--no-print-dag", "c.eo"]) for t in ts]
    res = c.execute(cs, "rel", 10.0, 1 << 20)
    c.execs += len(cs)
    for k, t, (v, o) in zip(cs, ts, res):
        m = SHOW.search(o)
        c.st(("stuck", t))
        c.tr(2)
        if not m or v != "reject":
            c.violation(k, "rel", "the term is not printed", "%s | %s" % (v, o))
            continue
        shown[t] = m.group(1)
    # identity is observed by the equality of an opaque wrapper's patterns:
    # a program that matches two equal arguments
    cs = []
    for t, s in shown.items():
        cs.append((t, s, Case("stuck/%r prints %r" % (t, s), PRE + "(declare-const zz Bool)\n(declare-const t (eo::requires %s zz Bool))\n" % s, "reject", argv=["--no-print-dag", "c.eo"])))
    res = c.execute([x[2] for x in cs], "rel", 10.0, 1 << 20)
    c.execs += len(cs)
    c.traces += len(cs)
    for (t, s, k), (v, o) in zip(cs, res):
        m = SHOW.search(o)
        if not m or m.group(1) != s:
            c.violation(k, "rel", "what is printed does not read back", "%s | %s" % (v, o))
    # different terms print differently
    inv = {}
    for t, s in shown.items():
        x = re.sub(r"\s+", " ", t)
        inv.setdefault(s, []).append(x)
    for s, xs in inv.items():
        if len(xs) > 1:
            c.violation(Case("stuck/%s" % xs[0], "", "reject"), "rel", "prints the same as %s" % xs[1:3], s)


stuck(sorted(set(E)))
part("computations that do not evaluate")
c.bounds = ["%d literals, %d names in 5 roles, %d terms and %d types, %d computations" % (len(L) + len(STR), len(NAMES), len(T1 + T2), len(TY), len(E)), "with and without sharing (--print-dag)"]
c.assumptions = ["decimals are printed as the rational of the same value with an annotation", "names that are overloaded or shadowed at the point of the message are not judged, nor are names that contain a vertical bar"]
c.finish()
