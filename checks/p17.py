"""P17: normalization and parsing options. The model keeps, for every file
being read, its kind (signature, proof, reference), and the current value of
each option, and says which literal each literal text denotes. All command
line option sequences up to a bound, all kinds of files and ways of including
them, and all interleavings of set-option commands and observations are
replayed. Values are compared with names which a signature gave to them."""
import itertools
from fractions import Fraction as F
from mc import engine
from mc.engine import Case

c = engine.Check("P17")
TH = True
DEEP = c.thorough
# literal texts: (text, category, value)
LITS = [("0", "num", 0), ("7", "num", 7), ("007", "num", 7), ("-3", "num", -3), ("12345678901234567890123", "num", 12345678901234567890123),
        ("0.0", "dec", F(0)), ("1.50", "dec", F(3, 2)), ("-2.25", "dec", F(-9, 4)), ("3.0", "dec", F(3)), ("00.125000", "dec", F(1, 8)),
        ("1/2", "rat", F(1, 2)), ("2/4", "rat", F(1, 2)), ("-6/3", "rat", F(-2)),
        ("#b0", "bin", (1, 0)), ("#b0101", "bin", (4, 5)), ("#x0", "hex", (4, 0)), ("#x05", "hex", (8, 5)), ("#xAb", "hex", (8, 0xab)), ("#xFFFFFFFFFFFFFFFFF", "hex", (68, 16 ** 17 - 1)),
        ('"1"', "str", "1"), ('"1.5"', "str", "1.5")]
DEFAULT = {"normalize-num": False, "normalize-dec": True, "normalize-hex": True, "parse-let": True}
TYPE = {"num": "N", "dec": "D", "rat": "Q", "bin": "B", "hex": "H", "str": "S"}


def denote(lit, kind, opts):
    _, cat, v = lit
    if kind != "sig":
        if cat == "num" and opts["normalize-num"]:
            return ("rat", F(v))
        if cat == "dec" and opts["normalize-dec"]:
            return ("rat", v)
        if cat == "hex" and opts["normalize-hex"]:
            return ("bin", v)
    return (cat, v)


def text(d):
    cat, v = d
    if cat == "num":
        return str(v)
    if cat == "rat":
        return "%d/%d" % (v.numerator, v.denominator)
    if cat == "dec":
        n = 0
        while (v * 10 ** n).denominator != 1:
            n += 1
        n = max(n, 1)
        a = abs(int(v * 10 ** n))
        s = str(a).rjust(n + 1, "0")
        return ("-" if v < 0 else "") + s[:-n] + "." + s[-n:]
    if cat == "bin":
        return "#b" + bin(v[1])[2:].rjust(v[0], "0")
    if cat == "hex":
        return "#x" + hex(v[1])[2:].rjust(v[0] // 4, "0")
    return '"%s"' % v


# every literal a text can denote
VALS = sorted({denote(l, "proof", dict(zip(DEFAULT, o))) for l in LITS for o in itertools.product((False, True), repeat=4)}, key=repr)
NAME = {v: "v%d" % i for i, v in enumerate(VALS)}
SIG = "".join("(declare-const %s Type)" % t for t in TYPE.values()) + """
(declare-consts <numeral> N)
(declare-consts <decimal> D)
(declare-consts <rational> Q)
(declare-consts <binary> B)
(declare-consts <hexadecimal> H)
(declare-consts <string> S)
(declare-const U Type)
(declare-const u U)
(declare-const w U)
(declare-const let (-> U U))
(declare-parameterized-const P ((T Type :implicit)) (-> T Bool))
(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))
(declare-parameterized-const pr ((T1 Type :implicit) (T2 Type :implicit)) (-> T1 T2 U))
(declare-rule arg ((T Type) (x T)) :args (x) :conclusion (P x))
(declare-rule prem ((T Type) (x T)) :premises ((P x)) :conclusion (P x))
""" + "".join("(define %s () %s)\n" % (n, text(v)) for v, n in NAME.items())


def obs(lit, kind, opts, deep=False):
    """commands accepted iff the text denotes what the model says"""
    d = denote(lit, kind, opts)
    c.st((lit[0], kind, tuple(sorted(opts.items()))))
    c.tr(1)
    t, n = lit[0], NAME[d]
    r = "(declare-const t (eo::requires %s %s Bool))(declare-const t (eo::requires (eo::typeof %s) %s Bool))" % (t, n, t, TYPE[d[0]])
    if not deep:
        return r + "\n"
    isx = {"num": "z", "rat": "q", "dec": None, "bin": "bin", "hex": None, "str": "str"}[d[0]]
    if isx:
        r += "(declare-const t (eo::requires (eo::is_%s %s) true Bool))" % (isx, t)
    for i, v in enumerate(VALS):
        if v != d and (v[1] == d[1] or i % 5 == 0):
            r += "(declare-const t (eo::requires (eo::is_eq %s %s) false Bool))" % (t, NAME[v])
    # in any position of a term
    r += "(declare-const t (eo::requires (P %s) (P %s) Bool))" % (t, n)
    r += "(declare-const t (eo::requires (pr u %s) (pr u %s) Bool))" % (t, n)
    r += "(declare-const t (eo::requires (pr %s %s) (pr %s %s) Bool))" % (t, t, n, n)
    r += "(declare-const t (eo::requires (eo::define ((z %s)) (P z)) (P %s) Bool))" % (t, n)
    r += "(declare-const t (eo::requires (! (P %s) :pattern ((P %s))) (P %s) Bool))" % (t, t, n) if False else ""
    if kind != "ref":
        r += "(define z () %s)(declare-const t (eo::requires z %s Bool))" % (t, n)
        r += "(define z ((a U)) (pr a %s))(declare-const t (eo::requires (z u) (pr u %s) Bool))" % (t, n)
        r += "(step z (P %s) :rule arg :args (%s))(step y (P %s) :rule arg :args (%s))(step y (P %s) :rule prem :premises (z))" % (n, t, t, n, t)
        r += "(assume z (P %s))(step z (P %s) :rule prem :premises (z))" % (t, n)
        r += "(program $z ((x U)) :signature (U) U ((($z u) (pr u %s)) (($z (pr u %s)) u)))(declare-const t (eo::requires ($z u) (pr u %s) Bool))(declare-const t (eo::requires ($z (pr u %s)) u Bool))" % (t, t, n, n)
    else:
        r += "(define-const zc (eo::typeof %s) %s)(declare-const t (eo::requires zc %s Bool))" % (t, t, n)
        r += "(assert (P %s))" % t
    if kind != "sig" and opts["parse-let"]:
        r += "(declare-const t (eo::requires (let ((z %s)) (P z)) (P %s) Bool))" % (t, n)
    return r + "\n"


def letobs(kind, opts):
    c.tr(1)
    c.st(("let", kind, opts["parse-let"]))
    r = "(declare-const t (eo::requires (eo::define ((z u)) (pr z z)) (pr u u) Bool))"
    if kind != "sig" and opts["parse-let"]:
        return r + "(declare-const t (eo::requires (let ((z u)) (pr z z)) (pr u u) Bool))(declare-const t (eo::requires (let ((z u) (y w)) (let ((y z) (z y)) (pr z y))) (pr w u) Bool))\n"
    return r + "(declare-const t (eo::requires (let u) (_ let u) Bool))(declare-const t (eo::requires (eo::typeof let) (-> U U) Bool))(declare-const t (eo::requires (pr (let w) u) (pr (_ let w) u) Bool))\n"


def allobs(kind, opts, deep=False):
    return letobs(kind, opts) + "".join(obs(l, kind, opts, deep) for l in LITS)


def apply(seq, opts=DEFAULT):
    o = dict(opts)
    for k, v in seq:
        o[k] = v
    return o


def arg(k, v):
    return "--%s%s" % ("" if v else "no-", k)


OPTS = list(DEFAULT)
cases = []


def add(key, files, argv, stdin=None, expect="correct"):
    cases.append(Case(key, None, expect, files=dict({"sig.eo": SIG}, **files), argv=argv, stdin=stdin))


# ways of reading a file of commands T(kind): (name, kind, builder)
INC = '(include "sig.eo")\n'
WAYS = [
    ("main signature", "sig", lambda b: ({"m.eo": INC + b}, ["m.eo"], None)),
    ("main proof", "proof", lambda b: ({"m.smt3": INC + b}, ["m.smt3"], None)),
    ("main proof without extension", "proof", lambda b: ({"m": INC + b}, ["m"], None)),
    ("main proof .eoo", "proof", lambda b: ({"m.eoo": INC + b}, ["m.eoo"], None)),
    ("main proof .eo.p", "proof", lambda b: ({"m.eo.p": INC + b}, ["m.eo.p"], None)),
    ("main proof eo", "proof", lambda b: ({"xeo": INC + b}, ["xeo"], None)),
    ("stdin", "proof", lambda b: ({}, [], INC + b)),
    ("stdin, signature by option", "proof", lambda b: ({}, ["--include=sig.eo"], b)),
    ("proof, signature by option", "proof", lambda b: ({"m.smt3": b}, ["--include=sig.eo", "m.smt3"], None)),
    ("signature included by proof", "sig", lambda b: ({"m.smt3": '(include "x.eo")', "x.eo": INC + b}, ["m.smt3"], None)),
    ("any file included by proof", "sig", lambda b: ({"m.smt3": '(include "x.smt3")', "x.smt3": INC + b}, ["m.smt3"], None)),
    ("signature included by stdin", "sig", lambda b: ({"x.eo": INC + b}, [], '(include "x.eo")')),
    ("signature included by option", "sig", lambda b: ({"x.eo": INC + b, "m.smt3": ""}, ["--include=x.eo", "m.smt3"], None)),
    ("signature included twice removed", "sig", lambda b: ({"m.smt3": '(include "y.eo")', "y.eo": '(include "x.eo")', "x.eo": INC + b}, ["m.smt3"], None)),
    ("reference by command of proof", "ref", lambda b: ({"m.smt3": INC + '(reference "r.smt2")', "r.smt2": b}, ["m.smt3"], None)),
    ("reference by command of signature", "ref", lambda b: ({"m.eo": INC + '(reference "r.smt2")', "r.smt2": b}, ["m.eo"], None)),
    ("reference by stdin", "ref", lambda b: ({"r.smt2": b}, [], INC + '(reference "r.smt2")')),
    ("reference .eo", "ref", lambda b: ({"m.smt3": INC + '(reference "r.eo")', "r.eo": b}, ["m.smt3"], None)),
    ("reference by option", "ref", lambda b: ({"m.smt3": "", "r.smt2": b}, ["--include=sig.eo", "--reference=r.smt2", "m.smt3"], None)),
]


def partA():
    # every assignment of the options on the command line, for every kind of file
    for vals in itertools.product((None, False, True), repeat=4):
        seq = [(k, v) for k, v in zip(OPTS, vals) if v is not None]
        o = apply(seq)
        for wn, kind, mk in WAYS:
            f, argv, si = mk(allobs(kind, o))
            a = [arg(*x) for x in seq]
            for pos in ("first", "last"):
                if pos == "last" and not (TH or len(seq) == 4):
                    continue
                add("%s %s %s" % (wn, " ".join(a), pos), f, a + argv if pos == "first" else argv + a, si)
    # positions of literals
    for vals in itertools.product((False, True), repeat=4):
        seq = list(zip(OPTS, vals))
        o = apply(seq)
        for wn, kind, mk in WAYS:
            for l in LITS:
                f, argv, si = mk(obs(l, kind, o, True))
                if not TH and si is None and kind == "proof" and wn != "main proof":
                    continue
                add("%s %s %s" % (wn, l[0], vals), f, [arg(*x) for x in seq] + argv, si)


def partB():
    # the last occurrence of an option on the command line counts
    for n in (2, 3) if not TH else (2, 3, 4):
        for seq in itertools.product([(k, v) for k in OPTS for v in (False, True)], repeat=n):
            if n > 2 and len({k for k, _ in seq}) > (2 if n == 3 or DEEP else 1) and not (TH and n == 3):
                continue
            o = apply(seq)
            a = [arg(*x) for x in seq]
            add("order " + " ".join(a), {"m.smt3": INC + allobs("proof", o)}, a[:1] + ["m.smt3"] + a[1:])
    for a in ("--bogus", "--no-bogus", "--normalize", "--no-no-normalize-num", "--normalize-num=true", "--Normalize-num", "--no-"):
        for argv in ([a, "m.smt3"], ["m.smt3", a]):
            add("unknown option %s" % argv, {"m.smt3": INC}, argv, expect="reject")
        cases.append(Case("unknown option stdin %s" % a, None, "reject", files={"sig.eo": SIG}, argv=[a], stdin=INC))


def setopt(k, v):
    return "(set-option :%s %s)" % (k, v if isinstance(v, str) else "true" if v else "false")


def partC():
    # all interleavings of set-option commands and observations
    sets = [(k, v) for k in OPTS for v in (False, True)]
    few = [l for l in LITS if l[0] in ("7", "1.50", "#x05")]

    def ob(kind, o):
        return letobs(kind, o) + "".join(obs(l, kind, o) for l in few)
    for n in range(1, 5 if DEEP else 4):
        for seq in itertools.product(sets, repeat=n):
            for wn, kind, mk in WAYS:
                if n > 3 - (not DEEP) and wn not in ("main proof", "stdin", "main signature"):
                    continue
                o = dict(DEFAULT)
                b = ob(kind, o)
                for k, v in seq:
                    # in a reference, set-option is ignored
                    if kind != "ref":
                        o[k] = v
                    b += setopt(k, v) + ob(kind, o)
                f, argv, si = mk(b)
                add("set %s in %s" % (seq, wn), f, argv, si)
    # an option set in an included signature holds in the proof afterwards, and in a reference read later
    for k, v in sets:
        for k2, v2 in sets:
            o = dict(DEFAULT)
            o1 = apply([(k, v)])
            o2 = apply([(k, v), (k2, v2)])
            s = INC + ob("sig", o) + setopt(k, v) + ob("sig", o1)
            add("signature sets %s %s, proof sets %s %s" % (k, v, k2, v2),
                {"m.smt3": INC + ob("proof", o) + '(include "s.eo")' + ob("proof", o1) + setopt(k2, v2) + ob("proof", o2) + '(reference "r.smt2")' + ob("proof", o2), "s.eo": s,
                 "r.smt2": ob("ref", o2) + setopt(k2, not v2) + ob("ref", o2)}, ["m.smt3"])
            add("signature sets %s %s, stdin sets %s %s" % (k, v, k2, v2),
                {"s.eo": s, "r.smt2": ob("ref", o2)}, [], INC + ob("proof", o) + '(include "s.eo")' + ob("proof", o1) + setopt(k2, v2) + ob("proof", o2) + '(reference "r.smt2")' + ob("proof", o2))
            add("optional signature sets %s %s, %s %s" % (k, v, k2, v2),
                {"s.eo": s, "r.smt2": ob("ref", o1), "m.smt3": ob("proof", o1) + setopt(k2, v2) + ob("proof", o2)}, ["--include=s.eo", "--reference=r.smt2", "m.smt3"])
            add("command line %s %s, set %s %s" % (k, v, k2, v2), {"m.smt3": INC + ob("proof", o1) + setopt(k2, v2) + ob("proof", o2)}, [arg(k, v), "m.smt3"])
            # scopes do not restore options
            add("scopes %s %s %s %s" % (k, v, k2, v2), {"m.smt3": INC + "(push)" + setopt(k, v) + ob("proof", o1) + "(pop)" + ob("proof", o1) + "(push)" + setopt(k2, v2) + "(pop)" + ob("proof", o2)}, ["m.smt3"])
    # other values do not set anything, other options are ignored
    for k in OPTS:
        for bad in ("1", "\"true\"", "True", "yes", "(true)", "|true|" if False else "tru", ":true" if False else "0", "()", "(a (b \"c\") 1.0)"):
            for k0, v0 in sets:
                o = apply([(k0, v0)])
                add("no value %s %s after %s %s" % (k, bad, k0, v0), {"m.smt3": INC + setopt(k0, v0) + setopt(k, bad) + ob("proof", o)}, ["m.smt3"])
    for k in ("no-normalize-num", "no-normalize-dec", "normalize", "produce-proofs", "parse", "let", "normalize-numeral"):
        for v in (True, False):
            add("other option %s %s" % (k, v), {"m.smt3": INC + ob("proof", DEFAULT) + setopt(k, v) + ob("proof", DEFAULT)}, ["m.smt3"])


def partD():
    # what the assertions of a reference denote
    for vals in itertools.product((False, True), repeat=3):
        seq = list(zip(OPTS, vals))
        o = apply(seq)
        for l in LITS:
            d = denote(l, "ref", o)
            for l2 in LITS:
                d2 = denote(l2, "proof", o)
                if not TH and (LITS.index(l) + LITS.index(l2)) % 3 and d != d2:
                    continue
                c.tr(1)
                add("assert %s assume %s %s" % (l[0], l2[0], vals), {"m.smt3": INC + '(reference "r.smt2")(assume a (P %s))' % l2[0], "r.smt2": "(assert (P %s))" % l[0]},
                    [arg(*x) for x in seq] + ["m.smt3"], expect="correct" if d == d2 else "reject")
            add("assert %s assume in signature %s" % (l[0], vals), {"m.eo": INC + '(reference "r.smt2")(assume a (P %s))(assume b (P %s))(assume a (= zf (P %s)))' % (NAME[d], text(d), NAME[d]), "r.smt2": "(assert (P %s))(define-fun zf () Bool (P %s))" % (l[0], l[0])},
                [arg(*x) for x in seq] + ["m.eo"])


def partE():
    # the type of a category is the declared one; undeclared categories have no type
    cats = {"num": "<numeral>", "dec": "<decimal>", "rat": "<rational>", "bin": "<binary>", "hex": "<hexadecimal>", "str": "<string>"}
    sample = {"num": "7", "dec": "1.5", "rat": "1/2", "bin": "#b01", "hex": "#x1f", "str": '"a"'}
    names = list(cats)
    pre = "".join("(declare-const T%d Type)" % i for i in range(6)) + "(declare-parameterized-const P ((T Type :implicit)) (-> T Bool))(declare-const W (-> Type Type))"
    for sub in itertools.product((0, 1), repeat=6):
        for rot in range(6) if TH else (0, 1):
            on = [i for i in range(6) if sub[i]]
            dec = ["(declare-consts %s T%d)" % (cats[names[i]], (i + rot) % 6) for i in (on if rot % 2 == 0 else on[::-1])]
            b = pre + "".join(dec)
            for i in range(6):
                s = sample[names[i]]
                b += "(declare-const t (eo::requires (eo::typeof %s) T%d Bool))(assume a (P %s))" % (s, (i + rot) % 6, s) if sub[i] else ""
                if sub[i]:
                    for j in range(6):
                        if j != (i + rot) % 6:
                            b += "(declare-const t (eo::requires (eo::is_eq (eo::typeof %s) T%d) false Bool))" % (s, j)
            cases.append(Case("categories %s %d" % (sub, rot), b, "correct"))
            c.st((sub, rot))
            for i in range(6):
                # a literal of another category is not of the type
                for j in range(6):
                    if sub[i] and i != j:
                        cases.append(Case("not of type %s %s %s %d" % (names[i], names[j], sub, rot), pre + "".join(dec) + "(declare-const f (-> T%d Bool))(assume b (f %s))(assume a (f %s))" % ((i + rot) % 6, sample[names[i]], sample[names[j]]), "reject"))
    for n in names:
        # types which depend on the literal, as far as the manual describes
        cases.append(Case("self type " + n, pre + "(declare-consts %s (W (eo::typeof true)))(assume a (P %s))(declare-const t (eo::requires (eo::typeof %s) (W Bool) Bool))" % (cats[n], sample[n], sample[n]), "correct"))
    b = "(declare-const I Type)(declare-consts <numeral> I)(declare-const BV (-> I Type))(declare-consts <binary> (BV (eo::len eo::self)))(declare-consts <hexadecimal> (BV (eo::len eo::self)))"
    for w in (1, 2, 3, 8, 64, 65):
        cases.append(Case("width %d" % w, b + "(declare-const t (eo::requires (eo::typeof #b%s) (BV %d) Bool))(declare-const x (BV %d))(declare-const eq (-> (BV %d) (BV %d) Bool))(assume a (eq x #b%s))" % ("1" * w, w, w, w, w, "0" * w), "correct"))
        cases.append(Case("not width %d" % w, b + "(declare-const x (BV %d))(declare-const eq (-> (BV %d) (BV %d) Bool))(assume a (eq x #b%s))" % (w, w, w, "0" * (w + 1)), "reject"))


def partF():
    # rule names: with a separate table, a rule and a term can have the same name
    sig = "(declare-const U Type)(declare-const P (-> Bool Bool))\n"
    rule = {n: "(declare-rule %s ((F Bool)) :premises (F) :conclusion (P F))" % n for n in "ra"}
    con = {n: "(declare-const %s Bool)" % n for n in "ra"}
    items = [("rule r", rule["r"]), ("const r", con["r"]), ("rule a", rule["a"]), ("const a", con["a"])]
    for k in range(1, 5):
        for perm in itertools.permutations(items, k):
            have = {n for n, _ in perm}
            d = "\n".join(x for _, x in perm)
            for cn in "ra":
                for rn in "ra":
                    use = "(assume p %s)(step s (P %s) :rule %s :premises (p))" % (cn, cn, rn)
                    ok = "const " + cn in have and "rule " + rn in have
                    cases.append(Case("names %s use %s %s" % ([n for n, _ in perm], cn, rn), sig + d + use, "correct" if ok else "reject"))
                    for a in ("--rule-sym-table",):
                        cases.append(Case("names on %s use %s %s" % ([n for n, _ in perm], cn, rn), sig + d + use, "correct" if ok else "reject", argv=[a, "c.eo"]))
                    if {n.split()[1] for n in have if n.startswith("rule")} & {n.split()[1] for n in have if n.startswith("const")}:
                        continue
                    # with distinct names the option makes no difference (what the name of a rule denotes as a term is not specified then)
                    if "const " + cn not in have:
                        continue
                    cases.append(Case("names off %s use %s %s" % ([n for n, _ in perm], cn, rn), sig + d + use, "correct" if ok else "reject", argv=["--no-rule-sym-table", "c.eo"]))
            c.tr(1)
            c.st(tuple(n for n, _ in perm))
    for n in ("define r () true", "declare-const r (-> Bool Bool)", "assume r true", "program r ((x Bool)) :signature (Bool) Bool (((r x) x))", "declare-datatype r ((k))", "declare-sort r 0"):
        for order in (0, 1):
            x = [rule["r"], "(%s)" % n]
            cases.append(Case("name of a rule used by %s %d" % (n, order), sig + "".join(x[::1 - 2 * order]) + "(assume p true)(step s (P true) :rule r :premises (p))", "correct"))
    for use in ("(define x () r)", "(step s r :rule r)", "(assume q (P r))"):
        cases.append(Case("a rule is no term " + use, sig + rule["r"] + use, "reject"))
    for use in ("(step s :rule a)", "(step s :rule P)", "(step s :rule U)", "(step s :rule true)", "(step s :rule p)"):
        for a in ([], ["--no-rule-sym-table"]):
            cases.append(Case("a term is no rule %s %s" % (use, a), sig + con["a"] + "(assume p a)" + use, "reject", argv=a + ["c.eo"]))


for n, f in (("options and kinds of files", partA), ("command line", partB), ("set-option", partC), ("references", partD), ("categories and types", partE), ("rule names", partF)):
    a, b = len(cases), c.transitions
    f()
    c.part(n, len(cases) - a, c.transitions - b)
c.bounds += ["all assignments of the 4 options (unset/off/on) in %d ways of reading a file" % len(WAYS), "set-option histories of length %d" % (4 if DEEP else 3), "%d literal texts" % len(LITS)]
if __name__ == "__main__":
    for x in cases[::max(1, len(cases) // 6)]:
        c.sample(x.key)
    print(len(cases))
    c.run(cases)
    c.finish()
