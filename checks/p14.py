"""P14: bound variables are identified by name and type, binders by their list
and body. The model resolves every name of a surface term to a constant, or to
the variable (name, type) of the innermost binder; two terms are the same iff
their resolved forms are. All surface terms within the bounds are enumerated
and compared by the checker, all pairs of them, directly and after having been
constructed in macros, programs, rules, local definitions, proofs and
references."""
import itertools
from mc import engine
from mc import scale
from mc.engine import Case
from mc import lits

c = engine.Check("P14")
TH = True
DEEP = c.thorough
last = [0, 0, 0]


def part(name):
    c.part(name, 0, 0)
    n = len(c.seen)
    c.parts[name] = dict(states=n - last[0], transitions=c.transitions - last[1], traces=c.traces - last[2])
    last[:] = [n, c.transitions, c.traces]


SIG = """(declare-const U Type)
(declare-const V Type)
(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const BitVec (-> Int Type))
(declare-const Lst (-> Type Type))
(define Us () U)
(declare-const a U)
(declare-const n2 Int)
(declare-parameterized-const P ((T Type :implicit)) (-> T Bool))
(declare-parameterized-const Q ((T Type :implicit) (W Type :implicit)) (-> T W Bool))
(declare-const and (-> Bool Bool Bool))
(declare-const @L Type)
(declare-const @nil @L)
(declare-parameterized-const @cons ((T Type :implicit)) (-> T @L @L) :right-assoc-nil @nil)
(declare-parameterized-const @snoc ((T Type :implicit)) (-> @L T @L) :left-assoc-nil @nil)
(declare-parameterized-const @two ((T Type :implicit) (W Type :implicit)) (-> T W @L))
(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-const exists (-> @L Bool Bool) :binder @cons)
(declare-const lambda (-> @L Bool Bool) :binder @snoc)
(declare-const pair (-> @L Bool Bool) :binder @two)
(declare-const choice (-> eo::List Bool Bool Bool) :binder eo::List::cons)
(declare-rule same ((F Bool)) :premises (F) :args (F) :conclusion true)
(declare-rule trust ((F Bool)) :conclusion-explicit F :sorry)
"""
GX = "(declare-const x U)\n"
# canonical form of the types used
TYPES = {"U": "U", "V": "V", "Us": "U", "(eo::typeof a)": "U", "(BitVec 2)": "(BitVec 2)", "(BitVec (eo::add 1 1))": "(BitVec 2)", "(BitVec 3)": "(BitVec 3)", "(-> U V)": "(-> U V)",
         "(-> Us V)": "(-> U V)", "(-> V U)": "(-> V U)", "(Lst U)": "(Lst U)", "(Lst Us)": "(Lst U)", "(Lst V)": "(Lst V)", "Bool": "Bool", "Int": "Int", "Type": "Type", "eo::List": "eo::List",
         "(eo::ite true U V)": "U", "(eo::requires 1 1 V)": "V"}


class Unbound(Exception):
    pass


def var(v):
    return '(eo::var "%s" %s)' % v


def lst(kind, vs):
    if kind in ("forall", "choice"):
        r = "eo::List::nil"
        for v in reversed(vs):
            r = "(_ eo::List::cons %s %s)" % (v, r)
    elif kind == "exists":
        r = "@nil"
        for v in reversed(vs):
            r = "(_ @cons %s %s)" % (v, r)
    elif kind == "lambda":
        r = "@nil"
        for v in vs:
            r = "(_ @snoc %s %s)" % (r, v)
    else:
        r = "(_ @two %s %s)" % tuple(vs)
    return r


def core(t, env):
    """the term denoted: explicit text, unique for each term"""
    if isinstance(t, str):
        if t not in env:
            raise Unbound(t)
        return env[t]
    k = t[0]
    if k == "B":
        vs = [(n, TYPES.get(ty, ty)) for n, ty in t[2]]
        new = dict(env)
        new.update({n: var((n, ty)) for n, ty in vs})
        return "(_ %s %s %s)" % (t[1], lst(t[1], [var(v) for v in vs]), " ".join(core(b, new) for b in t[3:]))
    if k == "def":
        new = dict(env)
        new[t[1]] = core(t[2], env)
        return core(t[3], new)
    return "(_ %s %s)" % (k, " ".join(core(s, env) for s in t[1:]))


def text(t):
    if isinstance(t, str):
        return t
    k = t[0]
    if k == "B":
        return "(%s (%s) %s)" % (t[1], " ".join("(%s %s)" % v for v in t[2]), " ".join(text(b) for b in t[3:]))
    if k == "def":
        return "(eo::define ((%s %s)) %s)" % (t[1], text(t[2]), text(t[3]))
    return "(%s %s)" % (k, " ".join(text(s) for s in t[1:]))


def uses(t):
    if isinstance(t, str):
        return {t}
    return set().union(*(uses(s) for s in (t[2:] if t[0] == "def" else t[3:] if t[0] == "B" else t[1:])))


ENVX = {"x": "x", "a": "a"}
ENV0 = {"a": "a"}
L0 = [("P", "x"), ("P", "y"), ("Q", "x", "y"), ("Q", "y", "x"), ("P", "a")]
VL = [(("x", "U"),), (("x", "V"),), (("y", "U"),), (("x", "U"), ("y", "U")), (("y", "U"), ("x", "U")), (("x", "U"), ("y", "V"))]
VL1 = VL + [(("y", "V"),), (("x", "V"), ("y", "U")), (("y", "V"), ("x", "U")), (("a", "U"),), (("a", "V"), ("x", "U"))]
L1 = [("B", k, v, b) for k in ("forall", "exists") for v in VL1 for b in L0] + [("B", k, v, b) for k in ("lambda", "pair") for v in VL1 if len(v) == 2 for b in L0]
L1 += [("B", "choice", v, b, d) for v in VL[:4] for b in L0[:3] for d in L0[:3]]
L1 += [("and", ("B", "forall", v, b), d) for v in VL[:3] for b in L0[:2] for d in L0[:2]] + [("and", d, ("B", "forall", v, b)) for v in VL[:3] for b in L0[:2] for d in L0[:2]]
S1 = [("B", k, v, b) for k in ("forall", "exists") for v in VL for b in L0[:3]]
L2 = [("B", k, v, b) for k in ("forall", "exists") for v in VL for b in S1]
L2 += [("B", "forall", v, ("and", b, d)) for v in VL for b in S1[:18] for d in L0[:3]] + [("B", "forall", v, ("and", d, b)) for v in VL for b in S1[:18] for d in L0[:3]]
L2 += [("B", "choice", v, b, d) for v in VL[:4] for b in S1[:9] for d in S1[9:18]]
L2 += [("and", b, d) for b in S1 for d in S1]
L2 += [("def", n, d, ("B", "forall", v, b)) for n in "xy" for d in ("x", "a") for v in VL for b in L0[:3]]
L2 += [("B", "forall", v, ("def", n, d, b)) for n in "xy" for d in ("x", "y", "a") for v in VL for b in L0[:3]]
if TH:
    L2 += [("B", k, v, ("B", k2, w, b)) for k in ("forall", "lambda", "exists") for k2 in ("forall", "exists") for v in VL1 for w in VL for b in S1 if k != "lambda" or len(v) == 2]
    L2 += [("B", "forall", v, ("and", b, d)) for v in VL for b in S1 for d in S1]
    L2 += [("B", "forall", v, ("and", ("B", "forall", w, ("and", b, d)), e)) for v in VL for w in VL for b in L0[:2] for d in S1[:12] for e in L0[:2]]
if DEEP:
    L2 += [("and", ("B", "forall", w, ("and", b, d)), e) for w in VL for b in S1 for d in S1 for e in L0]
    L2 += [("B", k, u, ("B", k2, v, ("B", k3, w, b))) for k in ("forall", "exists") for k2 in ("forall", "exists") for k3 in ("forall", "exists") for u in VL for v in VL for w in VL for b in L0[:3]]


def closed(ts, env):
    out, seen = [], set()
    for t in ts:
        if text(t) in seen:
            continue
        seen.add(text(t))
        try:
            out.append((t, core(t, env)))
        except Unbound:
            pass
    return out


REQ = lambda i, l, r: "(declare-const t%s (eo::requires %s %s Bool))" % (i, l, r)

# ------------------------------- 1. what each term denotes, and all pairs
for name, pre, env in (("x constant", SIG + GX, ENVX), ("x undeclared", SIG, ENV0)):
    T = closed(L1 + L2, env)
    c.positive(pre, [("core/%s/%s" % (name, text(t)), REQ("", text(t), k)) for t, k in T])
    for t, k in T:
        c.st((name, t))
    c.tr(len(T))
    part("terms, " + name)
    # distinct terms are distinct: the number of distinct elements of lists
    G = 400
    ls = []
    for i in range(0, len(T), G):
        for j in range(i, len(T), G):
            g = T[i:i + G] + (T[j:j + G] if j != i else [])
            if j != i and (j - i) // G > (200 if DEEP else 4):
                continue
            ks = len({k for t, k in g})
            c.tr(len(g) * (len(g) - 1) // 2)
            ls.append(("distinct/%s/%d-%d" % (name, i, j), "(declare-const t (eo::requires (eo::list_len eo::List::cons (eo::list_setof eo::List::cons (eo::List::cons %s))) %d Bool))" % (" ".join(text(t) for t, k in g), ks)))
    c.positive(pre, ls, chunk=2)
    part("pairs, " + name)

# two terms compared by the equality test
S = closed(L1, ENVX)
S = S if TH else S[:60:1] + S[60::5]
ls = []
for (t, k), (u, l) in itertools.product(S, S):
    ls.append(("eq/%s/%s" % (text(t), text(u)), "(declare-const t (eo::requires (eo::is_eq %s %s) %s Bool))" % (text(t), text(u), "true" if k == l else "false")))
    c.tr()
c.positive(SIG + GX, ls, chunk=400)
part("pairs by equality test")

# ------------------- 2. in proofs, against premises and against references
S = closed(L1[:55] + L1[110:120] + L1[-24:], ENVX)
S = S[::1 if TH else 3]
cs = []
for (t, k), (u, l) in itertools.product(S, S):
    ok = k == l
    c.st(("proof", t, u))
    c.tr(2)
    for what, m, r in (("step", '(include "s.eo")\n(assume h %s)\n(step s :rule same :premises (h) :args (%s))\n' % (text(t), text(u)), ""),
                       ("ref", '(include "s.eo")\n(reference "r.smt2")\n(assume h %s)\n' % text(u), "(assert %s)\n" % text(t))):
        cs.append(Case("%s/%s/%s" % (what, text(t), text(u)), None, "correct" if ok else "reject", files={"s.eo": SIG + GX, "r.smt2": r, "m.p": m}, name="m.p", argv=["m.p"]))
c.run(cs)
part("premises and references")

# --------------------------------------------------------- 3. scoping
cs = []
SC = L1 + [("and", b, d) for b in S1[:18] for d in L0] + [("and", d, b) for b in S1[:18] for d in L0] + L2[::1 if TH else 6]
seen = set()
for t in SC:
    x = text(t)
    if x in seen:
        continue
    seen.add(x)
    try:
        core(t, ENV0)
        ok = True
    except Unbound:
        ok = False
    c.st(("scope", x))
    c.tr(2)
    cs.append(Case("scope/" + x, SIG + "(define d () %s)\n" % x, "correct" if ok else "reject"))
    # the names are gone afterwards
    if ok:
        for n in "xy":
            cs.append(Case("after/%s/%s" % (n, x), SIG + "(define d () %s)\n(define e () (P %s))\n" % (x, n), "reject"))
c.run(cs)
part("scoping")

# ------------------------- 4. terms built with parameters, later instantiated
GROUND = ["U", "V", "(BitVec 2)", "(-> U V)", "(Lst U)"]
VLP = [(("x", "T"),), (("y", "W"),), (("x", "T"), ("y", "W")), (("x", "W"), ("y", "T")), (("x", "(Lst T)"),), (("x", "U"), ("y", "T")), (("x", "(-> T W)"),)]
LP = [("B", k, v, b) for k in ("forall", "exists") for v in VLP for b in (("P", "x"), ("P", "y"), ("Q", "x", "y"), ("Q", "x", "z"), ("P", "z"))]
LP += [("B", "forall", v, ("B", "exists", w, b)) for v in VLP for w in VLP for b in (("P", "x"), ("Q", "y", "x"), ("Q", "z", "y"))] + [("and", ("B", "forall", v, ("P", "x")), d) for v in VLP for d in (("P", "x"), ("P", "z"))]
if TH:
    LP += [("B", "forall", v, ("and", ("B", "lambda", w, b), ("P", "x"))) for v in VLP for w in VLP if len(w) == 2 for b in (("P", "x"), ("Q", "y", "x"), ("Q", "z", "y"))]


def inst(t, s):
    """the text with the types put for T and W, only in variable lists"""
    if isinstance(t, str):
        return t
    if t[0] == "B":
        def ty(x):
            return x.replace("T)", s["T"] + ")").replace("W)", s["W"] + ")").replace("> T ", "> " + s["T"] + " ") if x not in s else s[x]
        return t[:2] + (tuple((n, ty(x)) for n, x in t[2]),) + tuple(inst(b, s) for b in t[3:])
    return (t[0],) + tuple(inst(b, s) for b in t[1:])


# names of the value parameter: z, or one of the variables' names
INST = [("U", "V"), ("V", "U"), ("U", "U"), ("(BitVec 2)", "(-> U V)"), ("(Lst U)", "U")]
ls = []
pre = SIG + "(declare-const g U)\n(declare-const w U)\n"
ARGS = [("g", "g"), (var(("x", "U")), var(("x", "U"))), (var(("z", "U")), var(("z", "U"))), ("(f g)", "(_ f g)")]
pre += "(declare-const f (-> U U))\n"
n = 0
for t in LP:
    for zp in ("z", "x"):
        tt = text(t)
        n += 1
        body = tt if zp == "z" else tt.replace(" z)", " x)")
        if zp == "x" and " z)" not in tt:
            continue

        def conv(u):
            return u if isinstance(u, str) and u != "z" else zp if u == "z" else u[:3] + tuple(conv(b) for b in u[3:]) if u[0] == "B" else (u[0],) + tuple(conv(b) for b in u[1:])
        tz = conv(t)
        for ti, (T, W) in enumerate(INST):
            for ai, (arg, acore) in enumerate(ARGS if " z" in tt else ARGS[:1]):
                if not TH and (n + ti + ai) % 2:
                    continue
                try:
                    k = core(inst(tz, {"T": T, "W": W}), {"a": "a", zp: acore})
                except Unbound:
                    continue
                key = "%s/%s,%s,%s" % (tt, T, W, arg)
                c.st(("inst", tz, T, W, arg))
                c.tr(3)
                b = text(tz)
                ls.append(("macro/" + key, "(define m ((T Type) (W Type) (%s U)) %s)\n(declare-const t (eo::requires (m %s %s %s) %s Bool))" % (zp, b, T, W, arg, k)))
                ls.append(("prog/" + key, "(program $m ((T Type) (W Type) (%s U)) :signature (Type Type U) Bool ((($m T W %s) %s)))\n(declare-const t (eo::requires ($m %s %s %s) %s Bool))" % (zp, zp, b, T, W, arg, k)))
                ls.append(("rule/" + key, "(declare-rule r ((T Type) (W Type) (%s U)) :args (T W %s) :conclusion %s)\n(step s %s :rule r :args (%s %s %s))" % (zp, zp, b, k, T, W, arg)))
                if TH:
                    ls.append(("prog2/" + key, "(program $m ((T Type) (W Type) (v U)) :signature (Type Type U) Bool ((($m T W v) (eo::define ((%s v)) %s))))\n(declare-const t (eo::requires ($m %s %s %s) %s Bool))" % (zp, b, T, W, arg, k)))
ls = [(k, t.replace("$m ", "$m%d " % i).replace("define m ", "define m%d " % i).replace("(m ", "(m%d " % i).replace("declare-rule r ", "declare-rule r%d " % i).replace(":rule r ", ":rule r%d " % i)) for i, (k, t) in enumerate(ls)]
c.positive(pre, ls, chunk=120)
part("instantiated binders")

# ------------------------------------------------- let binders
LSIG = SIG + """(declare-const y V)
(declare-const x U)
(declare-const q V)
(declare-const @Pair (-> Type Type Type))
(declare-parameterized-const @pair ((U1 Type :implicit) (T1 Type :implicit)) (-> U1 T1 (@Pair U1 T1)))
(declare-parameterized-const let1 ((T1 Type :implicit)) (-> @L T1 T1) :let-binder (@pair @cons))
(declare-parameterized-const let2 ((T1 Type :implicit)) (-> @L T1 T1) :let-binder (@pair @snoc))
"""
LTY = {"x": "U", "a": "U", "y": "V", "q": "V"}


def lbody(t, env):
    """the term and its type, with names resolved"""
    if isinstance(t, str):
        return env.get(t) or (t, LTY[t])
    if t[0] == "Q":
        return "(_ (_ Q %s) %s)" % (lbody(t[1], env)[0], lbody(t[2], env)[0]), "Bool"
    vals = [(n, lbody(v, env)) for n, v in t[1]]
    env2 = dict(env)
    vs = []
    for n, (v, ty) in vals:
        env2[n] = ('(eo::var "%s" %s)' % (n, ty), ty)
        vs.append("(_ (_ @pair %s) %s)" % (env2[n][0], v))
    b, ty = lbody(t[2], env2)
    if t[0] == "let1":
        l = "@nil"
        for v in reversed(vs):
            l = "(_ (_ @cons %s) %s)" % (v, l)
    else:
        l = "@nil"
        for v in vs:
            l = "(_ (_ @snoc %s) %s)" % (l, v)
    return "(_ (_ %s %s) %s)" % (t[0], l, b), ty


def lsrc(t):
    if isinstance(t, str):
        return t
    if t[0] == "Q":
        return "(Q %s %s)" % (lsrc(t[1]), lsrc(t[2]))
    return "(%s (%s) %s)" % (t[0], " ".join("(%s %s)" % (n, lsrc(v)) for n, v in t[1]), lsrc(t[2]))


LV = ["a", "q", "x", "y", "k"]
LL = [[(n, v)] for n in "xy" for v in LV] + [[(n, v), (m, w)] for n, m in (("x", "y"), ("y", "x")) for v in LV for w in LV]
LB = [("Q", n, m) for n in "xyk" for m in "xya"]
LT = [(o, l, b) for o in ("let1", "let2") for l in LL for b in LB]
LN = LL if DEEP else LL[::4] + LL[:10]
LT += [("let1", l, ("let1", m, b)) for l in LL for m in LN for b in ((LB if DEEP else LB[:5:2]))]
LT += [("let1", [(n, ("let1", l, v))], b) for n in "xy" for l in LL for v in "xyk" for b in LB[:5:2]]
LT += [("let1", [(n, v)], ("Q", ("let2", l, "x"), ("let1", m, "y"))) for n in "xy" for v in "aqk" for l in LL[:10] for m in LL[::3]]
lp = LSIG + "(define k () a)\n"
ls = []
for i, t in enumerate(LT):
    key = "let binders/%s/" % lsrc(t)
    c.st(("let binder", repr(t)))
    c.tr(3)
    sr = lsrc(t)
    want = {ty: lbody(t, {"k": (v, ty)})[0] for v, ty in (("a", "U"), ("q", "V"))}
    ls.append((key + "as written", REQ("", sr, want["U"])))
    h = ("(program $l ((T1 Type) (k T1)) :signature (Type T1) Bool ((($l T1 k) %s)))", "(declare-rule l ((T1 Type) (k T1)) :args (T1 k) :conclusion %s)", "(define l ((T1 Type :implicit) (k T1)) %s)",
         "(define l ((k U)) %s)")[i % 4] % sr
    if i % 4 == 0:
        ls.append((key + "program", h + "\n" + REQ("1", "($l U a)", want["U"]) + "\n" + REQ("2", "($l V q)", want["V"])))
    elif i % 4 == 1:
        ls.append((key + "rule", h + "\n(step s1 %s :rule l :args (U a))\n(step s2 %s :rule l :args (V q))" % (want["U"], want["V"])))
    elif i % 4 == 2:
        ls.append((key + "macro", h + "\n" + REQ("1", "(l a)", want["U"]) + "\n" + REQ("2", "(l q)", want["V"])))
    else:
        ls.append((key + "macro, no type parameter", h + "\n" + REQ("1", "(l a)", want["U"])))
c.positive(lp, ls, chunk=1)
c.sample(ls[7][1])
part("let binders")

# ------------------------------------------------- 5. names of variables
NAMES = ["x", "X", "xx", "", " ", "a b", "|", "\"", "\"\"", "\\", "\\u{41}", "\\u0041", "u{41}", "é", "\\u{}", "0", "-1", "true", "forall", "Bool", "eo::add", "T", "W", "z", "a", "n2", "(", ")", ";", ":", "_", "->", "let", "!", "\n", "\t", "x" * 300, "\x7f", "\\u{7c}", "#b0", "1.5", "A"]
NAMES = [n for n in NAMES if "|" not in n]


def qsym(n):
    return "|%s|" % n


def lit(n):
    """a string literal that denotes the name"""
    out = ""
    for ch in n.encode("utf-8").decode("latin-1"):
        if ch == '"':
            out += '""'
        elif ch == "\\" or not " " <= ch <= "~":
            out += "\\u{%x}" % ord(ch)
        else:
            out += ch
    return '"%s"' % out


RES = {"eo::add", "_", "->", "let", "!", "true", "false"}
ls = []
bin_ = "(program $mkv ((s String) (T Type)) :signature (String Type) T ((($mkv s T) (eo::var s T))))\n"
pre5 = "(declare-const String Type)\n(declare-consts <string> String)\n" + SIG + """(program $mkv ((S Type) (s S) (T Type)) :signature (S Type) T ((($mkv s T) (eo::var s T))))
(program $mkq ((s String) (T Type)) :signature (String Type) Bool ((($mkq s T) (forall (eo::List::cons (eo::var s T)) (P (eo::var s T))))))
(define mkv ((s String) (T Type)) (eo::var s T))
(program $nm ((T Type) (v T)) :signature (T) String ((($nm v) (eo::nameof v))))
(program $vn ((T Type) (v T) (F Bool)) :signature (Bool) String ((($vn (forall (_ eo::List::cons v eo::List::nil) F)) (eo::nameof v))))
(program $vt ((T Type) (v T) (F Bool)) :signature (Bool) Type ((($vt (forall (_ eo::List::cons v eo::List::nil) F)) (eo::typeof v))))
(program $vb ((T Type) (v T) (F Bool)) :signature (Bool) Bool ((($vb (forall (_ eo::List::cons v eo::List::nil) (P v))) true) (($vb (forall (_ eo::List::cons v eo::List::nil) F)) false)))
"""
for nm in NAMES:
    q, s = qsym(nm), lit(nm)
    for ty in [t for t in TYPES if t != "Type"]:
        ct = TYPES[ty]
        v = "(eo::var %s %s)" % (s, ct)
        k = "(_ forall (_ eo::List::cons %s eo::List::nil) (_ P %s))" % (v, v)
        key = "%r/%s/" % (nm, ty)
        c.st(("name", nm, ty))
        c.tr(12)
        direct = "(forall ((%s %s)) (P %s))" % (q, ty, q)
        add = lambda what, text: ls.append((key + what, text))
        add("direct", REQ("", direct, k))
        add("program", "(program $p ((TT Type)) :signature (Type) Bool ((($p TT) (forall ((%s TT)) (P %s)))))\n" % (q, q) + REQ("", "($p %s)" % ty, k))
        add("macro", "(define p ((TT Type)) (forall ((%s TT)) (P %s)))\n" % (q, q) + REQ("", "(p %s)" % ty, k))
        add("rule", "(declare-rule r ((TT Type)) :args (TT) :conclusion (forall ((%s TT)) (P %s)))\n(step s %s :rule r :args (%s))" % (q, q, k, ty))
        if not {nm} & {"true", "eo::add", "->", "U"}:
            add("list in a program", "(program $p ((TT Type)) :signature (Type) Bool ((($p TT) (forall ((%s TT) (|the other| U) (|yet another| TT)) (Q %s |yet another|)))))\n" % (q, q) + REQ("", "($p %s)" % ty, "(forall ((%s %s) (|the other| U) (|yet another| %s)) (Q %s |yet another|))" % (q, ty, ty, q)))
        add("explicit", REQ("", "($mkv %s %s)" % (s, ct), v))
        add("explicit macro", REQ("", "(mkv %s %s)" % (s, ct), v))
        add("explicit binder", REQ("", "($mkq %s %s)" % (s, ct), direct))
        add("name", REQ("", "($vn %s)" % direct, s))
        add("type", REQ("", "($vt %s)" % direct, ct))
        add("body", REQ("", "($vb %s)" % direct, "true"))
        add("isvar", REQ("", "(forall ((%s %s)) (eo::is_var %s))" % (q, ty, q), "(_ forall (_ eo::List::cons %s eo::List::nil) true)" % v))
        add("nameof", REQ("", "(forall ((%s %s)) (P (eo::nameof %s)))" % (q, ty, q), "(_ forall (_ eo::List::cons %s eo::List::nil) (_ P %s))" % (v, s)))
        add("typeof", REQ("", "(forall ((%s %s)) (P (eo::typeof %s)))" % (q, ty, q), "(_ forall (_ eo::List::cons %s eo::List::nil) (_ P %s))" % (v, ct)))
        for what, h in (("const", "(declare-const %s %s)" % (q, ty)), ("define", "(define %s () a)" % q), ("defvar", "(define %s () (eo::var %s V))" % (q, s))):
            if nm not in RES | {"forall", "Bool", "T", "W", "a", "n2"}:
                add("shadowing " + what, h + "\n" + REQ("", direct, k) + ("\n" + REQ("1", "(P %s)" % q, "(P a)") if what == "define" else ""))
c.positive(pre5, ls, chunk=1)
part("names and types of variables")

# different names or types are different variables
vs = [(nm, ty) for nm in NAMES for ty in ("U", "V", "(BitVec 2)", "(BitVec 3)", "(-> U V)", "(-> V U)")]
ls = []
for i in range(0, len(vs), 60):
    for j in range(i, len(vs), 60):
        g = vs[i:i + 60] + (vs[j:j + 60] if j > i else [])
        c.tr(len(g) * (len(g) - 1) // 2)
        mk = ["(forall ((%s %s)) (P %s))" % (qsym(n), t, qsym(n)) for n, t in g]
        mkx = ["(eo::var %s %s)" % (lit(n), t) for n, t in g]
        for kind, xs in (("binders", mk), ("variables", mkx), ("bodies", mk + ["(forall ((%s %s)) true)" % (qsym(n), t) for n, t in g])):
            ls.append(("differ/%s/%d/%d" % (kind, i, j), "(declare-const t (eo::requires (eo::list_len eo::List::cons (eo::list_setof eo::List::cons (eo::List::cons %s))) %d Bool))" % (" ".join(xs + xs[:7]), len(xs))))
c.positive(pre5, ls, chunk=1)
part("different variables")

# ----------------------------------------------------------- 6. histories
# operations in between; b is the binder whose identity must be stable
BS = [("x", "U"), ("x", "V"), ("y", "U")]
OPS = {"bU": "(define %s () (forall ((x U)) (P x)))", "bV": "(define %s () (forall ((x V)) (P x)))", "yU": "(define %s () (forall ((y U)) (P y)))", "vU": "(define %s () (eo::var \"x\" U))", "cx": "(declare-const x V)", "dx": "(define x () (eo::var \"x\" V))", "push": "(push)",
       "pop": "(pop)", "asm": "(assume-push %s (forall ((x U)) (P x)))", "drop": "(define %s () (eo::requires true false (forall ((x U) (y V)) (Q x y))))", "prog": "(program $%s ((T Type)) :signature (Type) Bool ((($%s T) (forall ((x T)) (P x)))))\n(define %s () ($%s U))",
       "inc": '(include "i.eo")', "sort": "(declare-const W%s Type)"}
cs = []
D = 5 if DEEP else 4
FIN = ["(declare-const e1 (eo::requires (forall ((x U)) (P x)) (forall (_ eo::List::cons (eo::var \"x\" U) eo::List::nil) (P (eo::var \"x\" U))) Bool))",
       "(declare-const e2 (eo::requires (eo::is_eq (forall ((x U)) (P x)) (forall ((x V)) (P x))) false Bool))", "(declare-const e3 (eo::requires (eo::is_eq (forall ((x U)) (P x)) (forall ((y U)) (P y))) false Bool))"]
for d in range(D + 1):
    for seq in itertools.product(OPS, repeat=d):
        depth, out, saved, okk, held = 0, [], [], True, []
        for i, o in enumerate(seq):
            nm = "k%d" % i
            t = OPS[o]
            if o == "pop":
                if depth == 0:
                    okk = False
                    break
                depth -= 1
                held = held[:saved.pop()]
            if o == "push":
                depth += 1
                saved.append(len(held))
            if o == "asm":
                if depth:
                    okk = False
                    break
                held.append((nm, "U", "x", "hyp"))
            out.append(t.replace("%s", nm))
            if o in ("bU", "prog"):
                held.append((nm, "U", "x", "b"))
            if o == "bV":
                held.append((nm, "V", "x", "b"))
            if o == "yU":
                held.append((nm, "U", "y", "b"))
            if o == "vU":
                held.append((nm, "U", "x", "v"))
        if not okk or "asm" in seq and ("push" in seq or "inc" in seq):
            continue
        fin = list(FIN)
        for nm, ty, v, kind in held:
            if kind == "b":
                fin.append("(declare-const e%s (eo::requires %s (forall ((%s %s)) (P %s)) Bool))" % (nm, nm, v, ty, v))
            elif kind == "v":
                fin.append("(declare-const e%s (eo::requires (forall (eo::List::cons %s) (P %s)) (forall ((%s %s)) (P %s)) Bool))" % (nm, nm, nm, v, ty, v))
            else:
                fin.append("(step s%s :rule same :premises (%s) :args ((forall ((x U)) (P x))))" % (nm, nm))
        if "asm" in seq:
            fin += ["(declare-rule sc ((F Bool)) :assumption F :args () :conclusion F)"] if False else []
        close = "incomplete" if False else "correct"
        body = SIG + "\n".join(out) + "\n" + "\n".join(fin) + "\n"
        if "asm" in seq:
            # scopes are closed by a rule that uses no assumption
            body = body.replace("(declare-rule same", "(declare-rule sc ((F Bool)) :assumption F :conclusion true)\n(declare-rule same", 1) + "".join("(step-pop z%d :rule sc)\n" % i for i in range(seq.count("asm")))
        c.st(("hist", seq))
        c.tr(len(out) + len(fin))
        cs.append(Case("history/" + " ".join(seq), body, "any" if False else "correct", files=None if "inc" not in seq else {"i.eo": "(define inc () (forall ((x U)) (P x)))\n(declare-const z V)\n"}) if "inc" not in seq else
                  Case("history/" + " ".join(seq), None, "correct", files={"c.eo": body + "(declare-const ei (eo::requires inc (forall ((x U)) (P x)) Bool))\n" if "push" not in seq else body, "i.eo": "(define inc () (forall ((x U)) (P x)))\n"}, argv=["c.eo"], name="c.eo"))
c.sample(cs[-1].files)
for kind in ("rel", "dbg") if DEEP else ("rel",):
    c.run(cs, kind)
part("histories")
c.bounds = ["all terms of up to 3 nested binders over 2 names, 2 types, %d variable lists, conjunctions, local definitions and binders with several bodies; all pairs in lists of up to 800" % len(VL1), "%d open terms instantiated with %d pairs of types and %d arguments by macros, programs and rules" % (len(LP), len(INST), len(ARGS)),
            "%d names x %d types" % (len(NAMES), len(TYPES)), "histories of up to %d of %d operations" % (D, len(OPS))]
c.assumptions = ["variable lists with two variables of the same name are not judged, nor types that mention a variable of the same list"]
scale.run(c)
c.finish()
