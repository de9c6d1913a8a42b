"""P20: definitions, lets, aliases and attributes are transparent. The model is
an evaluator with closures and lexically scoped environments over the surface
syntax (macros, parallel lets, binders, n-ary operators, computation); the
core term it computes is what each use must denote. All programs of macros and
lets within the bounds are enumerated and replayed."""
import itertools
from mc import engine
from mc import scale
from mc.engine import Case

c = engine.Check("P20")
TH = True
DEEP = c.thorough
PRE = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const a Int)
(declare-const b Int)
(declare-const x Int)
(declare-const y Int)
(declare-const f (-> Int Int))
(declare-const g (-> Int Int Int))
(declare-const || (-> Int Int Int) :right-assoc-nil 0)
(declare-const lam (-> eo::List Int Int) :binder eo::List::cons)
"""


# ------------------------------------------------------------------ the model
def C(h, *args):
    for t in args:
        h = ("@", h, t)
    return h


def txt(t):
    if isinstance(t, str):
        return t
    if t[0] == "+":
        return "(eo::add %s %s)" % (txt(t[1]), txt(t[2]))
    args = []
    while isinstance(t, tuple) and t[0] == "@":
        args.append(txt(t[2]))
        t = t[1]
    return "(_ %s %s)" % (txt(t), " ".join(reversed(args)))


def stuck(t):
    return isinstance(t, tuple) and (t[0] == "+" or stuck(t[1]) or stuck(t[2]))


def var(n, ty="Int"):
    return '(eo::var "%s" %s)' % (n, ty)


class Closure:
    def __init__(self, params, body, env):
        self.params, self.body, self.env = params, body, env


BASE = {n: n for n in ("a", "b", "x", "y", "f", "g", "Int")}
BASE.update({"0": "0", "1": "1", "2": "2"})


def ev(t, env):
    """surface term -> core term"""
    if isinstance(t, str):
        return env[t]
    k = t[0]
    if k == "let":
        new = dict(env)
        vals = [(n, ev(u, env)) for n, u in t[1]]
        new.update(vals)
        return ev(t[2], new)
    if k == "lam":
        new = dict(env)
        for n in t[1]:
            new[n] = var(n)
        vl = "eo::List::nil"
        for n in reversed(t[1]):
            vl = C("eo::List::cons", var(n), vl)
        return C("lam", vl, ev(t[2], new))
    args = [ev(u, env) for u in t[1:]]
    if k == "add":
        u, v = args
        if isinstance(u, str) and isinstance(v, str) and u.isdigit() and v.isdigit():
            return str(int(u) + int(v))
        return ("+", u, v)
    if k == "||":
        r = "0"
        for u in reversed(args):
            r = C("||", u, r)
        return r
    h = env[k]
    if isinstance(h, Closure):
        assert len(h.params) == len(args)
        new = dict(h.env)
        new.update(zip(h.params, args))
        return ev(h.body, new)
    return C(h, *args)


def surf(t, letkw="eo::define"):
    if isinstance(t, str):
        return t
    k = t[0]
    if k == "let":
        return "(%s (%s) %s)" % (letkw, " ".join("(%s %s)" % (n, surf(u, letkw)) for n, u in t[1]), surf(t[2], letkw))
    if k == "lam":
        return "(lam (%s) %s)" % (" ".join("(%s Int)" % n for n in t[1]), surf(t[2], letkw))
    k = {"add": "eo::add"}.get(k, k)
    return "(%s %s)" % (k, " ".join(surf(u, letkw) for u in t[1:]))


def observe(name, lhs, core):
    """text that is accepted iff lhs denotes core"""
    if stuck(core):
        # the term does not evaluate: compare the terms inside of the definition
        # of a symbol's type is impossible, check that it is stuck
        return "(declare-const %s (eo::requires (eo::is_ok %s) false Bool))" % (name, lhs)
    return "(declare-const %s (eo::requires %s %s Bool))" % (name, lhs, txt(core))


last = [0, 0, 0]


def part(name):
    n = len(c.seen)
    c.parts[name] = dict(states=n - last[0], transitions=c.transitions - last[1], traces=c.traces - last[2])
    last[:] = [n, c.transitions, c.traces]


lines = []


def add(key, text, core=None):
    if core is not None:
        c.st(core)
    c.tr()
    lines.append((key, text))


def flush(pre, **kw):
    global lines
    if lines:
        c.sample(pre[-300:] + lines[len(lines) // 2][1])
        c.positive(pre, lines, **kw)
    lines = []


# ------------------------------------------------------------------ one macro
LEAF = ["x", "y", "a", "1"]
ARGS = ["x", "y", "a", "1", ("f", "x"), ("g", "y", "x"), ("m0", "y"), ("add", "1", "1"), ("lam", ["x"], "x")]


def depth1(L):
    o = list(L)
    o += [("f", t) for t in L] + [("m0", t) for t in L]
    o += [(k, t, u) for k in ("g", "||", "add") for t in L for u in L]
    o += [("lam", [n], t) for n in ("x", "z") for t in L + (["z"] if n == "z" else [])]
    return o


D1 = depth1(LEAF)
small = ["x", "y", "1", ("f", "x"), ("g", "y", "x"), ("add", "x", "1"), ("lam", ["x"], "x"), ("lam", ["y"], ("g", "x", "y")), ("m0", "y"), ("let", [("x", "y"), ("y", "x")], ("g", "x", "y"))]
D2 = [("f", t) for t in D1] + [("m0", t) for t in D1] + [(k, t, u) for k in ("g", "||", "add") for t in (D1 if DEEP else small) for u in D1]
D2 += [("lam", [n], t) for n in ("x", "y") for t in D1] + [("lam", ["x", "y"], t) for t in D1] + [("let", [("x", u)], t) for u in ("y", ("f", "x")) for t in D1]
M0 = Closure(["x"], ("g", "x", "a"), BASE)
E0 = dict(BASE, m0=M0)
PRE0 = PRE + "(define m0 ((x Int)) (g x a))\n"
bodies = list(dict.fromkeys(map(repr, D1 + D2)))
bodies = [eval(r) for r in bodies]
c.st(*[repr(x) for x in bodies])
argc = {repr(u): ev(u, E0) for u in ARGS}
for i, t in enumerate(bodies):
    d = []
    for params in (["x", "y"],) if not TH else (["x", "y"], ["y", "x"]):
        o = "(define m (%s) %s)" % (" ".join("(%s Int)" % p for p in params), surf(t))
        cl = Closure(params, t, E0)
        env = dict(E0, m=cl)
        obs = []
        # all arguments, rotated so that every pair occurs with every body class
        for u in ARGS:
            for v in ARGS if (TH or i < len(D1)) else ARGS[i % 3::3]:
                r = ev(("m", u, v), env)
                c.st(r)
                c.tr()
                obs.append(observe("t", "(m %s %s)" % (surf(u), surf(v)), r))
        add("macro:%s:%s" % (params, surf(t)), o + "".join(obs))
    # one parameter
    o = "(define m ((x Int)) %s)" % surf(t)
    env = dict(E0, m=Closure(["x"], t, E0))
    add("macro1:%s" % surf(t), o + "".join(observe("t", "(m %s)" % surf(u), ev(("m", u), env)) for u in ARGS))
    # no parameter: the name denotes the term
    add("macro0:%s" % surf(t), "(define m () %s)" % surf(t) + observe("t", "m", ev(t, E0)))
flush(PRE0, chunk=60)
part("macros")

# ------------------------------------------------------------------ towers
# macros that call macros with permuted parameter names
B0 = [("g", "x", "y"), ("g", "y", "x"), "x", ("g", "x", "x"), ("g", ("f", "y"), "a")]
P0 = [["x", "y"], ["y", "x"]]
BI = ["x", "y", "a", ("f", "x")]


def calls(n):
    o = [(n, u, v) for u in BI for v in BI]
    o += [(n, (n, "x", "y"), "y"), (n, "y", (n, "y", "x")), (n, (n, "y", "a"), (n, "x", "x")), ("g", (n, "y", "x"), "x")]
    return o


for b0, p0, p1, b1 in itertools.product(B0, P0, P0, calls("n0")):
    e = dict(E0)
    e["n0"] = Closure(p0, b0, dict(e))
    e["n1"] = Closure(p1, b1, dict(e))
    o = "".join("(define %s (%s) %s)" % (n, " ".join("(%s Int)" % p for p in e[n].params), surf(e[n].body)) for n in ("n0", "n1"))
    obs = []
    for u, v in itertools.product(["x", "y", "b", ("n0", "y", "x")], repeat=2):
        r = ev(("n1", u, v), e)
        c.st(r)
        c.tr()
        obs.append(observe("t", surf(("n1", u, v)), r))
    for p2 in P0:
        for b2 in calls("n1") if TH else calls("n1")[1::3]:
            e["n2"] = Closure(p2, b2, dict(e))
            obs.append("(define n2 (%s) %s)" % (" ".join("(%s Int)" % p for p in p2), surf(b2)))
            for u, v in (("x", "y"), ("y", ("f", "x"))):
                c.tr()
                obs.append(observe("t", surf(("n2", u, v)), ev(("n2", u, v), e)))
    add("tower:%s" % o, o + "".join(obs))
flush(PRE0, chunk=40)
part("towers of macros")

# ------------------------------------------------------------------ lets
# all nested parallel lets over two names that are also constants
T = ["x", "y", "a", ("f", "x"), ("g", "x", "y")]
BIND = [[("x", t)] for t in T] + [[("y", t)] for t in T]
BIND += [[("x", t), ("y", u)] for t in T for u in T] + [[("y", t), ("x", u)] for t in T for u in T]
INNER = ["x", "y", ("g", "x", "y"), ("g", "y", "x"), ("lam", ["x"], ("g", "x", "y")), ("m0", "x")]
LETS = [("let", bs, t) for bs in BIND for t in INNER]
for t in LETS:
    r = ev(t, E0)
    for w, wr in ((t, r), (("g", t, "x"), None), (("g", "y", t), None), (("f", t), None), (("m0", t), None)):
        add("let:" + surf(w), observe("t", surf(w), ev(w, E0)), ev(w, E0))
for i, (b1, b2) in enumerate(itertools.product(BIND, BIND)):
    for j, t in enumerate(INNER):
        if not TH and (i + j) % 2:
            continue
        w = ("let", b1, ("let", b2, t))
        add("let2:" + surf(w), observe("t", surf(w), ev(w, E0)), ev(w, E0))
        # a let inside of a binding
        if len(b1) == 1 and (TH or j % 3 == 0):
            w = ("let", [("y" if b1[0][0] == "x" else "x", ("let", b2, t)), b1[0]], ("g", "x", "y"))
            add("letb:" + surf(w), observe("t", surf(w), ev(w, E0)), ev(w, E0))
            w = ("let", b1, ("g", ("let", b2, t), ("g", "x", "y")))
            add("letg:" + surf(w), observe("t", surf(w), ev(w, E0)), ev(w, E0))
for b1, b2, b3 in itertools.product(BIND[:10] if not TH else BIND[:24], repeat=3):
    w = ("let", b1, ("let", b2, ("let", b3, ("g", "x", "y"))))
    add("let3:" + surf(w), observe("t", surf(w), ev(w, E0)), ev(w, E0))
# lets and macros
for t in LETS[::1 if TH else 3]:
    for params in (["x"], ["y"], ["x", "y"], ["y", "x"]):
        env = dict(E0, m=Closure(params, t, E0))
        o = "(define m (%s) %s)" % (" ".join("(%s Int)" % p for p in params), surf(t))
        for args in itertools.product(["x", "y", ("f", "b")], repeat=len(params)):
            w = ("m",) + args
            o += observe("t", surf(w), ev(w, env))
            w = ("let", [("x", "b"), ("y", "x")], w)
            o += observe("t", surf(w), ev(w, env))
            c.tr(2)
        add("letm:" + surf(t) + str(params), o)
sig = lines
flush(PRE0, chunk=200)
# the same with let in proof files
pl = []
for bs in BIND:
    for t in INNER:
        w = ("let", bs, t)
        pl.append(w)
for i, (b1, b2) in enumerate(itertools.product(BIND, BIND)):
    for j, t in enumerate(INNER):
        if TH or (i + j) % 6 == 0:
            pl.append(("let", b1, ("let", b2, t)))
            pl.append(("let", b1, ("g", ("let", b2, t), ("g", "x", "y"))))
cs = []
for i in range(0, len(pl), 400):
    o = ['(include "s.eo")']
    for w in pl[i:i + 400]:
        c.tr()
        o.append(observe("t", surf(w, "let"), ev(w, E0)))
        o.append(observe("t", surf(w, "let"), ev(w, E0)).replace("let", "eo::define"))
    cs.append(Case("plet:%s" % surf(pl[i], "let"), "\n".join(o) + "\n", "correct", files={"s.eo": PRE0}, name="m.p"))
c.run(cs)
part("lets")

# ------------------------------------------------------------------ histories
# definitions are resolved when they are made: later (re)definitions and
# declarations of the names in them do not change them
CMDS = [("define", "a", [], "b"), ("define", "b", [], "a"), ("define", "d", [], ("g", "a", "b")), ("define", "a", ["b"], ("g", "a0", "b")),
        ("define", "d", ["x"], ("g", "x", "a")), ("define", "b", ["a"], ("f", "a")), ("declare", "a"), ("push",), ("pop",), ("define", "m0", ["y"], ("m0", "y"))]


def uses(t):
    if isinstance(t, str):
        return {t}
    return {t[0]} | set().union(*[uses(u) for u in t[1:]])


depth = 6 if DEEP else 5
nodes = [({"a": "a0", "b": "b0", "d": "d0", "x": "x", "f": "f", "g": "g", "a0": "a0", "m0": M0, "y": "y"}, (), [], 0)]
PREH = """(declare-const Int Type)
(declare-const a Int)(declare-const b Int)(declare-const d Int)
(declare-const x Int)(declare-const y Int)
(define a0 () a)(define b0 () b)(define d0 () d)
(declare-const f (-> Int Int))
(declare-const g (-> Int Int Int))
(define m0 ((x Int)) (g x a))
"""
M0.env = dict(BASE, a="a0", a0="a0", b="b0")
M0h = M0
n = 0
fresh = 0
stack = [(nodes[0][0], (), "", 0, 0)]
while stack:
    env, scopes, text, k, nd = stack.pop()
    # observers
    o = text
    for q in ("a", "b", "d", "m0"):
        v = env[q]
        if isinstance(v, Closure):
            w = ev((q, "x"), env)
            o += observe("t", "(%s x)" % q, w)
        else:
            w = v
            o += observe("t", q, w)
        c.st((k, q, w))
    o += "(pop)" * len(scopes)
    if k:
        add("hist:" + text, "(push)" + o + "(pop)")
    if k == depth:
        continue
    for cm in CMDS:
        c.tr()
        if cm[0] == "push":
            stack.append((env, scopes + (env,), text + "(push)", k + 1, nd))
        elif cm[0] == "pop":
            if scopes:
                stack.append((scopes[-1], scopes[:-1], text + "(pop)", k + 1, nd))
        elif cm[0] == "declare":
            # a new constant of the same name (another type, no overloading
            # between them can be resolved differently) shadows
            e = dict(env)
            e["a"] = "c%d" % nd
            stack.append((e, scopes, text + "(declare-const a Int)(define c%d () a)" % nd, k + 1, nd + 1))
        else:
            _, nm, ps, b = cm
            # names used as constants must not be macros in it
            bad = False
            for u in uses(b) - set(ps):
                if isinstance(env.get(u), Closure) and not (isinstance(b, tuple) and u == b[0]):
                    bad = True
            if bad:
                continue
            e = dict(env)
            e[nm] = Closure(ps, b, env) if ps else ev(b, env)
            stack.append((e, scopes, text + "(define %s (%s) %s)" % (nm, " ".join("(%s Int)" % p for p in ps), surf(b)), k + 1, nd))
flush(PREH, chunk=250)
part("histories of definitions")
M0.env = BASE

# ------------------------------------------------------------------ :type
TB = {"a": "Int", "p": "Bool", "f": "(-> Int Int)", "(f a)": "Int", "(f p)": None, "Int": "Type", "(-> Int Bool)": "Type", "(not p)": "Bool", "g": "(-> Int Int Int)",
      "(_ g a)": "(-> Int Int)", "1": "Int", "true": "Bool", "(h a)": "Bool", "(h 1 1)": None, "Type": None, "(L Int)": "Type", "L": "(-> Type Type)", "nl": "(L Int)", "(id a)": "Int", "(id p)": "Bool", "(eo::add 1 1)": "Int"}
TYS = ["Int", "Bool", "(-> Int Int)", "Type", "(-> Int Int Int)", "(L Int)", "(L Bool)", "(-> Type Type)", "I2", "(-> Int (-> Int Int))", "(L I2)", "(-> I2 Int)"]
NORM = {"I2": "Int", "(-> Int (-> Int Int))": "(-> Int Int Int)", "(L I2)": "(L Int)", "(-> I2 Int)": "(-> Int Int)"}
PRET = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const L (-> Type Type))
(declare-const a Int)
(declare-const p Bool)
(declare-const nl (L Int))
(declare-const f (-> Int Int))
(declare-const h (-> Int Bool))
(declare-const g (-> Int Int Int))
(declare-const not (-> Bool Bool))
(define I2 () Int)
(define id ((z Int)) z)
"""
cs = []
for t, ty in TB.items():
    for want in TYS:
        w = NORM.get(want, want)
        if t == "Type":
            continue
        ok = ty is not None and ty == w
        c.st((t, want, ok))
        c.tr()
        cs.append(Case("type:%s:%s" % (t, want), PRET + "(define d () %s :type %s)\n" % (t, want), "correct" if ok else "reject"))
        # with parameters the type is the function type
        fty = None if ty is None or ty == "Type" or ty == "(-> Type Type)" else "(-> Int %s" % (ty[4:] if ty.startswith("(-> ") else ty + ")")
        fty = fty if fty is None or fty.endswith(")") else fty
        if fty is not None:
            full = "(-> Int %s)" % want if True else None
            cs.append(Case("typef:%s:%s" % (t, want), PRET + "(define d ((z Int)) %s :type (-> Int %s))\n" % (t, want), "correct" if ok else "reject"))
            cs.append(Case("typeb:%s:%s" % (t, want), PRET + "(define d ((z Bool)) %s :type (-> Int %s))\n" % (t, want), "reject"))
# macros of up to three parameters of every type, against every type
PT3 = ["Int", "Bool", "(-> Int Int)"]
BODY = {"Int": ["a", "(f a)", "(g a a)"], "Bool": ["p", "(not p)", "(h a)"], "(-> Int Int)": ["f", "(_ g a)"], "Type": ["Int"]}
for np_ in range(0, 4):
    for ps in itertools.product(PT3, repeat=np_):
        for bt, bs in BODY.items():
            prm = " ".join("(z%d %s)" % (i, t) for i, t in enumerate(ps))
            own = [("z%d" % i) for i, t in enumerate(ps) if t == bt][:1]
            for body in (bs if np_ < 2 else bs[:1]) + own:
                if bt == "Type":
                    full = None
                elif bt.startswith("(->"):
                    full = "(-> %s Int Int)" % " ".join(ps) if ps else bt
                else:
                    full = "(-> %s %s)" % (" ".join(ps), bt) if ps else bt
                wants = ["Int", "Bool", "(-> Int Int)", bt] + ["(-> %s %s)" % (" ".join(q), r) for n in (np_ - 1, np_, np_ + 1) if n > 0
                                                           for q in ([ps[1:]] if n < np_ else itertools.product(PT3, repeat=n) if np_ < 3 and n == np_ else [ps] if n == np_ else [ps + ("Int",)])
                                                           for r in ("Int", "Bool", "(-> Int Int)")]
                for w in dict.fromkeys(wants):
                    if w == "Type" or bt == "Type" and ps:
                        continue
                    wn = w.replace(" (-> Int Int))", " Int Int)") if w.startswith("(-> ") and w != "(-> Int Int)" else w
                    ok = full is not None and wn == (full if not full.startswith("(-> ") or full == "(-> Int Int)" else full.replace(" (-> Int Int))", " Int Int)"))
                    c.st(("macro type", ps, body, w))
                    c.tr()
                    cs.append(Case("macro type (%s) %s: %s" % (prm, body, w), PRET + "(define d (%s) %s :type %s)\n" % (prm, body, w), "correct" if ok else "reject"))
c.run(cs)
part("types of definitions")

# ------------------------------------------------------------------ aliases
# a name defined as a term can be used wherever the term can, with its role
SIGA = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const L (-> Type Type))
(declare-const a Int)
(declare-const b Int)
(declare-const p Bool)
(declare-const q Bool)
(declare-const f (-> Int Int))
(declare-const g (-> Int Int Int))
(declare-const not (-> Bool Bool))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const and (-> Bool Bool Bool) :left-assoc-nil true)
(declare-const imp (-> Bool Bool Bool) :right-assoc)
(declare-const < (-> Int Int Bool) :chainable or)
(declare-const dist (-> Int Int Bool) :pairwise or)
(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-parameterized-const = ((A Type :implicit)) (-> A A Bool))
(declare-parameterized-const sk ((F Bool :opaque)) Int)
(declare-datatype D ((d0) (d1 (s1 Int) (s2 D))))
(declare-datatypes ((P 1)) ((par (X) ((pn) (pc (ph X) (pt (P X)))))))
(program $inc ((n Int)) :signature (Int) Int ((($inc n) (eo::add n 1))))
(define $mac ((n Int) (m Int)) (g m n))
(declare-rule r1 ((F Bool)) :premises (F) :args (F) :conclusion F)
"""
# alias -> term
AL = {"A_Int": "Int", "A_L": "L", "A_a": "a", "A_p": "p", "A_f": "f", "A_g": "g", "A_or": "or", "A_and": "and", "A_imp": "imp", "A_lt": "<", "A_dist": "dist", "A_forall": "forall",
      "A_eq": "=", "A_D": "D", "A_d0": "d0", "A_d1": "d1", "A_s1": "s1", "A_P": "P", "A_pc": "pc", "A_inc": "$inc", "A_mac": "$mac", "A_1": "1", "A_true": "true", "A_nil": "eo::List::nil",
      "A_cons": "eo::List::cons", "A_fa": "(f a)", "A_orpq": "(or p q)", "A_3": "(eo::add 1 2)", "A_Bool": "Bool", "A_sk": "(sk p)", "A_LI": "(L Int)", "A_fun": "(-> Int Int)", "A_pn": "pn", "A_ga": "(_ g a)"}
# contexts: commands with a hole for each alias, accepted when expanded
CTX = """(declare-const t @Int)
(declare-const t (-> @Int @Bool))
(declare-const t (@L @Int))(declare-const u (eo::requires (eo::typeof t) (L Int) Bool))
(declare-const t @LI)(declare-const u (eo::requires (eo::typeof t) (@L Int) Bool))
(declare-const t @fun)(declare-const u (eo::requires (eo::typeof (t a)) @Int Bool))
(declare-const t (eo::requires (@f @a) @fa Bool))(declare-const t (eo::requires @fa (f a) Bool))
(declare-const t (eo::requires (@or p q p) (or p q p) Bool))(declare-const t (eo::requires (@or p q) @orpq Bool))
(declare-const t (eo::requires (@or @p q @true) (_ or p (_ or q (_ or true false))) Bool))
(declare-const t (eo::requires (@and p q p) (and p q p) Bool))
(declare-const t (eo::requires (@imp p q p) (_ imp p (_ imp q p)) Bool))
(declare-const t (eo::requires (@lt a b a) (< a b a) Bool))(declare-const t (eo::requires (@lt a @1) (_ < a 1) Bool))
(declare-const t (eo::requires (@dist a b @1) (dist a b 1) Bool))
(declare-const t (eo::requires (@forall ((z Int)) (= z a)) (forall ((z Int)) (= z a)) Bool))
(declare-const t (eo::requires (forall ((z @Int)) (= z a)) (@forall ((z Int)) (@eq z @a)) Bool))
(declare-const t (eo::requires (forall (@cons (eo::var "z" @Int)) p) (forall ((z Int)) p) Bool))
(declare-const t (eo::requires (@cons a b) (eo::List::cons a b) Bool))(declare-const u (eo::requires (_ @cons a @nil) (eo::List::cons a) Bool))
(declare-const t (eo::requires (@d1 a @d0) (d1 a d0) Bool))(declare-const u (eo::requires (@s1 @d0) (s1 d0) Bool))
(declare-const t (eo::requires (eo::dt_constructors @D) (eo::List::cons d0 d1) Bool))
(declare-const t (eo::requires (eo::dt_selectors @d1) (eo::List::cons @s1 s2) Bool))
(declare-const t (@P @Int))(declare-const u (eo::requires (@pc a t) (pc a t) Bool))
(declare-const t (eo::requires (as @pn (P Int)) (as pn (@P @Int)) Bool))
(declare-const t (eo::requires (@inc @1) 2 Bool))(declare-const u (eo::requires ($inc @3) 4 Bool))
(declare-const t (eo::requires (@mac a @3) (g 3 a) Bool))
(declare-const t (eo::requires (eo::list_len @or @orpq) 2 Bool))
(declare-const t (eo::requires (eo::list_concat @or @orpq (or p)) (or p q p) Bool))
(declare-const t (eo::requires (eo::nil @or Bool) false Bool))
(declare-const t (eo::requires (eo::nil @and @Bool) true Bool))
(declare-const t (-> @Bool @Bool @Bool) :right-assoc-nil @true)(declare-const u (eo::requires (t p) (_ t p true) Bool))
(declare-const t (-> Int Int Bool) :chainable @or)(declare-const u (eo::requires (t a b a) (or (t a b) (t b a)) Bool))
(declare-const t (-> Int Int Bool) :pairwise @or)(declare-const u (eo::requires (t a b a) (or (t a b) (t a a) (t b a)) Bool))
(declare-const t (-> eo::List Bool Bool) :binder @cons)(declare-const u (eo::requires (t ((z Int)) p) (_ t (eo::List::cons (eo::var "z" Int)) p) Bool))
(declare-const t (-> eo::List Bool) :arg-list @cons)(declare-const u (eo::requires (t a p) (_ t (eo::List::cons a p)) Bool))
(declare-consts <string> @LI)(declare-const u (eo::requires (eo::typeof "") (L Int) Bool))
(declare-parameterized-const t ((n @Int) (T Type :implicit)) (-> T @Bool))(declare-const u (eo::requires (eo::typeof (t 1 a)) Bool Bool))
(declare-datatype T ((t0) (t1 (u1 @Int) (u2 @LI))))(declare-const u (eo::requires (eo::typeof u1) (-> T Int) Bool))
(program $t ((n @Int)) :signature (@Int) @Bool ((($t @1) @true) (($t @a) false) (($t (@f n)) (= n n))))(declare-const u (eo::requires ($t 1) true Bool))(declare-const v (eo::requires ($t a) false Bool))(declare-const w (eo::requires ($t (f b)) (= b b) Bool))
(program $t ((F Bool) (G Bool :list)) :signature (Bool) Bool ((($t (@or F G)) F)))(declare-const u (eo::requires ($t (or p q)) p Bool))
(program $t ((F Bool)) :signature (Bool) Bool ((($t @orpq) q) (($t (@forall (@cons (eo::var "z" Int)) F)) F)))(declare-const u (eo::requires ($t (or p q)) q Bool))(declare-const v (eo::requires ($t (forall ((z Int)) p)) p Bool))
(program $t ((n Int)) :signature (Int) Int ((($t n) (@inc (@mac n @3)))))
(program $t ((n Int)) :signature (Int) Int ((($t n) (@mac n @3))))(declare-const u (eo::requires ($t a) (g 3 a) Bool))
(declare-rule t ((F @Bool)) :premises (F @p) :args (@a) :requires (((@inc @1) 2) (@3 3)) :conclusion (@or F @p))(assume h q)(assume i p)(step s (or q p) :rule t :premises (h i) :args (a))
(declare-rule t ((F Bool)) :premise-list F @or :conclusion F)(assume h q)(assume i @p)(step s (or p q) :rule t :premises (i h))
(declare-rule t ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (@imp F G))(assume-push h @p)(step-pop s (imp p p) :rule t :premises (h))
(assume h @orpq)(step s (@or p q) :rule r1 :premises (h) :args ((or @p q)))
(define t ((n @Int)) (@mac n n) :type (-> Int @Int))(declare-const u (eo::requires (t @a) (g a a) Bool))
(define t () @or)(declare-const u (eo::requires (t p q) (or p q) Bool))
(define t ((h @fun)) (h @a))(declare-const u (eo::requires (t @f) @fa Bool))
(declare-const t (eo::requires (eo::typeof @sk) Int Bool))(declare-const u (eo::requires @sk (sk @p) Bool))
(declare-const t (eo::requires (@ga b) (g a b) Bool))(declare-const u (eo::requires (_ @ga b) (@g @a b) Bool))
(declare-const t (eo::requires (eo::define ((o @or)) (o p q)) (or p q) Bool))
(declare-const t (eo::requires (eo::define ((o @mac)) (o a b)) (g b a) Bool))
(declare-const t (eo::requires (eo::define ((o @forall) (I @Int)) (o ((z I)) (= z a))) (forall ((z Int)) (= z a)) Bool))
(declare-const t (eo::requires (eo::ite (eo::is_eq @a a) @fa @1) (f a) Bool))
(declare-const t (eo::requires (eo::nameof @a) "a" Bool))
(declare-const t (eo::requires (eo::cmp @a @a) false Bool))(declare-const t (eo::requires (eo::hash @a) (eo::hash a) Bool))
(declare-sort t 1)(declare-const u (t @Int))(declare-const v (eo::requires (eo::typeof u) (t Int) Bool))""".split("\n")
import re
defs = "".join("(define %s () %s)\n" % kv for kv in AL.items() if kv[0] != "A_inc")
SHORT = {k[2:]: (k, v) for k, v in AL.items()}
cs = []
for ctx in CTX:
    names = [m.group(1) for m in re.finditer(r"@(\w+)", ctx)]

    def fill(choice):
        i = iter(choice)
        return re.sub(r"@(\w+)", lambda m: SHORT[m.group(1)][0] if next(i) else SHORT[m.group(1)][1], ctx)
    # every subset of the holes uses the alias
    k = len(names)
    sets = list(itertools.product((0, 1), repeat=k)) if k <= 7 or TH and k <= 10 else [tuple(int(i == j) for i in range(k)) for j in range(k)] + [(0,) * k, (1,) * k]
    for s in sets:
        t = fill(s)
        c.st(t)
        c.tr()
        cs.append(Case("alias:" + t, SIGA + defs + "(define A_inc () $inc)\n" + t + "\n", "correct"))
        # definitions made locally after a declaration of the same names
    # the alias of an alias, with a scope
    t = fill((1,) * k)
    d2 = "".join("(define B_%s () %s)\n" % (n[2:], n) for n in AL)
    cs.append(Case("alias2:" + t, SIGA + defs + "(define A_inc () $inc)\n" + d2 + t.replace("A_", "B_") + "\n", "correct"))
    if "declare-rule" not in t:
        cs.append(Case("aliasp:" + t, SIGA + "(push)\n" + defs + "(define A_inc () $inc)\n" + t + "\n(pop)\n", "correct"))
    # as lets
    cmds = re.findall(r"^\(declare-const t \(eo::requires .*\)$", ctx)
    if len(cmds) == 1 and ctx.count("(declare-const") == 1:
        inner = fill((1,) * k)[len("(declare-const t "):-1]
        bs = " ".join("(%s %s)" % kv for kv in AL.items())
        cs.append(Case("aliaslet:" + t, SIGA + "(declare-const t (eo::define (%s) %s))\n" % (bs, inner), "correct"))
c.sample(cs[len(cs) // 2].files["c.eo"][-600:])
c.run(cs)
part("aliases")

# ------------------------------------------------------------------ annotations
# an annotated term is the term
cs = []
ATT = [":pattern (p q)", ":foo", ":foo bar", ":foo (bar 1)", ":pattern ((f a)) :foo", ":weight 3", ":named n", ":named |n n|"]
for at in ATT:
    for t, u in (("(or (! p %s) q)", "(or p q)"), ("(! (or p q) %s)", "(or p q)"), ("(or p (! (or q (! p %s)) :foo))", "(or p (or q p))"), ("(= (f (! a %s)) b)", "(= (f a) b)"), ("(forall ((z Int)) (! (= z a) %s))", "(forall ((z Int)) (= z a))")):
        for w, mode in (("(assume h %s)(step s %s :rule r1 :premises (h) :args (%s))", 0),):
            x = t % at
            c.tr()
            c.st(x)
            cs.append(Case("annot:" + x, None, "correct", files={"s.eo": SIGA, "m.p": '(include "s.eo")' + w % (x, u, x)}, argv=["m.p"]))
            cs.append(Case("annotr:" + x, None, "correct", files={"s.eo": SIGA, "r.x": "(assert %s)" % x, "m.p": '(include "s.eo")(reference "r.x")(assume h %s)' % u}, argv=["m.p"]))
c.run(cs)
part("annotations")

# ------------------------------------------------------------------ reference definitions
# define-sort with permuted parameters, define-const, define-fun
cs = []
SR = SIGA + "(declare-const Arr (-> Type Type Type))\n(declare-const lambda (-> eo::List Int Int) :binder eo::List::cons)\n"
for perm in itertools.permutations(("X", "Y")):
    for bd in ("(Arr X Y)", "(Arr Y X)", "(Arr X X)", "(Arr (Arr X Y) Y)", "Int", "X", "(L Y)"):
        for a1, a2 in itertools.product(("Int", "Bool", "(L Int)", "(S Int Bool)"), repeat=2):
            s = dict(zip(perm, (a1, a2)))

            def exp(t, a):
                for kk, vv in a.items():
                    t = t.replace(kk, "<%s>" % kk)
                for kk, vv in a.items():
                    t = t.replace("<%s>" % kk, vv)
                return t
            base = exp(bd, dict(zip(perm, ("Int", "Bool"))))
            e1, e2 = (base if z == "(S Int Bool)" else z for z in (a1, a2))
            e = exp(bd, dict(zip(perm, (e1, e2))))
            r = "(define-sort S (%s %s) %s)(declare-fun v () (S %s %s))(declare-const w %s)(assert (= v w))" % (perm + (bd, a1, a2, e))
            c.st(e)
            c.tr(3)
            m = '(include "s.eo")(reference "r.x")(declare-const chk (eo::requires (eo::typeof v) %s Bool))(declare-const u %s)(assume h (= v w))(declare-const chk2 (eo::typeof (= u v)))' % (e, e)
            cs.append(Case("dsort:" + r, None, "correct", files={"s.eo": SR, "r.x": r, "m.p": '(include "s.eo")(reference "r.x")(include "k.eo")', "k.eo": m.split(')', 2)[2]}, argv=["m.p"]))
# more parameters: every order of the parameters and of the arguments
SD = "".join("(declare-const %s Type)" % x for x in "ABCDE") + "(declare-const M (-> Type Type Type Type))(declare-const P (-> Int Int Int Bool))\n"
SD += "".join("(declare-const M%d (-> %s))" % (n, " ".join(["Type"] * (n + 1))) for n in (1, 2, 3, 4, 5))
for n in (1, 2, 3, 4, 5) if TH else (1, 2, 3, 4):
    names = ["X", "Y", "A", "Z", "B"][:n]
    for perm in itertools.permutations(names):
        for rot in range(n):
            args = (["A", "B", "C", "D", "E"] * 2)[rot:rot + n]
            e = "(M%d %s)" % (n, " ".join(args[perm.index(x)] for x in names))
            for w, ok in [(e, 1)] + [("(M%d %s)" % (n, " ".join(args)), e == "(M%d %s)" % (n, " ".join(args)))]:
                c.st((perm, w))
                c.tr(2)
                r = "(define-sort S (%s) (M%d %s))(declare-fun v () (S %s))(declare-fun w () %s)(assert (= v w))" % (" ".join(perm), n, " ".join(names), " ".join(args), w)
                cs.append(Case("dsortn:" + r, None, "correct" if ok else "reject", files={"s.eo": SR + SD, "r.x": r, "m.p": '(include "s.eo")(reference "r.x")(assume h (= v w))'}, argv=["m.p"]))
# functions of up to three parameters: the order of the binder's list
for n in (1, 2, 3, 4):
    vs = ["x", "y", "z", "w"][:n]
    F = SIGA + "".join("(declare-const %s Int)" % x for x in "xyzw") + "(declare-const F (-> %s))" % " ".join(["Int"] * (n + 1)) + \
        "(declare-parameterized-const lambda ((T Type :implicit)) (-> eo::List T (-> %s T)) :binder eo::List::cons)\n" % " ".join(["Int"] * n)
    for perm in itertools.permutations(vs):
        for perm2 in itertools.permutations(vs):
            r = "(define-fun k (%s) Int (F %s))" % (" ".join("(%s Int)" % x for x in perm), " ".join(vs))
            q = "(= k (lambda (%s) (F %s)))" % (" ".join("(%s Int)" % x for x in perm2), " ".join(vs))
            c.st(r, q)
            c.tr(2)
            cs.append(Case("dfunn:%s:%s" % (r, q), None, "correct" if perm == perm2 else "reject",
                           files={"s.eo": F, "r.x": r, "m.p": '(include "s.eo")(reference "r.x")(assume h %s)' % q}, argv=["m.p"]))
for body, bad in (("(f a)", "(f b)"), ("3", "4"), ("(g a 1)", "a")):
    r = "(define-const k Int %s)(assert (= k a))" % body
    # a constant defined by define-const is the term
    for q, v in (("(= %s a)" % body, "correct"), ("(= k a)", "correct"), ("(= %s a)" % bad, "reject"), ("(= a k)", "reject")):
        cs.append(Case("dconst:%s:%s" % (r, q), None, v, files={"s.eo": SR, "r.x": r, "m.p": '(include "s.eo")(reference "r.x")(assume h %s)' % q}, argv=["m.p"]))
    r = "(define-fun k () Int %s)" % body
    for q, v in (("(= k %s)" % body, "correct"), ("(= k %s)" % bad, "reject"), ("(= %s k)" % body, "reject")):
        cs.append(Case("dfun0:%s:%s" % (r, q), None, v, files={"s.eo": SR, "r.x": r, "m.p": '(include "s.eo")(reference "r.x")(assume h %s)' % q}, argv=["m.p"]))
for vs, body in itertools.product((["x"], ["y"], ["a"], ["x", "y"], ["y", "x"]), ("x", "(g x y)", "(f a)", "(g a x)", "(g y (f x))")):
    r = "(define-fun k (%s) Int %s)" % (" ".join("(%s Int)" % v for v in vs), body)
    bl = " ".join("(%s Int)" % v for v in vs)
    SX = SR + "(declare-const x Int)(declare-const y Int)\n"
    for q, v in (("(= k (lambda (%s) %s))" % (bl, body), "correct"), ("(= k (lambda ((w Int)) %s))" % body, "reject"), ("(= k (lambda (%s) (f %s)))" % (bl, body), "reject")):
        SX2 = SX.replace("(declare-const lambda (-> eo::List Int Int)", "(declare-parameterized-const lambda ((T Type :implicit)) (-> eo::List T (-> Int %s))" % ("T" if len(vs) == 1 else "Int T"))
        cs.append(Case("dfun:%s:%s" % (r, q), None, v, files={"s.eo": SX2, "r.x": r, "m.p": '(include "s.eo")(reference "r.x")(assume h %s)' % q}, argv=["m.p"]))
c.sample(cs[-1].files.__repr__())
c.run(cs)
part("reference definitions")
c.bounds = ["macro bodies of depth <= 2 over 4 leaves with 1 and 2 parameters, %d argument terms" % len(ARGS), "towers of 3 macros with permuted names",
            "nested parallel lets of depth 3 over two names", "histories of %d definitions" % depth, "%d contexts with every subset of their names replaced by aliases" % len(CTX)]
scale.run(c)
c.finish()
