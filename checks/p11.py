"""P11: names. Model: a stack of scopes with bindings; a use of a name denotes
the innermost visible binding (for an application: the innermost one that type
checks). (1) all histories of declarations, definitions and scope commands up
to a depth, every name probed after every command; (2) all terms of nested
lets, binders and parameters up to a depth."""
import itertools
from mc import engine
from mc import scale
from mc.engine import Case

c = engine.Check("P11")
TH = c.thorough
PRE = """(declare-const U Type)
(declare-const V Type)
(declare-const u U)
(declare-const v V)
(declare-const h (-> U U))
(declare-const hv (-> V U))
(declare-parameterized-const pair ((T Type :implicit) (S Type :implicit)) (-> T S U))
(declare-parameterized-const q ((T Type :implicit)) (-> T Bool))
(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-rule tt () :conclusion true)
(declare-rule dis ((F Bool)) :assumption F :conclusion true)
(declare-rule same ((F Bool)) :premises (F) :conclusion-explicit F)
"""
# ---------------------------------------------------------------- histories
# types of applications: argument types -> result type; () for constants
TY = {"U": ((), "U"), "V": ((), "V"), "UU": (("U",), "U"), "UV": (("U",), "V"), "VU": (("V",), "U"), "UUU": (("U", "U"), "U"), "VV": (("V",), "V"),
      "UVU": (("U", "V"), "U")}


def tytext(k):
    a, r = TY[k]
    return "(-> %s %s)" % (" ".join(a), r) if a else r


class B:
    """a binding: id, type key, kind in const / alias / macro"""
    __slots__ = ("i", "ty", "kind", "exp")

    def __init__(self, i, ty, kind, exp=None):
        self.i, self.ty, self.kind, self.exp = i, ty, kind, exp


ARGS = [("u",), ("v",), ("u", "u"), ("u", "v"), ("v", "v")]
AT = {"u": "U", "v": "V"}


def applies(b, args):
    """'full' / 'part' when the application type checks"""
    want, _ = TY[b.ty]
    got = tuple(AT[a] for a in args)
    if want[:len(got)] == got and got:
        return "full" if len(want) == len(got) else "part"
    return None


def hist_alphabet(fam):
    if fam == "heads":
        return [("decl", "f", "UU"), ("decl", "f", "UV"), ("decl", "f", "VU"), ("decl", "f", "UUU"), ("macro", "f", "U"), ("macro", "f", "V"),
                ("alias", "f", "h"), ("save", "f"), ("push",), ("pop",)]
    if fam == "proof":
        return [("decl", "f", "UU"), ("decl", "f", "VU"), ("alias", "f", "h"), ("save", "f"), ("apush",), ("spop",), ("push",), ("pop",)]
    return [("decl", "x", "U"), ("decl", "x", "V"), ("decl", "x", "UU"), ("alias", "x", "u"), ("alias", "x", "h"), ("decl", "y", "U"), ("save", "x"), ("push",), ("pop",),
            ("apush",), ("spop",)]


uid = [0]
undeclared = []


def replay(seq, fam):
    """-> (list of command texts) or None when the history is not a legal one"""
    uid[0] += 1
    g = uid[0]
    env = [dict()]          # scopes: name -> list of bindings
    kinds = []              # 'push' / 'assume'
    out = []
    nb = [0]
    saved = {}

    def visible(n):
        r = []
        for s in env:
            r += s.get(n, [])
        return r

    def name(n):
        return "%s%d" % (n, g) if n in ("f", "x", "y", "s") else n

    def bind(n, b):
        env[-1].setdefault(n, []).append(b)

    def probes(step):
        for n in (("f", "s") if fam != "plain" else ("x", "y", "s")):
            bs = visible(n)
            if not bs:
                continue
            b = bs[-1]
            c.tr()
            if b.kind != "macro":
                out.append("(declare-const o%d_%d%s (eo::requires %s %s Bool))" % (g, step, n, name(n), b.exp))
            if len(bs) == 1 and b.kind == "macro":
                pass
            for j, ar in enumerate(ARGS):
                cands = [x for x in bs if applies(x, ar)]
                e = "(declare-const p%d_%d%s%d (eo::requires " % (g, step, n, j)
                t = "(%s %s)" % (name(n), " ".join(ar))
                c.tr()
                if not cands:
                    if b.kind == "macro":
                        continue
                    out.append(e + "(eo::is_ok (eo::typeof %s)) false Bool))" % t)
                    continue
                x = cands[-1]
                if x.kind == "macro":
                    if applies(x, ar) == "full":
                        out.append(e + "%s %s Bool))" % (t, x.exp % ar[0]))
                        out.append("(assume a%d_%d%s%d (q %s))\n(step b%d_%d%s%d (q %s) :rule same :premises (a%d_%d%s%d))" % (
                            g, step, n, j, t, g, step, n, j, x.exp % ar[0], g, step, n, j))
                    continue
                out.append(e + "%s (_ %s %s) Bool))" % (t, x.exp, " ".join(ar)))
        # a qualified identifier selects the binding with the stated type
        if fam == "heads":
            bs = visible("f")
            if bs and all(x.kind == "const" for x in bs):
                for ty in ("UU", "UV", "VU", "UUU", "VV"):
                    m = [x for x in bs if x.ty == ty]
                    c.tr()
                    t = "(eo::as %s %s)" % (name("f"), tytext(ty))
                    if m:
                        out.append("(declare-const q%d_%d%s (eo::requires %s %s Bool))" % (g, step, ty, t, m[-1].exp))
                    else:
                        out.append("(declare-const q%d_%d%s (eo::requires (eo::is_ok (eo::typeof %s)) false Bool))" % (g, step, ty, t))

    for k, cm in enumerate(seq):
        if cm[0] == "decl":
            nb[0] += 1
            al = "k%d_%d" % (g, nb[0])
            out.append("(declare-const %s %s)\n(define %s () %s)" % (name(cm[1]), tytext(cm[2]), al, name(cm[1])))
            bind(cm[1], B(nb[0], cm[2], "const", al))
        elif cm[0] == "alias":
            out.append("(define %s () %s)" % (name(cm[1]), cm[2]))
            bind(cm[1], B(0, {"h": "UU", "u": "U"}[cm[2]], "alias", cm[2]))
        elif cm[0] == "macro":
            hh = "h" if cm[2] == "U" else "hv"
            out.append("(define %s ((z %s)) (pair z (%s z)))" % (name(cm[1]), cm[2], hh))
            bind(cm[1], B(0, {"U": "UU", "V": "VU"}[cm[2]], "macro", "(_ pair %%s (_ %s %%s))" % hh))
            x = env[-1][cm[1]][-1]
            x.exp = "(_ pair %%s (_ %s %%s))" % hh
            x.exp = x.exp.replace("%s (_", "%s (_")
            x.exp = _Twice(x.exp)
        elif cm[0] == "save":
            bs = visible(cm[1])
            if not bs or bs[-1].kind == "macro":
                return None
            out.append("(define %s () %s)" % (name("s"), name(cm[1])))
            bind("s", B(0, bs[-1].ty, "alias", bs[-1].exp))
        elif cm[0] == "push":
            if kinds and kinds[-1] == "push" and seq[k - 1] == ("push",):
                return None
            out.append("(push)")
            env.append({})
            kinds.append("push")
        elif cm[0] == "apush":
            out.append("(assume-push w%d_%d true)" % (g, k))
            env.append({})
            kinds.append("assume")
        elif cm[0] in ("pop", "spop"):
            if not kinds or kinds[-1] != {"pop": "push", "spop": "assume"}[cm[0]]:
                return None
            old = env.pop()
            kinds.pop()
            out.append("(pop)" if cm[0] == "pop" else "(step-pop z%d_%d :rule dis)" % (g, k))
            for n in old:
                if not visible(n):
                    undeclared.append((list(out), name(n), list(kinds)))
        probes(k)
        c.st((fam, tuple(seq[:k + 1])))
    for kd in reversed(kinds):
        out.append("(pop)" if kd == "push" else "(step-pop :rule dis)" if 0 else "(step-pop y%d_%d :rule dis)" % (g, len(out)))
    return out


class _Twice(str):
    """the macro's body with its parameter replaced"""
    def __mod__(self, x):
        return str(self).replace("%s", x)


lines = []
DEPTH = {"heads": 5 if TH else 4, "plain": 5 if TH else 4, "proof": 6 if TH else 5}
for fam, d in DEPTH.items():
    n = 0
    al = hist_alphabet(fam)
    for k in range(1, d + 1):
        for seq in itertools.product(al, repeat=k):
            if k < d and seq[-1][0] not in ("pop", "spop"):
                continue  # every prefix is probed in a longer history
            if seq[-1][0] == "push" or seq[-1][0] == "apush" or seq[0][0] in ("pop", "spop", "save"):
                continue
            o = replay(seq, fam)
            if o is None:
                continue
            n += 1
            lines.append((fam + " " + " ".join(map("_".join, seq)), "\n".join(o)))
            if n % 1777 == 5:
                c.sample("\n".join(o)[:600])
    c.part("histories: " + fam, 0, n)
neg = []
seenu = set()
for out, n, kinds in undeclared:
    key = ("\n".join(out)).replace(n[1:], "")
    if key in seenu:
        continue
    seenu.add(key)
    if len(seenu) % (1 if TH else 1) == 0 and len(neg) < 40000:
        for use in ("(assume u_ (q %s))" % n, "(define u_ () (q (%s u)))" % n):
            neg.append(Case("undeclared %s" % use, PRE + "\n".join(out) + "\n" + use + "\n" + "".join(
                "(pop)" if k == "push" else "(step-pop :rule dis)" for k in reversed(kinds)), "reject"))
c.part("names used after their scope", 0, len(neg))

# ------------------------------------------------------------ terms
# an environment maps names to their explicit meaning
NAMES = ("a", "b")
PRE_T = PRE + "(declare-const a U)\n(declare-const b V)\n(define a_ () a)\n(define b_ () b)\n"


def gen(env, d):
    """(text, explicit text)"""
    for n in NAMES:
        yield n, env[n]
    if d == 0:
        return
    # let over one and two names; its definitions are outside its scope
    for n in NAMES:
        m = "b" if n == "a" else "a"
        for e in ((n, env[n]), (m, env[m]), ("u", "u")):
            for t, x in gen(dict(env, **{n: e[1]}), d - 1):
                if t in NAMES and t != n:
                    continue
                yield "(eo::define ((%s %s)) %s)" % (n, e[0], t), x
    for t, x in gen(dict(env, a=env["b"], b=env["a"]), d - 1):
        yield "(eo::define ((a b) (b a)) %s)" % t, x
    # binders
    for n in NAMES:
        for ty in ("U", "V"):
            for t, x in gen(dict(env, **{n: '(eo::var "%s" %s)' % (n, ty)}), d - 1):
                yield "(forall ((%s %s)) (q %s))" % (n, ty, t), '(_ forall (_ eo::List::cons (eo::var "%s" %s) eo::List::nil) (_ q %s))' % (n, ty, x)
    for t, x in gen(dict(env, a='(eo::var "a" V)', b='(eo::var "b" U)'), d - 1):
        yield "(forall ((a V) (b U)) (q %s))" % t, '(_ forall (_ eo::List::cons (eo::var "a" V) (_ eo::List::cons (eo::var "b" U) eo::List::nil)) (_ q %s))' % x
    for t, x in gen(dict(env, a='(eo::var "a" V)'), d - 1):
        yield "(forall ((a U) (a V)) (q %s))" % t, '(_ forall (_ eo::List::cons (eo::var "a" U) (_ eo::List::cons (eo::var "a" V) eo::List::nil)) (_ q %s))' % x
    # the binding does not extend to the next argument
    for t, x in gen(env, d - 1):
        if t not in NAMES:
            yield "(pair %s a)" % t, "(_ pair %s %s)" % (x, env["a"])
            yield "(pair b %s)" % t, "(_ pair %s %s)" % (env["b"], x)
            yield "(pair (pair b %s) (pair b a))" % t, "(_ pair (_ pair %s %s) (_ pair %s %s))" % (env["b"], x, env["b"], env["a"])


tl = []
for i, (t, x) in enumerate(gen({"a": "a_", "b": "b_"}, 4 if TH else 3)):
    c.tr()
    c.st(t)
    tl.append(("term " + t, "(declare-const t%d (eo::requires %s %s Bool))" % (i, t, x)))
c.part("terms with lets and binders", 0, len(tl))
# under parameters: the body's names denote the parameters, afterwards the constants
i = 0
for pa, pb in (("U", None), ("V", None), (None, "U"), ("V", "U")):
    ps = [("a", pa)] * bool(pa) + [("b", pb)] * bool(pb)
    act = {"a": "u" if pa == "U" else "v", "b": "u" if pb == "U" else "v"}
    env = {"a": act["a"] if pa else "a_", "b": act["b"] if pb else "b_"}
    for t, x in gen(env, 3 if TH else 2):
        i += 1
        c.tr(3)
        pl = " ".join("(%s %s)" % p for p in ps)
        ac = " ".join(act[p] for p, _ in ps)
        pn = " ".join(p for p, _ in ps)
        after = "(declare-const e%d_%%d (eo::requires (_ pair a b) (_ pair a_ b_) Bool))" % i
        tl.append(("macro (%s) %s" % (pl, t), "(define m%d (%s) %s)\n(declare-const m%d_ (eo::requires (m%d %s) %s Bool))\n" % (i, pl, t, i, i, ac, x) + after % 1))
        sg = " ".join(ty for _, ty in ps)
        tl.append(("program (%s) %s" % (pl, t), "(program $p%d (%s) :signature (%s) Bool ((($p%d %s) %s)))\n(declare-const r%d (eo::requires ($p%d %s) %s Bool))\n" % (
            i, pl, sg, i, pn, t, i, i, ac, x) + after % 2))
        tl.append(("rule (%s) %s" % (pl, t), "(declare-rule r%d_ (%s) :args (%s) :conclusion (q %s))\n(step s%d (q %s) :rule r%d_ :args (%s))\n" % (
            i, pl, pn, t, i, x, i, ac) + after % 3))
c.part("terms under parameters", 0, i * 3)
# ---------------------------------------------------------------- reset, params end with their command
ONE = [("(define m ((z U)) z)", "z"), ("(program $p ((z U)) :signature (U) U ((($p z) z)))", "z"), ("(declare-rule r ((z Bool)) :premises (z) :conclusion z)", "z"),
       ("(declare-parameterized-const g ((z Type :implicit)) (-> z z))", "z"), ("(assume w (forall ((z U)) (q z)))", "z"), ("(define m () (eo::define ((z u)) z))", "z"),
       ("(declare-const z U)\n(reset)\n(declare-const U Type)\n(declare-parameterized-const q ((T Type :implicit)) (-> T Bool))", "z"),
       ("(define z () u)\n(reset)\n(declare-const U Type)\n(declare-parameterized-const q ((T Type :implicit)) (-> T Bool))", "z"),
       ("(push)\n(declare-const z U)\n(reset)\n(declare-const U Type)\n(declare-parameterized-const q ((T Type :implicit)) (-> T Bool))", "z"), ("", "z")]
for pre, n in ONE:
    for use in ("(assume u_ (q %s))", "(define u_ () (%s u))", "(declare-const u_ %s)", "(define u_ () (pair u %s))", "(step u_ true :rule same :premises (%s))", "(step u_ true :rule %s)",
                "(define u_ () (eo::as %s U))"):
        neg.append(Case("after %s: %s" % (pre, use % n), PRE + pre + "\n" + use % n + "\n", "reject"))
RES = "(reset)\n" + PRE.replace("(declare-rule same", "(declare-const f (-> U V))\n(declare-const z V)\n(declare-rule same")
for pre in ("(declare-const f (-> U U))", "(declare-const f (-> U U))\n(declare-const f (-> V V))", "(push)\n(declare-const f (-> U U))", "(define f () h)\n(declare-const z U)", "(assume-push f true)"):
    neg.append(Case("reset after " + pre, PRE + pre + "\n" + RES + "(define k () f)\n(declare-const t (eo::requires (f u) (_ k u) Bool))\n(declare-const t2 (eo::requires (eo::typeof z) V Bool))\n"
                    "(declare-const t3 (eo::requires (eo::is_ok (eo::typeof (f v))) false Bool))\n", "correct"))
    neg.append(Case("reset is complete after " + pre, PRE + pre + "\n(reset)\n" + PRE + "(assume w (q (f u)))", "reject"))
# ---------------------------------------------------------------- overloads of operators with annotations
# every pair (thorough: triple) of kinds of declarations of one name over
# different types; each application denotes the desugaring by the declaration
# that it is well typed for
PRE_O = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const all (-> Bool Bool Bool) :right-assoc-nil true)
"""
for k in (1, 2, 3, 4):
    PRE_O += ("(declare-const T@ Type)(declare-const B@ (-> Int Type))(declare-const z@ T@)(declare-parameterized-const n@ ((m Int)) (B@ m))(declare-const L@ Type)(declare-const e@ L@)"
              "(declare-const c@ (-> T@ L@ L@) :right-assoc-nil e@)" + "".join("(declare-const t@%s T@)(declare-const b@%s (B@ 3))" % (x, x) for x in "xyz") + "\n").replace("@", str(k))
T3, B3, P3 = "(-> T@ T@ T@)", "(-> (B@ 3) (B@ 3) (B@ 3))", "(declare-parameterized-const o ((m Int :implicit)) (-> (B@ m) (B@ m) (B@ m)) :%s-nil (n@ m))"


def right(h, a, z=None):
    a = list(a) + ([z] if z else [])
    r = a[-1]
    for x in reversed(a[:-1]):
        r = "(_ %s %s %s)" % (h, x, r)
    return r


def left(h, a, z=None):
    a = ([z] if z else []) + list(a)
    r = a[0]
    for x in a[1:]:
        r = "(_ %s %s %s)" % (h, r, x)
    return r


def partial(h, a):
    return "(_ %s %s)" % (h, a[0])


KINDS = {  # declaration, numbers of arguments, letter of the arguments, meaning, type for eo::as
    "plain": ("(declare-const o (-> T@ T@ T@))", (1, 2), "t", lambda h, a: partial(h, a) if len(a) == 1 else right(h, a), T3),
    "ra": ("(declare-const o (-> T@ T@ T@) :right-assoc)", (1, 2, 3), "t", lambda h, a: partial(h, a) if len(a) == 1 else right(h, a), T3),
    "la": ("(declare-const o (-> T@ T@ T@) :left-assoc)", (1, 2, 3), "t", lambda h, a: partial(h, a) if len(a) == 1 else left(h, a), T3),
    "rn": ("(declare-const o (-> T@ T@ T@) :right-assoc-nil z@)", (1, 2, 3), "t", lambda h, a: right(h, a, "z@"), T3),
    "ln": ("(declare-const o (-> T@ T@ T@) :left-assoc-nil z@)", (1, 2, 3), "t", lambda h, a: left(h, a, "z@"), T3),
    "rs": ("(declare-const o (-> T@ T@ T@) :right-assoc-non-singleton-nil z@)", (1, 2, 3), "t", lambda h, a: a[0] if len(a) == 1 else right(h, a, "z@"), T3),
    "pr": (P3 % "right-assoc", (1, 2, 3), "b", lambda h, a: right(h, a, "(n@ 3)"), B3),
    "pl": (P3 % "left-assoc", (1, 2, 3), "b", lambda h, a: left(h, a, "(n@ 3)"), B3),
    "ps": (P3 % "right-assoc-non-singleton", (1, 2, 3), "b", lambda h, a: a[0] if len(a) == 1 else right(h, a, "(n@ 3)"), B3),
    "ch": ("(declare-const o (-> T@ T@ Bool) :chainable all)", (2, 3), "t",
           lambda h, a: right("all", ["(_ %s %s %s)" % (h, x, y) for x, y in zip(a, a[1:])], "true") if len(a) > 2 else right(h, a), "(-> T@ T@ Bool)"),
    "pw": ("(declare-parameterized-const o ((m Int :implicit)) (-> (B@ m) (B@ m) Bool) :pairwise all)", (2, 3), "b",
           lambda h, a: right("all", ["(_ %s %s %s)" % (h, x, y) for x, y in itertools.combinations(a, 2)], "true") if len(a) > 2 else right(h, a), "(-> (B@ 3) (B@ 3) Bool)"),
    "al": ("(declare-const o (-> L@ Bool) :arg-list c@)", (1, 2, 3), "t", lambda h, a: "(_ %s %s)" % (h, right("c@", a, "e@")), None),
    "im": ("(declare-parameterized-const o ((m Int :implicit)) (-> (B@ m) (B@ m)))", (1,), "b", partial, "(-> (B@ 3) (B@ 3))"),
}
ol = []
for n in (1, 2, 3) if TH else (1, 2):
    for ks in itertools.product(KINDS, repeat=n):
        at = lambda t, i: t.replace("@", str(i + 1))
        decl = "".join("%s(define h%d () o)" % (at(KINDS[k][0], i), i) for i, k in enumerate(ks))
        o = ["(push)", decl]
        u = 0
        for i, k in enumerate(ks):
            _, ns, l, f, ty = KINDS[k]
            for m in ns:
                # one argument: eliminated, or vacuous, whatever its type
                if m == 1 and {"rs", "ps", "ch", "pw"} & set(ks[:i] + ks[i + 1:]):
                    continue
                for a in ([["%s%d%s" % (l, i + 1, x) for x in p] for p in (("x", "y", "z")[:m], ("y",) * m)]):
                    c.tr()
                    c.st((ks, i, m, tuple(a)))
                    e = at(f("h%d" % i, a), i)
                    o.append("(declare-const u%d (eo::requires (o %s) %s Bool))" % (u, " ".join(a), e))
                    o.append("(define m%d ((y%d %s)) (o %s))(declare-const w%d (eo::requires (m%d %s) %s Bool))" % (
                        u, u, at("T@" if l == "t" else "(B@ 3)", i), " ".join(a[:-1] + ["y%d" % u]), u, u, a[-1], e))
                    u += 1
            if ty and not (k == "im" and {"rs", "ps", "ch", "pw"} & set(ks)):
                o.append("(declare-const g%d (eo::requires (eo::as o %s) h%d Bool))" % (i, at(ty, i), i))
            # arguments of other types
            for j in range(n + 1):
                for l2 in "tb":
                    x = "%s%d%s" % (l2, j + 1, "x")
                    if (j != i or l2 != l) and m > 1:
                        for y in ("%s %s" % (a[0], x), "%s %s" % (x, a[0])):
                            c.tr()
                            o.append("(declare-const u%d (eo::requires (eo::is_ok (eo::typeof (o %s))) false Bool))" % (u, y))
                            u += 1
        o.append("(pop)")
        ol.append(("overloads " + " ".join(ks), "\n".join(o)))
c.sample(ol[-1][1][:600])
c.part("overloads of annotated operators", 0, len(ol))
c.bounds.append("all sequences of <= %d declarations of one name out of %d kinds (plain, associative with constant and inferred terminators, chainable, pairwise, argument list)" % (3 if TH else 2, len(KINDS)))
c.bounds.append("histories: all sequences of length <= %s over %s commands" % (DEPTH, {k: len(hist_alphabet(k)) for k in DEPTH}))
if __name__ == "__main__":
    print(len(lines), len(neg), len(tl))
    c.positive(PRE, lines, chunk=60)
    c.positive(PRE_T, tl, chunk=300)
    c.positive(PRE_O, ol, chunk=20)
    c.run(neg)
    scale.run(c)
    c.finish()
