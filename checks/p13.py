"""P13: syntactic identity is stable over any history. The model of a history
is the list of the terms and observations that are in force; in every state
each term equals itself, differs from the others, and what was observed of it
(hash, order, type, evaluation) is still observed. All histories of creating,
holding, observing, discarding and reconstructing terms within the bounds are
run, with library assertions and under memory error detection."""
import itertools
from mc import engine
from mc.engine import Case
from mc import scale

c = engine.Check("P13")
TH = c.thorough
last = [0, 0, 0]


def part(name):
    c.part(name, 0, 0)
    n = len(c.seen)
    c.parts[name] = dict(states=n - last[0], transitions=c.transitions - last[1], traces=c.traces - last[2])
    last[:] = [n, c.transitions, c.traces]


PRE = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const String Type)
(declare-consts <string> String)
(declare-const U Type)
(declare-const Lst (-> Type Type))
(declare-const a U)
(declare-const b U)
(declare-const p Bool)
(declare-const f (-> U U))
(declare-const g (-> U U U))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-parameterized-const P ((T Type :implicit)) (-> T Bool))
(declare-parameterized-const dep ((n Int :opaque)) (-> U Int))
(declare-const all (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-rule sc ((F Bool)) :assumption F :conclusion true)
(declare-rule same ((F Bool)) :premises (F) :args (F) :conclusion true)
(program $id ((T1 Type) (x1 T1)) :signature (T1) T1 ((($id x1) x1)))
(program $dup ((x2 U)) :signature (U) U ((($dup x2) (g (f x2) (f x2)))))
(program $walk ((x3 U) (y3 U)) :signature (U) U ((($walk (f x3)) ($walk x3)) (($walk (g x3 y3)) (g ($walk y3) ($walk x3))) (($walk x3) x3)))
(define $mac ((x4 U)) (g (f x4) (f x4)))
"""
PRE2 = PRE.replace("(declare-consts <numeral> Int)", "(declare-const Nat Type)\n(declare-consts <numeral> Nat)").replace("(n Int :opaque)", "(n Nat :opaque)")
# text, other ways of writing it, type, result of $walk (terms of type U only)
TERMS = [("(f a)", ["(f ($id a))", "($id (f a))"], "U", "a"),
         ("(g (f a) (f a))", ["($dup a)", "($mac a)", "(_ (_ g (f a)) (f a))"], "U", "(g a a)"),
         ("(g (f a) a)", ["(_ g (f a) a)"], "U", "(g a a)"),
         ("(_ g (f a))", ["($id (_ g (f a)))"], "(-> U U)", None),
         ("(or p (P a))", ["(_ or p (_ (_ or (P a)) false))", "(eo::list_concat or (_ or p false) (_ or (P a) false))", "(eo::cons or p (_ or (P a) false))"], "Bool", None),
         ("(all ((x U)) (P x))", ["(all (eo::List::cons (eo::var \"x\" U)) (P (eo::var \"x\" U)))"], "Bool", None),
         ("(Lst U)", ["($id (Lst U))", "(eo::ite true (Lst U) U)"], "Type", None),
         ("(-> U (Lst U))", ["($id (-> U (Lst U)))"], "Type", None),
         ("77", ["(eo::add 70 7)", "(eo::len \"%s\")" % ("c" * 77)], "Int", None),
         ("\"st\"", ["(eo::concat \"s\" \"t\")"], "String", None),
         ("(f (f a))", ["(f (f ($walk (f a))))"], "U", "a"),
         ("(dep 3 a)", ["($id (dep (eo::add 1 2) a))"], "Int", None),
         ("(or p)", ["(_ or p false)", "(eo::cons or p false)"], "Bool", None)]
FORM = lambda i: TERMS[i][0] if TERMS[i][2] == "Bool" else "(P %s)" % TERMS[i][0]


def OK(n, l, r):
    return "(declare-const @r%s (eo::requires %s %s Bool))" % (n, l, r)


class Hist:
    """the model state and the text that produces it"""

    def __init__(self, sel):
        self.sel, self.out, self.n, self.ok = sel, [], 0, True
        self.num = "Int"      # the type of numerals
        self.scopes = []      # ('push'|'asm', number of held, number of observations)
        self.held, self.obs, self.hyps = [], [], []

    def emit(self, s):
        self.out.append(s)
        self.n += 1

    def do(self, op):
        k, i = op
        n = self.n
        if k == "H":
            self.emit("(define h%d () %s)" % (n, TERMS[i][0]))
            self.held.append((i, "h%d" % n))
        elif k == "W":
            alt = TERMS[i][1]
            self.emit("(define h%d () %s)" % (n, alt[n % len(alt)]))
            self.held.append((i, "h%d" % n))
        elif k == "T":
            self.emit(OK(n, "(eo::is_eq %s %s)" % (TERMS[i][1][0], TERMS[i][0]), "true"))
        elif k == "S":
            self.emit("(define s%d () (eo::hash %s))" % (n, TERMS[i][0]))
            self.obs.append((i, "s%d" % n))
        elif k == "A":
            # a local assumption must be at the level of the scopes
            if "push" in [s[0] for s in self.scopes]:
                self.ok = False
                return
            self.scopes.append(("asm", len(self.held), len(self.obs), len(self.hyps)))
            self.emit("(assume-push @a%d %s)" % (n, FORM(i)))
            self.hyps.append((i, "@a%d" % n))
        elif k == "push":
            self.scopes.append(("push", len(self.held), len(self.obs), len(self.hyps)))
            self.emit("(push)")
        elif k == "pop":
            if not self.scopes:
                self.ok = False
                return
            x, nh, no, ny = self.scopes.pop()
            self.emit("(pop)" if x == "push" else "(step-pop @z%d :rule sc)" % n)
            del self.held[nh:], self.obs[no:], self.hyps[ny:]
        elif k == "reset":
            if self.scopes:
                self.ok = False
                return
            self.emit("(reset)")
            self.out.append(PRE2 if i else PRE)
            self.num = "Nat" if i else "Int"
            self.held, self.obs, self.hyps = [], [], []

    def observe(self):
        """everything that must hold in this state"""
        r, q = [], 0

        def add(l, v):
            nonlocal q
            r.append(OK("o%d" % q, l, v))
            q += 1
        for i, h in self.held:
            add("(eo::is_eq %s %s)" % (h, TERMS[i][0]), "true")
            add("(eo::is_eq (eo::hash %s) (eo::hash %s))" % (h, TERMS[i][1][-1]), "true")
            add("(eo::typeof %s)" % h, self.num if i == 8 else TERMS[i][2])
            for j in self.sel:
                if j != i:
                    add("(eo::is_eq %s %s)" % (h, TERMS[j][0]), "false")
        for i, s in self.obs:
            add("(eo::is_eq %s (eo::hash %s))" % (s, TERMS[i][0]), "true")
            for j in self.sel:
                if j != i:
                    add("(eo::is_eq %s (eo::hash %s))" % (s, TERMS[j][0]), "false")
                    add("(eo::is_eq (eo::cmp %s %s) (eo::is_neg (eo::add (eo::neg %s) (eo::hash %s))))" % (TERMS[i][0], TERMS[j][0], s, TERMS[j][0]), "true")
        for i, y in self.hyps:
            r.append("(step @y%d :rule same :premises (%s) :args (%s))" % (q, y, FORM(i)))
            q += 1
        for j in self.sel:
            add(TERMS[j][0], TERMS[j][1][0])
            add("(eo::typeof %s)" % TERMS[j][0], self.num if j == 8 else TERMS[j][2])
            if TERMS[j][3]:
                add("($walk %s)" % TERMS[j][0], TERMS[j][3])
        for x, y in zip(self.sel, self.sel[1:]):
            add("(eo::is_eq %s %s)" % (TERMS[x][0], TERMS[y][0]), "false")
            add("(eo::is_eq (eo::cmp %s %s) (eo::not (eo::cmp %s %s)))" % (TERMS[x][0], TERMS[y][0], TERMS[y][0], TERMS[x][0]), "true")
        return r


def histories(sel, depth, kinds="HWTSA"):
    ops = [(k, i) for k in kinds for i in sel] + [("push", 0), ("pop", 0), ("reset", 0), ("reset", 1)]
    for d in range(depth + 1):
        for seq in itertools.product(ops, repeat=d):
            h = Hist(sel)
            for o in seq:
                h.do(o)
                if not h.ok:
                    break
            if h.ok:
                yield seq, h


def family(name, sels, depth, kinds, build=("rel",), each=False):
    cs, nt = [], 0
    for sel in sels:
        for seq, h in histories(sel, depth, kinds):
            t = h.out
            close = []
            while h.scopes:
                h2 = h.observe()
                close += [x.replace("@r", "@r%d" % len(h.scopes)).replace("@y", "@y%d" % len(h.scopes)) for x in h2]
                h.out = []
                h.do(("pop", 0))
                close += h.out
            close += [x.replace("@r", "@r_").replace("@y", "@y_") for x in h.observe()]
            txt = PRE + "\n".join(t) + "\n" + "\n".join(close) + "\n"
            c.st((tuple(sel), seq))
            nt += len(t) + len(close)
            cs.append(Case("%s/%s" % (name, " ".join(k + (str(i) if k in "HWTSA" else "2" * i) for k, i in seq)), txt, "correct"))
    c.tr(nt)
    c.sample(cs[len(cs) // 2].files)
    for b in build:
        c.run(cs, b)
    part(name)


ALL = list(range(len(TERMS)))
family("histories, all terms", [ALL], 3 if TH else 2, "HTSA", ("dbg",))
family("histories, all terms, memory checked", [ALL], 2, "HTS" if not TH else "HWTSA", ("asan",))
PAIRS = [list(x) for x in itertools.combinations(ALL, 2)]
family("histories of two terms", PAIRS if TH else PAIRS[::3], 4 if TH else 3, "HTS", ("dbg",))
SETS = [[0, 1, 2], [0, 1, 10], [4, 12, 5], [6, 7, 3], [8, 9, 11], [1, 2, 3]]
family("histories of three terms", SETS, 4 if TH else 3, "HTSA" if TH else "HTS", ("dbg",))
family("histories of three terms, memory checked", SETS if TH else SETS[:3], 3, "HWTSA" if TH else "HTS", ("asan",))

# ------------------------------ many terms created and discarded in between
cs = []
SHAPES = ["(P (dep %d a))", "(P %d)", "(P \"s%d\")", "(all ((v%d U)) (P v%d))", "(or (P %d) (P (dep %d a)) p)", "(P (eo::var \"v%d\" (Lst U)))"]


def sh(s, k):
    return s.replace("%d", str(k))


for s in SHAPES:
    for n in (1, 2, 3, 10, 100, 1000) + ((10000,) if TH else ()):
        for i in ALL if n <= 10 else ALL[::3]:
            for hold in (False, True):
                out = ["(define s () (eo::hash %s))" % TERMS[i][0]]
                if hold:
                    out.append("(define h () %s)" % TERMS[i][0])
                out.append("(define w () (eo::hash %s))" % sh(s, 0))
                # create and discard: transient, scoped, assumed
                for k in range(n):
                    w = k % 4
                    if w == 0:
                        out.append(OK("t%d" % k, "(eo::is_eq %s %s)" % (sh(s, k), sh(s, k)), "true"))
                    elif w == 1:
                        out.append("(push)\n(define d () %s)\n%s\n(pop)" % (sh(s, k), OK("d%d" % k, "(eo::is_eq d %s)" % TERMS[i][0], "false")))
                    elif w == 2:
                        out.append("(assume-push @h%d %s)\n(step @s%d :rule same :premises (@h%d) :args (%s))\n(step-pop @p%d :rule sc)" % (k, sh(s, k), k, k, sh(s, k), k))
                    else:
                        out.append("(define q%d () (eo::is_eq s (eo::hash %s)))\n%s" % (k, sh(s, k), OK("q%d" % k, "q%d" % k, "false")))
                out.append(OK("a", "(eo::is_eq s (eo::hash %s))" % TERMS[i][0], "true"))
                out.append(OK("b", "(eo::is_eq w (eo::hash %s))" % sh(s, 0), "true"))
                out.append(OK("c", "(eo::is_eq s w)", "false"))
                out.append(OK("e", "(eo::typeof %s)" % TERMS[i][1][0], TERMS[i][2]))
                if hold:
                    out.append(OK("f", "(eo::is_eq h %s)" % TERMS[i][1][0], "true"))
                c.st((s, n, i, hold))
                c.tr(n + 5)
                cs.append(Case("many/%s/%d/%s/%s" % (s, n, TERMS[i][0], hold), PRE + "\n".join(out) + "\n", "correct"))
c.run(cs, "dbg")
c.run([k for k in cs if any("/%d/" % n in k.key for n in (1, 2, 3, 10, 100))], "asan")
part("many discarded terms")

# --------- observations of n different terms, all distinct, in every order of
# creation and discarding of three of them
cs = []
for perm in itertools.permutations(range(5)) if TH else itertools.permutations(range(4)):
    for base in range(0, len(TERMS) - len(perm) + 1, 1 if TH else 3):
        for m in range(1 << len(perm)):
            out, H, S = [], [], []
            for q, j in enumerate(perm):
                i = base + j
                if m >> q & 1:
                    out.append("(push)\n(define h () %s)\n(pop)" % TERMS[i][0])
                out.append("(define s%d () (eo::hash %s))" % (i, TERMS[i][1][0]))
                S.append(i)
            for x in S:
                out.append(OK("x%d" % x, "(eo::is_eq s%d (eo::hash %s))" % (x, TERMS[x][0]), "true"))
                for y in S:
                    out.append(OK("y%d_%d" % (x, y), "(eo::is_eq s%d s%d)" % (x, y), "true" if x == y else "false"))
            c.st((perm, base, m))
            c.tr(len(out))
            cs.append(Case("order/%s/%d/%d" % (perm, base, m), PRE + "\n".join(out) + "\n", "correct"))
c.run(cs, "dbg")
part("orders of observation")
# --------- literals of different kinds with the same value are different terms,
# in every order of creation, and literals of the same kind and value the same
SIG = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const Dec Type)
(declare-consts <decimal> Dec)
(declare-const Rat Type)
(declare-consts <rational> Rat)
(declare-const Hex Type)
(declare-consts <hexadecimal> Hex)
(declare-const Bin Type)
(declare-consts <binary> Bin)
(declare-const String Type)
(declare-consts <string> String)
(declare-parameterized-const P ((T Type :implicit)) (-> T Bool))
"""
GROUPS = []
for w in sorted(set(range(4, 133, 4)) | {252, 256, 260, 508, 512, 516}) if not TH else range(4, 1100, 4):
    for v in sorted({0, 1, 2 ** (w - 1), 2 ** w - 1, int("123456789abcdef" * (w // 60 + 1), 16) >> (w % 60) & (2 ** w - 1)}):
        h = "%0*x" % (w // 4, v)
        GROUPS.append([("Hex", "#x" + h), ("Bin", "#b" + bin(v)[2:].rjust(w, "0"))])
        if v < 2 ** 130:
            GROUPS[-1] += [("Int", str(v)), ("Rat", "%d/1" % v), ("Dec", "%d.0" % v), ("String", '"#x%s"' % h)]
for p, q, d in [(0, 1, "0.0"), (1, 1, "1.0"), (1, 2, "0.5"), (-1, 2, "-0.5"), (5, 1, "5.00"), (-5, 1, "-5.0"), (1, 8, "0.125"), (2 ** 64, 1, "%d.0" % 2 ** 64), (2 ** 64 + 1, 2, "%d.5" % 2 ** 63), (1, 1024, "0.0009765625")]:
    GROUPS.append([("Rat", "%d/%d" % (p, q)), ("Dec", d)] + [("Int", str(p))] * (q == 1) + [("String", '"%s"' % d), ("String", '"%d/%d"' % (p, q))])
cs = []
for g in GROUPS:
    for o in itertools.permutations(g, 2):
        out = ["(include \"s.eo\")"]
        (tx, x), (ty, y) = o
        seq = [("is_eq", "(eo::is_eq %s %s)" % (x, y), "false"), ("hash", "(eo::is_eq (eo::hash %s) (eo::hash %s))" % (x, y), "false"), ("typeof", "(eo::typeof %s)" % x, tx), ("typeof", "(eo::typeof %s)" % y, ty),
               ("same", "(eo::is_eq %s %s)" % (x, x), "true"), ("same", "(eo::is_eq (eo::hash %s) (eo::hash %s))" % (y, y), "true"),
               ("ite", "(eo::ite (eo::is_eq %s %s) 1 2)" % (y, x), "2"), ("applied", "(eo::is_eq (P %s) (P %s))" % (x, y), "false")]
        if tx == ty:
            seq = [s for s in seq if s[0] in ("is_eq", "hash", "same", "ite", "applied")]
        for i, (k, l, r) in enumerate(seq):
            out.append(OK(str(i), l, r))
        c.st(("kinds", o))
        c.tr(len(seq))
        cs.append(Case("literals of two kinds/%s/%s" % (x[:60], y[:60]), None, "correct", files={"s.eo": SIG, "p.eos": "\n".join(out) + "\n"}, argv=["--no-normalize-hex", "--no-normalize-dec", "p.eos"]))
c.run(cs)
part("literals of two kinds")
# ------ histories inside one evaluation: results made, kept, dropped, remade
PRE3 = PRE + """(declare-const h (-> U U))
(program $m1 ((x U)) :signature (U) U ((($m1 x) (g x (f x)))))
(program $m2 ((x U)) :signature (U) U ((($m2 (f x)) (h (g x x))) (($m2 x) (h (h x)))))
(program $m3 ((x U)) :signature (U) U ((($m3 (f x)) (f ($m3 x))) (($m3 x) (g ($m1 x) b))))
"""
F_, G_, H_ = (lambda x: ("f", x)), (lambda x, y: ("g", x, y)), (lambda x: ("h", x))


def m1(x):
    return G_(x, F_(x))


def m2(x):
    return H_(G_(x[1], x[1])) if x[0] == "f" else H_(H_(x))


def m3(x):
    return F_(m3(x[1])) if x[0] == "f" else G_(m1(x), "b")


MK = [("$m1", m1), ("$m2", m2), ("$m3", m3)]
# what is done with the result: kept; compared and dropped; dropped in a program
# called by a program; typed and dropped; used as the argument of another
USE = [("%s", lambda r, x: r), ("(eo::ite (eo::eq (%s) b) a x)", lambda r, x: x), ("($id (eo::ite (eo::eq ($id (%s)) b) a x))", lambda r, x: x),
       ("(eo::ite (eo::eq (eo::typeof (%s)) U) x b)", lambda r, x: x), ("(eo::ite (eo::eq (%s) (h x)) a (f (g x x)))", lambda r, x: F_(G_(x, x))),
       ("($m1 (%s))", lambda r, x: m1(r))]
EV, defs = [], []
for i, (m, fm) in enumerate(MK):
    for j, (u, fu) in enumerate(USE):
        defs.append("(program $e%d_%d ((x U)) :signature (U) U ((($e%d_%d x) %s)))" % (i, j, i, j, (u if "(%s)" in u else "(%s)") % (m + " x")))
        for x, tx in (("a", "z"), (("f", "a"), "(f z)")):
            EV.append(("($e%d_%d %s)" % (i, j, tx), fu(fm(x), x), j))
PRE3 += "\n".join(defs) + "\n"


def tx(t):
    return t if isinstance(t, str) else "(" + " ".join(map(tx, t)) + ")"


MAIN = [("(g %s (g %s %s))", lambda x, y, z: G_(x, G_(y, z))),
        ("(eo::ite (eo::eq %s h) a (eo::ite (eo::eq %s h) b %s))", lambda x, y, z: z),
        ("(eo::ite (eo::xor (eo::eq %s (f b)) (eo::eq %s h)) a %s)", lambda x, y, z: z),
        ("(g (eo::ite (eo::eq %s h) a b) (eo::ite (eo::eq %s h) a %s))", lambda x, y, z: G_("b", z))]
lines = []
sub = EV if TH else [e for e in EV if e[2] in (0, 1, 4)]
for seq in itertools.product(sub, repeat=3):
    for k, (mt, fm) in enumerate(MAIN):
        n = len(lines)
        lines.append(("in one evaluation/%d/%s" % (k, " ".join(e[0] for e in seq)), "(program $M%d ((z U)) :signature (U) U ((($M%d z) %s)))\n%s"
                      % (n, n, mt % tuple(e[0] for e in seq), OK("M%d" % n, "($M%d a)" % n, tx(fm(*[e[1] for e in seq]))))))
        c.st(lines[-1][0])
        c.tr(3)
c.sample(lines[len(lines) // 2][1])
bodies = {}
for i in range(0, len(lines), 150):
    bodies[lines[i][0]] = lines[i:i + 150]
# all of them under memory error detection, and one by one on the release build
c.run([Case("block of " + k, PRE3 + "\n".join(t for _, t in b) + "\n", "correct") for k, b in bodies.items()], "asan")
c.positive(PRE3, lines, chunk=20)
part("histories inside one evaluation")
c.bounds = ["all histories up to %d of hold, transient use, hash, local assumption on %d terms, push, pop and reset; up to %d on pairs and triples of terms" % (3 if TH else 2, len(TERMS), 4 if TH else 3), "up to %d terms of %d shapes created and discarded in between" % (10000 if TH else 1000, len(SHAPES)), "all orders of creating, discarding and observing %d terms" % (5 if TH else 4)]
c.assumptions = ["memory errors are those AddressSanitizer and UndefinedBehaviorSanitizer detect"]
scale.run(c)
c.finish()
