"""P03: reference validation. State: (reference with its asserted set and
normalizer or none, files included, depth of local scopes). All histories of
include / reference / assume / assume-push / step / step-pop commands up to a
depth, crossed with the ways to give the reference and the input; each history
is replayed, accepted iff the model accepts every command."""
import itertools
from mc import engine
from mc import scale
from mc.terms import C, txt, T as E

c = engine.Check("P03")
TH = c.thorough
SIG = """(declare-const p Bool)
(declare-const q Bool)
(declare-const not (-> Bool Bool))
(declare-parameterized-const = ((A Type :implicit)) (-> A A Bool))
(declare-const @List Type)
(declare-const @nil @List)
(declare-parameterized-const @cons ((A Type :implicit)) (-> A @List @List) :right-assoc-nil @nil)
(declare-const lambda (-> @List Bool (-> Bool Bool Bool)) :binder @cons)
(declare-rule dup ((F Bool)) :premises (F) :conclusion (not F))
(declare-rule intro0 ((F Bool)) :assumption F :conclusion F)
(program $norm ((x Bool)) :signature (Bool) Bool ((($norm (not (not x))) x) (($norm x) x)))
(program $swap ((x Bool)) :signature (Bool) Bool ((($swap p) q) (($swap q) p) (($swap x) x)))
(program $strip ((x Bool)) :signature (Bool) Bool ((($strip (not x)) x)))
(program $only ((x Bool)) :signature (Bool) Bool ((($only p) q)))
"""
NN = lambda x: ("@", "not", x)
DE = "(= e (lambda ((x Bool) (y Bool)) (not x)))"
REFS = {  # file: (text, asserted formulas)
    "r0.smt2": ("(set-logic ALL)\n(check-sat)\n", []),
    "r1.smt2": ("(set-logic ALL)\n(assert p)\n(check-sat)\n(exit)\n", ["p"]),
    "r2.smt2": ("(set-info :status unsat)\n(assert (not q))\n(assert p)\n(check-sat)\n", [NN("q"), "p"]),
    "r3.smt2": ("(define-const dc Bool (not q))\n(define-fun d () Bool (not q))\n(define-fun e ((x Bool) (y Bool)) Bool (not x))\n(assert (e d p))\n(assert (not dc))\n(assert (let ((p q)) (not p)))\n(check-sat)\n(get-model)\n(exit)\n"
                .replace("(get-model)\n", ""), ["(= d (not q))", DE, "(e d p)", NN(NN("q")), NN("q")]),
    "r4.smt2": ("(assert p)\n(exit)\n(assert q)\n", ["p"]),
    "r5.smt2": ("(assert (not (not (not q))))\n(assert (not (not p)))", [NN(NN(NN("q"))), NN(NN("p"))]),
    "r6.smt2": ("; (assert q)\n(declare-fun s () Bool)\n(set-option :produce-proofs true)\n(assert |p|)\n(echo \"(assert q)\")\n(check-sat-assuming (q))\n", ["p"]),
}
EXTRA = {"e1.eo": "(declare-const z1 Bool)\n", "e2.eo": "(assume e2a q)\n(include \"e1.eo\")\n",
         "e3.eo": "(reference \"r1.smt2\")\n", "e4.eo": "(include \"e5.eo\")\n(declare-const z4 Bool)\n", "e5.eo": "(declare-const z5 Bool)\n"}
ALLF = dict({k: v[0] for k, v in REFS.items()}, **EXTRA)
ALLF["sig.eo"] = SIG


def norm(nm, f):
    if nm == "$norm" and isinstance(f, tuple) and isinstance(f[2], tuple):
        return f[2][2]
    if nm == "$swap":
        return {"p": "q", "q": "p"}.get(f, f) if isinstance(f, str) else f
    # partial normalizers: where they are stuck, the normal form is the stuck
    # application, which only equals itself
    if nm == "$strip":
        return f[2] if isinstance(f, tuple) and f[1] == "not" else ("stuck", f)
    if nm == "$only":
        return "q" if f == "p" else ("stuck", f)
    return f


class St:
    def __init__(self, ref=None, inc=frozenset(), sc=(), n=0):
        self.ref, self.inc, self.sc, self.n = ref, inc, sc, n

    def key(self):
        return (self.ref, self.inc, self.sc)

    def upd(self, **k):
        d = dict(ref=self.ref, inc=self.inc, sc=self.sc, n=self.n + 1)
        d.update(k)
        return St(**d)


def ok_assume(s, f):
    if f in D3 and "r3.smt2" not in s.inc:
        return False
    if s.ref is None:
        return True
    file, nm = s.ref
    return norm(nm, f) in [norm(nm, a) for a in REFS[file][1]]


def reference(s, file, nm):
    if s.sc or s.ref is not None or file in s.inc:
        return None
    return s.upd(ref=(file, nm), inc=s.inc | {file})


def include(s, file):
    """effect of including one of the extra files"""
    if s.sc:
        return None
    if file in s.inc:
        return s.upd()
    s = s.upd(inc=s.inc | {file})
    if file == "e2.eo":
        if not ok_assume(s, "q"):
            return None
        return s.upd(inc=s.inc | {"e1.eo"})
    if file == "e3.eo":
        return reference(s, "r1.smt2", None)
    if file == "e4.eo":
        return s.upd(inc=s.inc | {"e5.eo"})
    return s


FORM = ["p", "q", NN("q"), NN(NN("q"))]
D3 = ["(= d (not q))", DE, "(= d q)", "(= e (lambda ((y Bool) (x Bool)) (not y)))", "(= (not q) d)", "(e d p)", "(e p p)"]
MOREF = FORM + D3 + [NN("p"), NN(NN("p")), NN(NN(NN("q")))]


def moves(s, full):
    out = []
    n = s.n
    for f in (MOREF if full else ["p", NN("q")]):
        out.append(("(assume a%d %s)" % (n, txt(f)), s.upd() if ok_assume(s, f) else None))
    for f in (FORM if full else ["q"]):
        out.append(("(assume-push u%d %s)" % (n, txt(f)), s.upd(sc=s.sc + (f,))))
    if s.sc:
        out.append(("(step-pop k%d %s :rule intro0)" % (n, txt(s.sc[-1])), s.upd(sc=s.sc[:-1])))
    for e in (EXTRA if full else ["e1.eo", "e2.eo"]):
        out.append(('(include "%s")' % e, include(s, e)))
    for r in (REFS if full else ["r2.smt2", "r5.smt2"]):
        for nm in ((None, "$norm", "$swap", "$strip", "$only") if full or r == "r5.smt2" else (None,)):
            out.append(('(reference "%s"%s)' % (r, " " + nm if nm else ""), reference(s, r, nm)))
    return out


cases = []
done = set()
sink = {}


def add(hist, s, start, how):
    """s: resulting state or None when refused"""
    ok = s is not None and not s.sc
    head, argv = start
    text = head + "\n".join(hist) + "\n"
    key = "%s|%s| %s" % (how, " ".join(argv), " ".join(hist))
    kw = dict(files=ALLF)
    if how == "stdin":
        cs = engine.Case(key, None, None, stdin=text, argv=list(argv), **kw)
    else:
        cs = engine.Case(key, text, None, name=how, argv=list(argv) + [how], **kw)
    cs.expect = "correct" if ok else "reject"
    cases.append(cs)
    if len(cases) % 4003 == 5:
        c.sample("%s -> %s" % (key, cs.expect))


def search(depth, nfull, starts):
    for (head, argv, s0, hows) in starts:
        front = [((), s0)]
        for d in range(depth):
            nxt = []
            full = d >= depth - nfull
            for hist, s in front:
                for t, n in moves(s, full):
                    h = hist + (t,)
                    c.tr()
                    if n is not None:
                        c.st(n.key())
                        nxt.append((h, n))
                    if (head, argv, h) in done:
                        continue
                    if full or n is None:
                        done.add((head, argv, h))
                        if n is None or not n.sc:
                            for how in hows:
                                add(h, n, (head, argv), how)
                        elif d == depth - 1 or full:
                            # close all scopes, then try an unasserted assumption after it
                            tail = tuple("(step-pop w%d %s :rule intro0)" % (i, txt(f)) for i, f in enumerate(reversed(n.sc)))
                            for how in hows:
                                add(h + tail, n.upd(sc=()), (head, argv), how)
            front = nxt


inc = '(include "sig.eo")\n'
sigs = frozenset(["sig.eo"])
plain = (inc, (), St(inc=sigs), ["c.eo"])
opt = lambda *a: ("", ("--include=sig.eo",) + a)
starts = [plain]
search(3, 3, starts)
search(5 if TH else 4, 1, starts)
# the reference (and includes) given as options, in every order
sts = []
for r in REFS:
    s = reference(St(inc=sigs), r, None)
    sts.append(("", ("--include=sig.eo", "--reference=" + r), s, ["c.eo", "c.smt3", "stdin"]))
    for e in ("e1.eo", "e4.eo"):
        sts.append(("", ("--include=sig.eo", "--reference=" + r, "--include=" + e), include(s, e), ["c.smt3"]))
        sts.append(("", ("--include=sig.eo", "--include=" + e, "--reference=" + r), reference(include(St(inc=sigs), e), r, None), ["c.smt3"]))
for e in ("e1.eo", "e3.eo", "e4.eo"):
    sts.append(("", ("--include=sig.eo", "--include=" + e), include(St(inc=sigs), e), ["c.eo", "stdin"]))
# include of the signature inside the proof after the reference was given
sts.append(("", ("--include=sig.eo",), St(inc=sigs), ["c.eo", "c.smt3", "stdin"]))
search(2, 2, sts)
search(4 if TH else 3, 1, sts)
# options that must fail by themselves
for argv in (["--include=sig.eo", "--reference=r1.smt2", "--reference=r2.smt2"], ["--include=sig.eo", "--reference=r1.smt2", "--reference=r1.smt2"],
             ["--include=sig.eo", "--reference=none.smt2"], ["--include=sig.eo", "--include=e3.eo", "--reference=r2.smt2"],
             ["--include=sig.eo", "--reference=r2.smt2", "--include=e3.eo"], ["--include=sig.eo", "--include=e2.eo", "--reference=e2.eo"],
             ["--include=sig.eo", "--reference=r1.smt2", "--include=e2.eo"], ["--reference=r1.smt2", "--include=sig.eo"],
             ["--include=sig.eo", "--reference="], ["--include=sig.eo", "--reference=./r1.smt2", "--reference=r1.smt2"]):
    for how in ("c.eo", "stdin"):
        add((), None, ("", tuple(argv)), how)
# an assertion outside of a reference file; a proof command inside of one
for t, nm, ok in (("(assert p)", "c.eo", 0), ("(assert p)", "c.smt3", 0), ("(assert p)", "c.smt2", 0)):
    cases.append(engine.Case(t + nm, t + "\n", "reject", name=nm, files=ALLF, argv=["--include=sig.eo", nm]))
for t in ("(assume a q)", "(assume-push a q)", '(include "e1.eo")', '(reference "r1.smt2")', "(declare-rule z () :conclusion q)",
          "(step a :rule dup :premises ())", "(assert zz)", "(assert not)", "(assert (not", "(assert p q)", "(assert)"):
    cases.append(engine.Case("reference containing " + t, '(include "sig.eo")\n(reference "x.smt2")\n', "reject",
                             files=dict(ALLF, **{"x.smt2": "(assert p)\n" + t + "\n"})))
# every asserted formula against every assumed one, over symbols of every shape
SIG2 = """(declare-const U Type)
(declare-const p Bool)
(declare-const q Bool)
(declare-const a U)
(declare-const b U)
(declare-const not (-> Bool Bool))
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const xor (-> Bool Bool Bool) :left-assoc)
(declare-const => (-> Bool Bool Bool) :right-assoc)
(declare-parameterized-const = ((A Type :implicit)) (-> A A Bool))
(declare-const P (-> U Bool))
(declare-const R (-> U U Bool))
(declare-const ite (-> Bool Bool Bool Bool))
(program $id ((x Bool)) :signature (Bool) Bool ((($id x) x)))
"""
FU = ["p", "q", "true", "false", "(P a)", "(P b)"] + ["(not %s)" % x for x in ("p", "q", "true", "(P a)", "(not p)")]
for op in ("or", "xor", "=>", "="):
    FU += ["(%s %s %s)" % (op, x, y) for x in ("p", "q", "false", "(P a)") for y in ("p", "q", "false", "(P a)")]
    FU += ["(%s (%s p q) (%s p q))" % (op, op, op), "(%s (not p) (not p))" % op, "(not (%s p p))" % op, "(not (%s p q))" % op, "(%s (not p) p)" % op]
FU += ["(%s %s %s)" % (op, x, y) for op in ("=", "R") for x in "ab" for y in "ab"] + ["(= (= a a) (= a a))", "(= (= a b) (= a b))", "(or p q q)", "(or p p p)", "(xor p q q)", "(=> p q q)"]
FU += ["(ite %s %s %s)" % x for x in itertools.product("pq", repeat=3)]
FU = list(dict.fromkeys(FU))
fcs = []
for i, f in enumerate(FU):
    for nrm in ("", " $id"):
        fl = {"s.eo": SIG2, "r.smt2": "(assert %s)\n(check-sat)\n" % f, "t.smt2": "(assert %s)\n(assert %s)\n(check-sat)\n" % (f, FU[(i + 7) % len(FU)])}
        two = FU[(i + 7) % len(FU)]
        for g in FU:
            for rf, oks in (("r.smt2", (f,)), ("t.smt2", (f, two))):
                if (rf == "t.smt2" or nrm) and not TH and FU.index(g) % 3 != i % 3:
                    continue
                c.tr()
                c.st(("asserted", f, rf, nrm, g))
                fcs.append(engine.Case("asserted %s%s%s, assumed %s" % (f, " and " + two if rf != "r.smt2" else "", nrm, g),
                                       '(include "s.eo")\n(reference "%s"%s)\n(assume h %s)\n' % (rf, nrm, g), "correct" if g in oks else "reject", files=fl))
c.sample(fcs[77].key)
c.run(fcs)
c.part("asserted x assumed", len(FU) ** 2, len(fcs))
c.bounds.append("every pair of %d formulas (symbols of every annotation, equal and different sides) asserted and assumed" % len(FU))
c.bounds.append("all histories of length 3 over the full alphabet (28+ commands), of length %d with the last command from the full alphabet; %d option combinations x file/stdin" % (5 if TH else 4, len(sts)))
c.run(cases)
scale.run(c)
c.finish()
