"""P04: the verdict. State: (a step used an unproven rule, open scopes, ended).
All sequences of commands up to a depth, in every presentation; the output must
be exactly the one verdict line the model gives, or an error without one."""
import itertools
from mc import engine
from mc import scale

c = engine.Check("P04")
TH = c.thorough
SIG = """(declare-const p Bool)
(declare-const q Bool)
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const => (-> Bool Bool Bool))
(declare-rule good () :conclusion p)
(declare-rule sry () :conclusion p :sorry)
(declare-rule sry2 ((F Bool)) :premises (F) :conclusion F :sorry)
(declare-rule sryx ((F Bool)) :conclusion-explicit F :sorry)
(declare-rule sryl ((F Bool)) :premise-list F and :conclusion F :sorry)
(declare-rule srya ((F Bool)) :args (F) :conclusion F :sorry)
(declare-rule pops ((A Bool) (F Bool)) :assumption A :premises (F) :conclusion (=> A F) :sorry)
(declare-rule pop ((A Bool) (F Bool)) :assumption A :premises (F) :conclusion (=> A F))
(declare-rule goodx ((F Bool)) :conclusion-explicit F)
(declare-rule gooda ((F Bool)) :args (F) :requires ((F p)) :conclusion F)
(assume h p)
"""
FILES = {"sig.eo": SIG, "isry.eo": "(step is p :rule sry)\n", "igood.eo": "(step ig p :rule good)\n",
         "ibad.eo": "(step ib q :rule good)\n", "iexit.eo": "(exit)\n(step ie p :rule sry)\n",
         "isry2.smt3": "(step is2 q :rule srya :args (q))\n(echo \"in\")\n",
         "inest.eo": "(include \"isry.eo\")\n"}

# (text, effect): effect is a function of the state
class S:
    __slots__ = ("sorry", "scopes", "done", "out", "ended", "inc", "reset")

    def __init__(self):
        self.sorry, self.scopes, self.done, self.out, self.ended, self.inc, self.reset = False, 0, (), (), False, frozenset(), False

    def copy(self):
        s = S()
        for k in S.__slots__:
            setattr(s, k, getattr(self, k))
        return s

    def key(self):
        return (self.sorry, self.scopes, self.out, self.ended, self.inc, self.reset)


def step(sorry, good=True):
    def f(s):
        if not good:
            return False
        s.sorry = s.sorry or sorry
        return True
    return f


def push(s):
    s.scopes += 1
    return True


def pop(sorry):
    def f(s):
        if not s.scopes:
            return False
        s.scopes -= 1
        s.sorry = s.sorry or sorry
        return True
    return f


def inc(name):
    def f(s):
        if s.scopes:
            return False
        if name in s.inc:
            return True
        s.inc = s.inc | {name}
        if name == "ibad.eo":
            return False
        if name == "isry.eo":
            s.sorry = True
        if name == "inest.eo" and "isry.eo" not in s.inc:
            s.inc = s.inc | {"isry.eo"}
            s.sorry = True
        if name == "isry2.smt3":
            s.sorry = True
            s.out += ("in",)
        return True
    return f


def echo(t):
    def f(s):
        s.out += (t,)
        return True
    return f


def ext(s):
    s.ended = True
    return True


ALPHA = [
    ("(step s%d p :rule good)", step(False)), ("(step s%d p :rule sry)", step(True)), ("(step s%d :rule sry)", step(True)),
    ("(step s%d p :rule sry2 :premises (h))", step(True)), ("(step s%d q :rule sryx)", step(True)),
    ("(step s%d (and p p) :rule sryl :premises (h h))", step(True)), ("(step s%d q :rule srya :args (q))", step(True)),
    ("(step s%d q :rule sry)", step(True, False)), ("(step s%d q :rule good)", step(False, False)),
    ("(step s%d p :rule gooda :args (q))", step(False, False)), ("(step s%d p :rule gooda :args (p))", step(False)),
    ("(step s%d q :rule goodx)", step(False)), ("(step s%d p :rule sry2 :premises (none))", step(True, False)),
    ("(step s%d p :rule sry :bogus", step(True, False)),
    ("(assume-push u%d q)", push), ("(step-pop v%d (=> q p) :rule pop :premises (h))", pop(False)),
    ("(step-pop v%d (=> q p) :rule pops :premises (h))", pop(True)), ("(step-pop v%d (=> q q) :rule pops :premises (h))", step(True, False)),
    ('(include "isry.eo")', inc("isry.eo")), ('(include "igood.eo")', inc("igood.eo")), ('(include "ibad.eo")', inc("ibad.eo")),
    ('(include "iexit.eo")', inc("iexit.eo")), ('(include "isry2.smt3")', inc("isry2.smt3")), ('(include "inest.eo")', inc("inest.eo")),
    ('(echo "correct")', echo("correct")), ('(echo "incomplete")', echo("incomplete")), ("(echo)", echo("")),
    ("(assume a%d q)", step(False)), ("(declare-rule r%d () :conclusion p :sorry)", lambda s: s.scopes == 0),
    ("(exit)", ext), ("(bogus)", step(False, False)), ("(declare-const k%d Bool)", step(False)),
]
CORE = [0, 1, 3, 7, 14, 15, 16, 18, 28, 29]


def expectation(s):
    if s is None or (s.scopes and True):
        def bad(v, o):
            if v != "reject":
                return "expected an error and no verdict, got " + v
            if s is not None:
                return None
            return None
        return bad
    want = "".join(l + "\n" for l in s.out) + ("incomplete" if s.sorry else "correct") + "\n"

    def good(v, o):
        if o != want:
            return "expected output %r and status 0, got %s with %r" % (want, v, o[-200:])
        return None if v in ("correct", "incomplete") else "status is not 0: " + v
    return good


def nolines(s_out):
    """after an error no verdict may be printed other than the echoed lines"""
    def bad(v, o):
        if v != "reject":
            return "expected an error and no verdict, got " + v
        lines = [l for l in o.split("\n") if l in ("correct", "incomplete")]
        if lines != [l for l in s_out if l in ("correct", "incomplete")]:
            return "a verdict was printed besides the error"
        return None
    return bad


PRES = ["eo", "smt3", "stdin", "opt"]
cases = []


def add(hist, s, out, ways):
    text = "\n".join(hist) + "\n"
    exp = nolines(out) if s is None or s.scopes else expectation(s)
    for w in ways:
        key = w + "| " + " ".join(hist)
        if w == "stdin":
            cases.append(engine.Case(key, None, exp, files=FILES, argv=["--include=sig.eo"], stdin=text))
        elif w == "opt":
            cases.append(engine.Case(key, "", exp, files=dict(FILES, **{"x.eo": text}), argv=["--include=sig.eo", "--include=x.eo", "c.eo"]))
        elif w == "two":
            h = len(hist) // 2
            if s is None or s.ended or any("push" in t or "step-pop" in t for t in hist):
                continue
            cases.append(engine.Case(key, "\n".join(hist[h:]) + "\n", exp, files=dict(FILES, **{"x.eo": "\n".join(hist[:h]) + "\n"}),
                                     argv=["--include=sig.eo", "--include=x.eo", "c.eo"]))
        elif w == "norule":
            cases.append(engine.Case(key, '(include "sig.eo")\n' + text, exp, files=FILES, argv=["--no-rule-sym-table", "c.eo"]))
        else:
            cases.append(engine.Case(key, '(include "sig.eo")\n' + text, exp, name="c." + w, files=FILES, argv=["c." + w]))
    if len(cases) % 2003 < 3:
        c.sample("%s -> %s" % (" ".join(hist), "error" if s is None or s.scopes else "incomplete" if s.sorry else "correct"))


def search(alpha, depth, ways):
    front = [((), S())]
    add((), S(), (), ways)
    for d in range(depth):
        nxt = []
        for hist, s in front:
            for i in alpha:
                t, f = ALPHA[i]
                if "%d" in t:
                    t = t % len(hist)
                h = hist + (t,)
                n = s.copy()
                c.tr()
                if s.ended:
                    ok = True
                else:
                    ok = f(n)
                if "declare-rule" in t and ok and not s.ended:
                    # the new rule is used directly, or never
                    h2 = h + ("(step w%d p :rule r%d)" % (len(hist), len(hist)),)
                    m = n.copy()
                    m.sorry = True
                    add(h2, m, m.out, ways)
                c.st(n.key() + (ok,))
                add(h, n if ok else None, n.out, ways)
                if ok and not (s.ended and n.ended and d + 1 < depth and s is not n and t == "(exit)"):
                    nxt.append((h, n))
        front = nxt


search(range(len(ALPHA)), 2, PRES + ["two", "norule"])
search(range(len(ALPHA)), 3, ["eo", "stdin"] if TH else ["eo"])
search(CORE, 5 if TH else 4, ["smt3"])
c.bounds.append("all command sequences of length <= %d over %d commands (<= 2 in all six presentations), <= %d over %d core commands"
                % (3, len(ALPHA), 5 if TH else 4, len(CORE)))
# redefinition of the same rule name by files and scopes, statistics on: verdict line first
for opts in (["--stats"], ["--stats-all"], ["--stats-compact"], ["--stats", "--stats-all", "--stats-compact"]):
    for i in (0, 1, 3, 7, 16):
        t = ALPHA[i][0] % 0 if "%d" in ALPHA[i][0] else ALPHA[i][0]
        if i == 16:
            t = "(assume-push u0 q)\n" + t
        want = None if i == 7 else "incomplete" if i in (1, 3, 16) else "correct"

        def exp(v, o, want=want):
            ls = [l for l in o.split("\n") if l in ("correct", "incomplete")]
            if want is None:
                return None if v == "reject" and not ls else "expected an error, got %s" % v
            return None if ls == [want] and v == want else "expected %s, got %s %s" % (want, v, ls)
        for pre in ("", "(step s9 p :rule good)\n", "(set-option :stats true)\n"):
            cases.append(engine.Case("%s %s%s" % (opts, pre, t), '(include "sig.eo")\n' + pre + t + "\n", exp, files=FILES, argv=opts + ["c.eo"]))
            cases.append(engine.Case("%s %s%s stdin" % (opts, pre, t), None, exp, files=FILES, argv=opts, stdin='(include "sig.eo")\n' + pre + t + "\n"))
c.run(cases)

# reset: the fact that an unproven rule was used is not forgotten
rs = []
R = ["(declare-rule r () :conclusion true :sorry)", "(declare-rule r () :conclusion true)"]
for opts in ([], ["--no-rule-sym-table"]):
    for n in (1, 2, 3):
        import itertools
        for seq in itertools.product(range(4), repeat=n):
            lines, sorry = [], False
            for k, x in enumerate(seq):
                lines.append(R[x & 1])
                if x & 2:
                    lines.append("(step s%d :rule r)" % k)
                    sorry = sorry or not x & 1
                lines.append("(reset)")
            c.st(("reset", seq))
            c.tr(len(lines))
            rs.append(engine.Case("reset %s %s" % (opts, seq), "\n".join(lines) + "\n", "incomplete" if sorry else "correct", argv=opts + ["c.eo"]))
c.run(rs)
# the attributes of a rule: all sequences, :sorry among them or not, before and
# after unknown attributes with and without a value
ATT = [":sorry", ":note", ":note v", ":note (v 1 \"x\")", ":note \"s\"", ":note 3", ":trusted", ":note (:sorry)", ":note |:sorry|", ":note \":sorry\""]
at = []
for n in (0, 1, 2, 3):
    for seq in itertools.product(ATT, repeat=n):
        # a value that is a quoted symbol or a list does not make the rule unproven
        want = "incomplete" if ":sorry" in seq else "correct"
        t = "(declare-rule r ((F Bool)) :args (F) :conclusion F %s)\n(step s true :rule r :args (true))\n" % " ".join(seq)
        c.st(("attributes", seq))
        c.tr(n)

        def exp(v, o, want=want):
            o = [l for l in o.split("\n") if l in ("correct", "incomplete")]
            return None if v == want and o == [want] else "expected %s, got %s" % (want, v)
        at.append(engine.Case("attributes %s" % (seq,), t, exp))
c.run(at)
c.bounds.append("all sequences of <= 3 rule attributes out of %d, with and without values" % len(ATT))
scale.run(c)
c.finish()
