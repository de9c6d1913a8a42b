"""P25: what the statistics say. The model of a run is the sequence of its
accepted commands: every proof rule has been applied as often as there were
steps of it, in whatever file, scope or assumption level they stood, before and
after resets. All sequences of commands to a depth, with all ways to ask for
statistics, are run and the counts reported are compared."""
import itertools
import re
from mc import engine
from mc.engine import Case

c = engine.Check("P25")
TH = c.thorough
SIG = """(declare-const a Bool)
(declare-const b Bool)
(declare-const => (-> Bool Bool Bool))
(declare-rule r1 ((F Bool)) :args (F) :conclusion F)
(declare-rule r2 ((F Bool) (G Bool)) :premises (F) :args (G) :conclusion F)
(declare-rule r3 ((F Bool)) :premises (F) :requires (((eo::is_eq F F) true)) :conclusion F)
(declare-rule sc ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))
(declare-rule so ((F Bool)) :args (F) :conclusion F :sorry)
(declare-rule idle ((F Bool)) :args (F) :conclusion F)
"""
# a command: its text (%d is its number, %p the premise at hand), the rules it
# applies, change of the assumption level
CMDS = {
    "1": ("(step s%d :rule r1 :args (a))\n", ["r1"], 0),
    "1c": ("(step s%d a :rule r1 :args (a))\n", ["r1"], 0),
    "2": ("(step s%d :rule r2 :premises (%p) :args (b))\n", ["r2"], 0),
    "3": ("(step s%d :rule r3 :premises (%p))\n", ["r3"], 0),
    "s": ("(step s%d :rule so :args (b))\n", ["so"], 0),
    "(": ("(assume-push s%d b)\n", [], 1),
    ")": ("(step-pop s%d :rule sc :premises (%p))\n", ["sc"], -1),
    ")c": ("(step-pop s%d (=> b %f) :rule sc :premises (%p))\n", ["sc"], -1),
    "3c": ("(step s%d %f :rule r3 :premises (%p))\n", ["r3"], 0),
    "[": ("(push 1)\n", [], 0),
    "]": ("(pop 1)\n", [], 0),
    "R": ("(reset)\n", [], 0),
    "i": ('(include "i%d.eo")\n', ["r1", "r1", "r2"], 0),
    "x": ("(declare-const c (eo::requires (eo::eq a a) true Bool))\n", [], 0),
}
INC = "(step t :rule r1 :args (b))\n(step u :rule r1 :args (a))\n(step w :rule r2 :premises (t) :args (a))\n"


def counts(out, compact):
    """rule counts reported, or None when no statistics are printed"""
    m = re.search(r"^mkExprCount = (\d+)\nnewExprCount = (\d+)\ndeleteExprCount = (\d+)\nsymCount = (\d+)\nlitCount = (\d+)\ntime = \d+\n(.*)", out, re.M | re.S)
    if not m:
        return None
    r = {}
    if compact:
        x = re.search(r"^ruleCount = \{ (.*?) \}", m.group(6), re.M)
        ps = re.findall(r"([^ ,]+): (\d+)", x.group(1)) if x else []
    else:
        ps = re.findall(r"^ *(\S+): (\d+)(?: +\d+ \()", m.group(6), re.M)
    for k, n in ps:
        k = k.strip("|")
        r[k] = r.get(k, 0) + int(n)
    return r, [int(m.group(i)) for i in range(1, 6)]


def judge(want, verdict, shown, compact, progs=()):
    def f(v, out):
        if v != verdict:
            return "expected %s, got %s" % (verdict, v)
        r = counts(out, compact)
        if not shown:
            return "statistics are printed, which were not asked for" if r else None
        if r is None:
            return "no statistics are printed"
        r, (mk, new, dele, sym, lit) = r
        if r != want:
            return "the applications of rules are %s, reported: %s" % (sorted(want.items()), sorted(r.items()))
        if not (new <= mk and dele <= new and sym + lit <= new):
            return "the counts of terms are inconsistent: %s" % ((mk, new, dele, sym, lit),)
        for p, n in progs:
            x = re.search(r"\$%s: (\d+)" % re.escape(p), out)
            if (int(x.group(1)) if x else 0) < n or x and not n:
                return "the program $%s is called at least %d times, reported: %s" % (p, n, x and x.group(1))
        return None
    return f


def script(seq):
    """text, included files, expected counts, or None when it is not a run the
    model covers"""
    text, files, want, lvl, scopes, avail = SIG, {}, {}, 0, [], []
    for n, k in enumerate(seq):
        t, rules, d = CMDS[k]
        if "%p" in t and not avail or k[0] == ")" and (not lvl or scopes and scopes[-1] != "(") or k == "]" and (not scopes or scopes[-1] != "[") or k in "iR[" and (lvl or k != "[" and scopes):
            return None
        text += t.replace("%d", str(n)).replace("%p", avail[-1][0] if avail else "").replace("%f", avail[-1][2] if avail else "")
        if k == "i":
            files["i%d.eo" % n] = INC.replace("step t", "step t%d" % n).replace("step u", "step u%d" % n).replace("step w", "step w%d" % n).replace("(t)", "(t%d)" % n)
        for r in rules:
            want[r] = want.get(r, 0) + 1
        f = avail[-1][2] if avail else ""
        if k in "([":
            scopes.append(k)
        if k[0] in ")]":
            scopes.pop()
            avail = [x for x in avail if x[1] <= len(scopes)]
        if k[0] in "123s()":
            avail.append(("s%d" % n, len(scopes), "a" if k[0] == "1" else "b" if k in "s(" else "(=> b %s)" % f if k[0] == ")" else f))
        if k == "R":
            text, avail = text + SIG, []
        lvl += d
    return None if lvl or scopes else (text, files, want)


WAYS = [(["--stats"], "", True, False), (["--stats-all"], "", True, False), (["--stats-compact"], "", True, True), (["--stats", "--stats-compact"], "", True, True), (["--stats-all", "--stats-compact"], "", True, True),
        ([], "", False, False), (["--stats", "--no-stats"], "", False, False), ([], "(set-option :stats true)\n", True, False), (["--stats"], "(set-option :stats false)\n", False, False), ([], "(set-option :stats-compact true)\n", True, True)]
cases = []
for m in range(0, 7 if TH else 6):
    for seq in itertools.product(CMDS, repeat=m):
        x = script(seq)
        if x is None:
            continue
        c.st(seq)
        c.tr(m)
        text, files, want = x
        for wi, (opts, pre, shown, compact) in enumerate(WAYS):
            if m > 3 and wi not in (0, 2):
                continue
            cases.append(Case("seq/%s/%d" % ("".join(seq), wi), files={"m.eo": pre + text, **files}, name="m.eo", argv=opts + ["m.eo"],
                              expect=judge(want, "incomplete" if "so" in want else "correct", shown, compact)))
c.sample(repr(cases[-1].files)[-500:])
c.run(cases, outcap=6000)
c.part("sequences of commands", 0, 0)

# ---- every sequence of requests, on the command line and in the file
cases = []
REQ = [(n, v) for n in ("stats", "stats-all", "stats-compact") for v in (True, False)]
PROG = "(program $g ((x Bool)) :signature (Bool) Bool ((($g x) x)))\n(declare-rule rp ((F Bool)) :args (F) :requires ((($g F) F)) :conclusion F)\n"


def alljudge(want, verdict, shown, compact, all_):
    j = judge(want, verdict, shown, compact)

    def f(v, out):
        if all_ and shown and "$g: 2" not in out:
            return "the two calls of $g are not listed"
        if not (all_ and shown) and "$g: " in out:
            return "calls of programs are listed, which were not asked for"
        return j(v, out)
    return f


for m in range(0, 5 if TH else 4):
    for req in itertools.product(REQ, repeat=m):
        stats = all_ = compact = False
        for n, v in req:
            if n == "stats":
                stats = v
            else:
                stats = stats or v
                all_, compact = (v, compact) if n == "stats-all" else (all_, v)
        for cut in range(0, m + 1):
            opts = ["--%s%s" % ("" if v else "no-", n) for n, v in req[:cut]]
            t = "".join("(set-option :%s %s)\n" % (n, "true" if v else "false") for n, v in req[cut:]) + SIG + PROG + "(step s0 :rule r1 :args (a))\n(step s1 :rule rp :args (a))\n(step s2 :rule rp :args (b))\n(step s3 :rule so :args (b))\n"
            c.st((req, cut))
            c.tr(m)
            cases.append(Case("ask/%s/%d" % (" ".join(opts), cut), t, alljudge({"r1": 1, "rp": 2, "so": 1}, "incomplete", stats, compact, all_), name="m.eo", argv=opts + ["m.eo"]))
            # the last requests are made at the end of the file
            t = SIG + PROG + "(step s0 :rule r1 :args (a))\n(step s3 :rule so :args (b))\n" + "".join("(set-option :%s %s)\n" % (n, "true" if v else "false") for n, v in req[cut:])
            cases.append(Case("askend/%s/%d" % (" ".join(opts), cut), t, judge({"r1": 1, "so": 1}, "incomplete", stats, compact), name="m.eo", argv=opts + ["m.eo"]))
c.run(cases, outcap=6000)
c.part("requests of statistics", 0, 0)

# ---- many applications, many rules, and names of all kinds
cases = []
for n in list(range(0, 40)) + [99, 100, 101, 255, 256, 999, 1000, 1001, 9999, 10000] + ([99999, 100000] if TH else []):
    for opts, _, shown, compact in WAYS[:5]:
        t = SIG + "".join("(step s%d :rule %s :args (a))\n" % (i, "r1" if i % 3 else "idle") for i in range(n))
        want = {k: v for k, v in (("r1", n - (n + 2) // 3), ("idle", (n + 2) // 3)) if v}
        c.st(t)
        c.tr(n)
        cases.append(Case("many/%d/%s" % (n, " ".join(opts)), t, judge(want, "correct", shown, compact), name="m.eo", argv=opts + ["m.eo"]))
for n in range(0, 60):
    for opts, _, shown, compact in WAYS[:5]:
        t = "(declare-const a Bool)\n" + "".join("(declare-rule q%s ((F Bool)) :args (F) :conclusion F)\n" % ("x" * i) for i in range(n)) + "".join("(step s%d :rule q%s :args (a))\n" % (i, "x" * (i % n)) for i in range(2 * n - n // 2))
        want = {"q" + "x" * i: 2 if i < n - n // 2 else 1 for i in range(n)}
        c.st(t)
        c.tr(n)
        cases.append(Case("rules/%d/%s" % (n, " ".join(opts)), t, judge(want, "correct", shown, compact), name="m.eo", argv=opts + ["m.eo"]))
c.run(cases, outcap=60000)
c.part("numbers of rules and applications", 0, 0)

# names: every beginning of the names the checker uses itself, and quoted ones
cases = []
NAMES = ["eo", "eo_", "eo_x", "eo:", "eo:x", "e", "eoo::x", "Eo::x", "rule", "rules", "$r", "$eo_prog", "@r", "r.1", "-r", "r-", "_r", "__", "as", "correct", "incomplete", "time", "sorry", "Rule", "Program", "let", "step", "r" * 39, "r" * 40, "r" * 41, "r" * 200]
for i, (p, q) in enumerate(itertools.permutations(NAMES[:-4] if TH else NAMES[::3], 2)):
    for opts, _, shown, compact in WAYS[:5]:
        for x, y in ((1, 1), (1, 2), (0, 3)):
            t = "(declare-const a Bool)\n" + "".join("(declare-rule %s ((F Bool)) :args (F) :conclusion F)\n" % n for n in (p, q)) + "".join("(step s%d :rule %s :args (a))\n" % (j, n) for j, n in enumerate([p] * x + [q] * y))
            if "let" in (p, q) or "as" in (p, q):
                continue
            c.st(t)
            c.tr(x + y)
            cases.append(Case("name/%s/%s/%d/%s" % (p, q, x, " ".join(opts)), t, judge({k: v for k, v in ((p, x), (q, y)) if v}, "correct", shown, compact), name="m.eo", argv=opts + ["m.eo"]))
for p in NAMES:
    if p not in ("let", "as"):
        for opts, _, shown, compact in WAYS[:5]:
            t = "(declare-const a Bool)\n(declare-rule %s ((F Bool)) :args (F) :conclusion F)\n(step s :rule %s :args (a))\n" % (p, p)
            cases.append(Case("name/%s/%s" % (p, " ".join(opts)), t, judge({p: 1}, "correct", shown, compact), name="m.eo", argv=opts + ["m.eo"]))
c.run(cases, outcap=6000)
c.part("names of rules", 0, 0)

# ---- calls of programs: distinct calls are made at least once each, programs
# that are not called are not listed
cases = []
PR = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const a Bool)
(program $down ((n Int)) :signature (Int) Int ((($down 0) 0) (($down n) ($down (eo::add n -1)))))
(program $even ((n Int)) :signature (Int) Bool)
(program $odd ((n Int)) :signature (Int) Bool ((($odd 0) false) (($odd n) ($even (eo::add n -1)))))
(program $even ((n Int)) :signature (Int) Bool ((($even 0) true) (($even n) ($odd (eo::add n -1)))))
(program $never ((n Int)) :signature (Int) Int ((($never n) n)))
(declare-rule rd ((n Int)) :args (n) :requires ((($down n) 0)) :conclusion a)
"""
for n in range(0, 60 if TH else 25):
    for opts, _, shown, compact in (WAYS[1], WAYS[4]):
        for k, t, pr, want in (("down", "(define x () ($down %d))\n(declare-const t (eo::requires x 0 Bool))\n" % n, (("down", n + 1), ("even", 0), ("odd", 0), ("never", 0)), {}),
                               ("even", "(declare-const t (eo::requires ($even %d) %s Bool))\n" % (n, "true" if n % 2 == 0 else "false"), (("down", 0), ("even", n // 2 + 1), ("odd", (n + 1) // 2), ("never", 0)), {}),
                               ("rule", "(step s :rule rd :args (%d))\n" % n, (("down", n + 1), ("even", 0), ("odd", 0), ("never", 0)), {"rd": 1})):
            c.st((k, n))
            c.tr(n + 1)
            cases.append(Case("calls/%s/%d/%s" % (k, n, " ".join(opts)), PR + t, judge(want, "correct", True, compact, pr), name="m.eo", argv=opts + ["m.eo"]))
c.run(cases, outcap=6000)
c.part("calls of programs", 0, 0)
c.bounds = ["all sequences of <= %d of %d commands, 10 ways to set the statistics options (2 for sequences of more than 3)" % (6 if TH else 5, len(CMDS)),
            "0..39 and further numbers up to %d of applications, 0..59 rules, calls of recursive programs to depth %d, all sequences of <= %d requests" % (100000 if TH else 10000, 59 if TH else 24, 4 if TH else 3)]
c.assumptions = ["times are not judged", "of a program only a lower bound of its calls is judged, since results are cached", "rules of the same name declared before and after a reset are counted together"]
c.finish()
