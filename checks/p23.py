"""P23: the outcome does not depend on how the input is presented. The model
of a script is its sequence of commands with its verdict and messages; a
presentation is a way of delivering that sequence. All presentations within
the bounds are enumerated for every script of a corpus that covers the
commands, each is replayed, and every one must give the model's outcome."""
import itertools
from mc import engine
from mc.engine import Case
from mc.corpus import SIG, BODY, SIGS, REFS, lexemes, commands, join

c = engine.Check("P23")
TH = c.thorough
SIGC = commands(SIG)
# scripts whose meaning depends on the kind of file (parse-let, normalization)
KIND = {"let", "let2", "let-wrong", "bv-hex", "lits", "option", "consts"}
last = [0, 0, 0]


def part(name):
    c.part(name, 0, 0)
    n = len(c.seen)
    c.parts[name] = dict(states=n - last[0], transitions=c.transitions - last[1], traces=c.traces - last[2])
    last[:] = [n, c.transitions, c.traces]


def messages(cmds, v):
    out = []
    for x in cmds:
        if x.startswith("(echo "):
            out.append(x[7:-2].replace('""', '"'))
        if x == "(exit)":
            break
    return out


def judge(cmds, v):
    want = messages(cmds, v)

    def f(got, out):
        if got != v:
            return "expected %s as in every other presentation, got %s" % (v, got)
        ms = [l for l in out.split("\n") if l.startswith("@")]
        if ms != want:
            return "expected the messages %s, got %s" % (want, ms)
    return f


cases = []


def add(key, cmds, v, files, argv, stdin=None, cuts=None):
    c.st((key.split("/")[0], tuple(cmds)))
    c.tr(len(cmds))
    cases.append(Case(key, None, judge(cmds, v), files=files, argv=argv, stdin=stdin, cuts=cuts))


def flush(kind="rel", timeout=10.0):
    global cases
    if cases:
        c.sample({"files": {k: v[-300:] for k, v in cases[-1].files.items()}, "argv": cases[-1].argv, "stdin": cases[-1].stdin}.__repr__())
    r = c.run(cases, kind, timeout) if cases else []
    cases = []
    return r


INC = '(include "s.eo")\n'
FILE = {"s.eo": SIG}
ALL = [("b:" + k, b, v) for k, (b, v) in BODY.items()]
SALL = [("s:" + k, b, v) for k, (b, v) in SIGS.items()] + [("b:" + k, b, v) for k, (b, v) in BODY.items() if k not in KIND]
RALL = [("r:" + k, b, v) for k, (b, v) in REFS.items()]
RALL += [("r:bad" + str(i), b + [x], "reject") for i, (b, x) in enumerate(itertools.product([REFS["small"][0], REFS["full"][0][:-1]], ["(assert a)", "(assert nope)", "(assume h p)", "(foo)", "(define-fun m () Int p)"]))]


def body(b):
    return "\n".join(b) + "\n"


# ------------------------------------------------ sources and option subsets
STAT = ["--stats", "--stats-all", "--stats-compact", "--no-print-dag", "--no-stats", "--print-dag"]
SUB = [x for k in range(len(STAT) + 1) for x in itertools.combinations(STAT, k) if not ({"--stats", "--no-stats"} <= set(x) or {"--print-dag", "--no-print-dag"} <= set(x))]
if TH:
    SUB = [y for x in SUB for y in itertools.permutations(x) if len(x) < 4] + [x for x in SUB if len(x) >= 4]
for k, b, v in ALL:
    t = body(b)
    for o in SUB:
        o = list(o)
        if not TH and len(o) > 2 and o[-1] != "--stats-compact":
            continue
        add("file/%s/%s" % (k, o), b, v, {**FILE, "m.p": INC + t}, o + ["m.p"])
        add("filepost/%s/%s" % (k, o), b, v, {**FILE, "m.p": INC + t}, ["m.p"] + o)
        add("stdin/%s/%s" % (k, o), b, v, FILE, o, stdin=INC + t)
        add("inc/%s/%s" % (k, o), b, v, {**FILE, "m.p": t}, ["--include=s.eo"] + o + ["m.p"])
        add("incpost/%s/%s" % (k, o), b, v, {**FILE, "m.p": t}, ["m.p"] + o + ["--include=s.eo"])
        add("incstdin/%s/%s" % (k, o), b, v, FILE, o + ["--include=s.eo"], stdin=t)
    for nm in ("m", "m.smt3", "m.eo.p", "m.eoo", "m.e", "eo", "d/m.p", "d.eo/m"):
        up = "../" * nm.count("/")
        add("name/%s/%s" % (k, nm), b, v, {**FILE, nm: '(include "%ss.eo")' % up + t}, [nm])
for k, b, v in SALL:
    t = body(b)
    for o in [[]] + [[x] for x in STAT]:
        add("eo/%s/%s" % (k, o), b, v, {"m.eo": SIG + t}, o + ["m.eo"])
        add("eoinc/%s/%s" % (k, o), b, v, {**FILE, "m.eo": t}, o + ["--include=s.eo", "m.eo"])
        add("eoonly/%s/%s" % (k, o), b, v, {**FILE, "m.eo": INC + t, "x.p": ""}, o + ["--include=m.eo", "x.p"])
        add("eostdin/%s/%s" % (k, o), b, v, {**FILE, "m.eo": INC + t}, o, stdin='(include "m.eo")')
        add("eodev/%s/%s" % (k, o), b, v, {"m.eo": SIG + t}, o + ["--include=m.eo"], stdin="")
for k, b, v in RALL:
    t = body(b)
    for o in [[]] + [[x] for x in STAT]:
        add("ref/%s/%s" % (k, o), b, v, {**FILE, "m.p": INC + '(reference "r.x")', "r.x": t}, o + ["m.p"])
        add("refopt/%s/%s" % (k, o), b, v, {**FILE, "m.p": "", "r.eo": t}, o + ["--include=s.eo", "--reference=r.eo", "m.p"])
        add("refin/%s/%s" % (k, o), b, v, {**FILE, "r.eo": t}, o, stdin=INC + '(reference "r.eo")')
        add("refin2/%s/%s" % (k, o), b, v, {**FILE, "r.eo": t}, o + ["--include=s.eo", "--reference=r.eo"], stdin="")
flush()
part("sources and options")

# ------------------------------------------------ splitting over includes
for k, b, v in ALL:
    t = body(b)
    for i in range(len(SIGC) + 1):
        if not TH and i % 3 and v != "reject":
            continue
        p1, p2 = body(SIGC[:i]), body(SIGC[i:])
        add("split/%s/%d" % (k, i), b, v, {"a.eo": p1, "b.eo": p2, "m.p": '(include "a.eo")(include "b.eo")' + t}, ["m.p"])
        add("splitopt/%s/%d" % (k, i), b, v, {"a.eo": p1, "b.eo": p2}, ["--include=a.eo", "--include=b.eo"], stdin=t)
        add("splitnest/%s/%d" % (k, i), b, v, {"a.eo": p1, "b.eo": '(include "a.eo")' + p2, "m.p": '(include "b.eo")' + t}, ["m.p"])
        add("splitchain/%s/%d" % (k, i), b, v, {"a.eo": p1 + '(include "b.eo")', "b.eo": p2, "m.p": '(include "a.eo")(include "b.eo")(include "a.eo")' + t}, ["m.p"])


def levels(b):
    """assumption level before each command and at the end"""
    out, n = [0], 0
    for x in b:
        n += x.startswith("(assume-push") - x.startswith("(step-pop")
        out.append(max(n, 0))
    return out


for k, b, v in SALL:
    lv = levels(b)
    ok = [i for i in range(len(b) + 1) if lv[i] == 0]
    if any(x in ("(exit)",) for x in b):
        continue
    for i, j in itertools.combinations_with_replacement(ok, 2):
        x, y, z = body(b[:i]), body(b[i:j]), body(b[j:])
        add("cut3/%s/%d-%d" % (k, i, j), b, v, {"m.eo": INC + '(include "x.eo")(include "y.eo")(include "z.eo")', **FILE, "x.eo": x, "y.eo": y, "z.eo": z}, ["m.eo"])
        add("cutmid/%s/%d-%d" % (k, i, j), b, v, {"m.eo": SIG + x + '(include "d/y.eo")' + z, "d/y.eo": y}, ["m.eo"])
        add("cutout/%s/%d-%d" % (k, i, j), b, v, {"m.eo": '(include "x.eo")' + y + '(include "z.eo")', **FILE, "x.eo": INC + x, "z.eo": z}, ["m.eo"])
        add("cutopt/%s/%d-%d" % (k, i, j), b, v, {**FILE, "x.eo": x, "y.eo": y, "z.eo": z}, ["--include=s.eo", "--include=x.eo", "--include=y.eo", "z.eo"])
        add("cutnest/%s/%d-%d" % (k, i, j), b, v, {"m.eo": '(include "y.eo")' + z, **FILE, "x.eo": INC + x, "y.eo": '(include "x.eo")' + y}, ["m.eo"])
for k, b, v in ALL:
    lv = levels(b)
    if "(exit)" in b:
        continue
    # files without commands, included anywhere outside of scopes
    for i in range(len(b) + 1):
        if lv[i]:
            continue
        add("empty/%s/%d" % (k, i), b, v, {**FILE, "e.eo": "", "m.p": INC + body(b[:i]) + '(include "e.eo")\n' + body(b[i:])}, ["m.p"])
        add("emptyc/%s/%d" % (k, i), b, v, {**FILE, "e.eo": "; (", }, [], stdin=INC + body(b[:i]) + '(include "e.eo")\n' + body(b[i:]))
flush()
part("splits")

# ------------------------------------------------ layout
SEP = [" ", "\n", "\t", "\r\n", "\r", " ;\n", ";(\n", " ;)\"|\r\n", "\n\n  \t\r\n ", ";" + "x" * 300 + "\n", " " * 40]


def layout(ts, seps, tight=False):
    o = []
    for i, t in enumerate(ts):
        if i:
            if tight and (t in "()" or ts[i - 1] in "()"):
                pass
            else:
                o.append(seps(i))
        o.append(t)
    return "".join(o)


ODD = [chr(x) for x in range(1, 127) if x != 10 and not chr(x).isalnum()]
for ch in ODD:
    for k, b, v in ALL[:4] + ALL[-4:]:
        for s in (";%s\n" % ch, ";a%sb (\n" % ch, " ;%s%s\n" % (ch, ch)):
            t = layout(lexemes(body(b)), lambda i: s)
            add("comment/%s/%r" % (k, s), b, v, {**FILE, "m.p": INC + t}, ["m.p"])
            add("commentin/%s/%r" % (k, s), b, v, FILE, ["--include=s.eo"], stdin=t)
for k, b, v in ALL:
    ts = lexemes(body(b))
    for s in SEP:
        for tight in (False, True):
            for pre, post in (("", ""), (s, s), ("", ";end"), ("", s + ";"), ("\n;(assume\n", "\n ;\"")):
                t = pre + layout(ts, lambda i: s, tight) + post
                add("layout/%s/%r/%d%r" % (k, s, tight, post), b, v, {**FILE, "m.p": INC + t}, ["m.p"])
                add("layoutin/%s/%r/%d%r" % (k, s, tight, post), b, v, FILE, ["--include=s.eo"], stdin=t)
    GAP = ["\n", "\r\n", "\t", "; ( \" | ) x\n", ";\n;\n"] if TH else ["\n", "; ( \" | ) x\n"]
    for g in range(1, len(ts)):
        # a comment with some character in it; all of them, over the gaps
        for s in GAP + [";x%s(y\n" % ODD[g % len(ODD)], ";x%s\r\n" % ODD[(g * 7 + len(ts)) % len(ODD)]]:
            t = layout(ts, lambda i: s if i == g else " ")
            if TH or g % 2:
                add("gap/%s/%d/%r" % (k, g, s), b, v, {**FILE, "m.p": INC + t}, ["m.p"])
            if TH or not g % 2:
                add("gapin/%s/%d/%r" % (k, g, s), b, v, FILE, ["--include=s.eo"], stdin=t)
# the signature's layout
ts = lexemes(SIG)
for s in SEP:
    for tight in (False, True):
        for k, b, v in ALL:
            add("siglayout/%s/%r/%d" % (k, s, tight), b, v, {"s.eo": layout(ts, lambda i: s, tight), "m.p": INC + body(b)}, ["m.p"])
for k, b, v in SALL + RALL:
    ts = lexemes(body(b))
    for s in SEP:
        for tight in (False, True):
            t = layout(ts, lambda i: s, tight)
            if k[0] == "r":
                add("reflayout/%s/%r/%d" % (k, s, tight), b, v, {**FILE, "r.x": t}, ["--include=s.eo", "--reference=r.x"], stdin="")
            else:
                add("eolayout/%s/%r/%d" % (k, s, tight), b, v, {**FILE, "m.eo": INC + t}, ["m.eo"])
flush()
part("layout")

# ------------------------------------------------ pieces of a piped input
for k, b, v in ALL:
    t = body(b)
    n = len(t)
    for i in range(1, n, 1 if TH else 3):
        add("pipe/%s/%d" % (k, i), b, v, FILE, ["--include=s.eo"], stdin=t, cuts=[i])
    add("pipe/%s/each" % k, b, v, FILE, ["--include=s.eo"], stdin=t, cuts=list(range(1, n)))
    add("pipe/%s/none" % k, b, v, FILE, ["--include=s.eo"], stdin=t, cuts=[])
    e = list(itertools.accumulate(len(x) + 1 for x in b))
    add("pipe/%s/cmd" % k, b, v, FILE, ["--include=s.eo"], stdin=t, cuts=e[:-1])
flush()
part("pieces of a pipe")

# ------------------------------------------------ position in the input
# the script at every offset around the boundary of a large input
BUF = 32768
for k, b, v in ALL:
    t = body(b)
    pads = range(0, len(t) + 3, 1 if TH else 11)
    # the last characters of the input just before and behind the boundary
    pads = [(i, 1) for i in sorted({*pads, *range(len(t.rstrip()) - 3, len(t.rstrip()) + 3), *range(len(t) - 3, len(t) + 3)})]
    pads += [(i, 2) for i in range(len(t.rstrip()) - 2, len(t.rstrip()) + 2)]
    for i, m in pads:
        n = m * BUF - len(INC) - i
        pad = (";" + "y" * 98 + "\n") * (n // 100)
        pad += " " * (n - len(pad))
        add("offset/%s/%d/%d" % (k, i, m), b, v, {**FILE, "m.p": INC + pad + t}, ["m.p"])
        if i >= len(t.rstrip()) - 3:
            # without a line break at the end
            add("offset/%s/%d/%d/end" % (k, i, m), b, v, {**FILE, "m.p": INC + pad + t.rstrip()}, ["m.p"])
    if len(cases) > 3000:
        flush()
flush()
part("offsets")

# ------------------------------------------------ debug build, tracing
TAGS = ["define", "foo", "gc", "opaque", "options", "overload", "param-dt", "parser", "state", "state-debug", "step", "type_checker", "type_checker_debug", "expr_parser", "nosuchtag"]
for k, b, v in ALL:
    t = body(b)
    add("dbg/%s" % k, b, v, {**FILE, "m.p": INC + t}, ["m.p"])
    add("dbgstats/%s" % k, b, v, {**FILE, "m.p": INC + t}, ["m.p", "--stats", "--stats-all"])
flush("dbg", 20)


def tail(v):
    # trace output may be longer than what is kept: the verdict only
    return lambda got, out: None if got == v else "expected %s as without tracing, got %s" % (v, got)


for k, b, v in ALL:
    t = body(b)
    for o in [["-v"], ["-v", "--no-print-dag"]] + [["-t", x] for x in TAGS]:
        c.tr(len(b))
        cases.append(Case("trace/%s/%s" % (k, o), None, tail(v), files={**FILE, "m.p": INC + t}, argv=o + ["m.p"]))
flush("dbg", 20)
part("debug build and tracing")

# ------------------------------------------------ repetition
# the complete output is the same every time, errors included
R = 5 if TH else 3
outs = {}
for r in range(R):
    cs = []
    for k, b, v in ALL + SALL:
        if k[0] == "s":
            cs.append(Case("rep/%s" % k, None, judge(b, v), files={"m.eo": SIG + body(b)}, argv=["m.eo"]))
        else:
            cs.append(Case("rep/%s" % k, None, judge(b, v), files={**FILE, "m.p": INC + body(b)}, argv=["m.p"]))
        if k[0] == "s":
            cs.append(Case("repnd/%s" % k, None, judge(b, v), files={**FILE, "m.eo": INC + body(b)}, argv=["m.eo", "--no-print-dag"]))
    for cs1, (v, o) in zip(cs, c.run(cs)):
        c.tr()
        if outs.setdefault(cs1.key, o) != o:
            c.violation(cs1, "rel", "two runs on the same input print different output: %r and %r" % (outs[cs1.key][:400], o[:400]), o)
part("repetition")
c.bounds = ["a corpus of %d scripts" % len(ALL + SALL + RALL), "all subsets of the output options; all sources", "all splits of the signature in two and of scripts in three files",
            "comments containing every character; %d separators globally and at each gap; every byte as the end of a piece of a pipe (quick: every third)" % len(SEP), "offsets around a %d byte boundary" % BUF]
c.finish()
