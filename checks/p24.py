"""P24: where an error is reported. The model of a script is its sequence of
tokens with the place (file, line, column) of each. Every bounded edit of every
command of a corpus is rejected at some place; that place must be the start of
a token of the command that is at fault (of the very token the message names),
and the same token must be named under every layout of the same tokens, in
every file of a tree of includes, and wherever the text falls relative to the
input buffer."""
import bisect
import itertools
import os
import re
from mc import engine
from mc.engine import Case
from mc.corpus import SIG, BODY, SIGS, REFS, lexemes, commands, join

c = engine.Check("P24")
TH = c.thorough
ERR = re.compile(r"^Error: (?:(.*?):(\d+)\.(\d+): )?(.*)", re.M)
GOT = re.compile(r"got `(.*?)` \(([A-Z_]+)\)", re.S)
SYM = re.compile(r"Could not find symbol (\S+)")
# messages about the run as a whole, which name no place
NOPOS = re.compile("setTypeRule: cannot set type rule|cannot get type rule|Couldn't open file|Error reading the input|cannot include file|did not preserve assumption scope")


# ------------------------------------------------------------ layouts
def adj(a, b):
    """may two tokens stand next to each other"""
    return a in "()" or b in "()" or b[0] == ";"


SEPS = ["\n", " ", " ; c ( \" |\n", "\r\n\t", "\n\n  ", "\t ", ";\n;;\n", "  "]
STRS = "(echo \"x\n\"\"y\n\n\")\n(declare-const |a\nb| Bool)\n"
STRC = [lexemes(x) for x in commands(STRS)]


def extend(st, cmds, style):
    """lays out further commands (lists of tokens); a state is the text, the
    places of its tokens, the tokens, the place reached, and the number of
    separators used"""
    text, at, ts, line, col, k = st
    text, at, ts = [text], list(at), list(ts)
    for cm in cmds:
        for i, t in enumerate(cm):
            if ts:
                p = ts[-1]
                if style == 0:
                    s = "\n" if i == 0 else "" if p == "(" or t == ")" else " "
                elif style == 1:
                    s = "\n"
                elif style == 2:
                    s = SEPS[k % len(SEPS)]
                    k += 1
                    if s[0] == ";" and not adj(p, ";"):
                        s = " " + s
                elif style == 3:
                    s = "" if adj(p, t) else "\t"
                else:
                    s = "\r\n \n" if i == 0 else " "
            else:
                s = ["", "\n\n", "; first\n", "", "\t"][style]
            for j, x in enumerate((s, t)):
                if j:
                    at.append((line, col))
                text.append(x)
                n = x.count("\n")
                line, col = (line + n, len(x) - x.rindex("\n")) if n else (line, col + len(x))
            ts.append(t)
    return "".join(text), at, ts, line, col, k


BEFORE = {}


def lay(before, cmds, style):
    """text of a sequence of commands and the places of the tokens"""
    h = (id(before), style)
    if h not in BEFORE:
        st = extend(("", [], [], 1, 1, 0), STRC if style == 2 else [], style)
        BEFORE[h] = before, extend(st, before, style)
    st = extend(BEFORE[h][1], cmds, style)
    return st[0] + ("" if style == 3 else "\n"), st[1], st[2]


def locate(out, name, at, ts, lines):
    """(index of the token named by the error, message) or an error text"""
    m = ERR.search(out)
    if not (m and m.group(1)) and NOPOS.search(out):
        return None
    if not m:
        return "rejected without an error message"
    if m.group(1) is None:
        return "an error without a place"
    if m.group(1) != name:
        return "the error is reported for %s, it is in %s" % (m.group(1), name)
    pos = (int(m.group(2)), int(m.group(3)))
    msg = out[m.start(4):]
    g = GOT.search(msg)
    if g and g.group(2) == "EOF":
        return len(ts) if pos >= at[-1] and pos[0] <= lines else "the end of the input is reported at %d.%d" % pos
    i = bisect.bisect_left(at, pos)
    if i < len(at) and at[i] == pos:
        t = ts[i]
        bare = t[1:-1] if t[0] == "|" else t
        s = SYM.search(msg)
        if g and g.group(1) not in (t, bare, t.strip('"')):
            return "the error is reported at %d.%d, which is %s, and is about %s" % (pos + (t, g.group(1)))
        if s and not re.search(r"\s", bare) and s.group(1) != bare:
            return "the error is reported at %d.%d, which is %s, and is about the symbol %s" % (pos + (t, s.group(1)))
        return i
    if pos > at[-1] and pos[0] <= lines:
        return len(ts)
    return "there is no token at %d.%d" % pos


def judge(name, at, ts, text, lo, hi, key=None, shift=0, must=True):
    """the error is at a token lo <= i < hi; under a key all errors are at the
    same token, counted from lo"""
    def f(v, out):
        if v != "reject":
            if key is not None and WHERE.setdefault(key, v) != v:
                return "%s, and under another layout: %s" % (v, WHERE[key])
            return None if v in ("correct", "incomplete") and not must else "expected reject, got " + v
        i = locate(out, name, at, ts, text.count("\n") + 2)
        if isinstance(i, str):
            return i
        if i is None:
            return None
        if not lo <= i < hi:
            return "the error is reported at %s, outside the command at fault" % ("token %d (%s)" % (i, ts[i]) if i < len(ts) else "the end")
        if key is not None and WHERE.setdefault(key, i - lo) != i - lo:
            return "the error is reported at token %d of the command, under another layout: at %s" % (i - lo, WHERE[key])
        return None
    return f


WHERE = {}
last = [0, 0, 0]


def done(name, cases):
    if cases:
        c.sample(repr(cases[len(cases) // 2].files)[-400:])
    c.run(cases)
    c.part(name, 0, 0)
    n = len(c.seen)
    c.parts[name] = dict(states=n - last[0], transitions=c.transitions - last[1], traces=c.traces - last[2])
    last[:] = [n, c.transitions, c.traces]


def balance(ts):
    """tokens up to the end of the first command; None when it has no end"""
    d = 0
    for i, t in enumerate(ts):
        d += (t == "(") - (t == ")")
        if d <= 0:
            return i + 1
    return None


def edits(ts, toks):
    for i in range(len(ts)):
        yield ts[:i] + ts[i + 1:]
        if i + 1 < len(ts):
            yield ts[:i] + [ts[i + 1], ts[i]] + ts[i + 2:]
        for q in toks:
            yield ts[:i] + [q] + ts[i + 1:]
        for q in toks[:3]:
            yield ts[:i] + [q] + ts[i:]


AFTER = ["(", "echo", "\"ok\"", ")"]
TOK = ["zz", ")", "(", "p", "1", ":args", "Int", "and", "|z z|"] + (["f", "a", "x", "true", "_", "as", "eo::List::nil", "\"s\"", "-1", "#b", "eo::add", "Type", "Bool", "$size", "->", "\"a\nb\"", "|z\nz|"] if TH else [])
STYLES = range(5)


def edited(scripts):
    """(key, commands before, tokens of an edited command), each once"""
    seen = set()
    for k, cms, start in scripts:
        cms = [lexemes(x) for x in cms]
        for n in range(start, len(cms)):
            before = cms[:n]
            for e in edits(cms[n], TOK):
                h = (k, n, tuple(e))
                if e and h not in seen:
                    seen.add(h)
                    yield "%s/%d/%s" % (k, n, join(e)), before, e


def build(name, before, e, style, key, mk, after=AFTER):
    text, at, ts = lay(before, [e, after], style)
    lo = len(ts) - len(after) - len(e)
    b = balance(e)
    hi = lo + b if b else len(ts) + 1
    # what follows the command is read as the next one, which may be at fault
    hi = hi if b == len(e) else len(ts) + 1
    c.st(text)
    c.tr()
    return mk(text, judge(name, at, ts, text, lo, hi, key, must=False))


# ------------------------------- 1. every edit of every command, all layouts
SIGC = commands(SIG)
scr = [("b:" + k, SIGC + list(x), len(SIGC)) for k, (x, v) in BODY.items()] + [("s:" + k, SIGC + list(x), len(SIGC)) for k, (x, v) in SIGS.items()] + [("sig", SIGC, 0)]
# a script is used up to its first command that is rejected
tries = [(i, n, Case("", "\n".join(x[:n]) + "\n", name="c.eo")) for i, (k, x, st) in enumerate(scr) for n in range(st + 1, len(x) + 1)]
end = {}
for (i, n, _), (v, o) in zip(tries, c.execute([t[2] for t in tries])):
    if v not in ("correct", "incomplete"):
        end[i] = min(n, end.get(i, n))
scr = [(k, x[:end.get(i, len(x))], st) for i, (k, x, st) in enumerate(scr)]
todo = list(edited(scr))
for style in STYLES:
    cases = []
    for n, (k, before, e) in enumerate(todo):
        if TH or style in (0, n % 4 + 1):
            cases.append(build("c.eo", before, e, style, k, lambda t, j: Case("edit/%d/%s" % (style, k), t, j, name="c.eo")))
    done("edits of commands, layout %d" % style, cases)

INNER = {}
# ----------------- 2. the same in included files and in reference files
cases = []
for n, (k, before, e) in enumerate(todo):
    if k.startswith("sig") or not TH and n % 3:
        continue
    style = n % 5
    b2 = INNER.setdefault(id(before), before[len(SIGC):])
    main = '(include "s.eo")\n\n(include "d/i.eo")\n(echo "ok")\n'
    # the signature is read first, so that the edited file has only its commands
    cases.append(build("d/i.eo", b2, e, style, None, lambda t, j: Case("inc/%d/%s" % (style, k), files={"m.eo": main, "d/i.eo": t, "s.eo": SIG}, expect=j, name="m.eo", argv=["m.eo"])))
done("edits in included files", cases)
cases = []
for k, before, e in edited([(k, x, 0) for k, (x, v) in REFS.items()]):
    for style in STYLES:
        cases.append(build("r.smt2", before, e, style, "ref/" + k, lambda t, j: Case("ref/%d/%s" % (style, k), files={"m.p": '(include "s.eo")\n(reference "r.smt2")\n', "r.smt2": t, "s.eo": SIG}, expect=j, name="m.p", argv=["m.p"]),
                           after=["(", "check-sat", ")"]))
done("edits in reference files", cases)

# ------------------------- 3. faults at every place of every tree of files
ITEM = {"n": "\n", "c": "; zz (\n", "d": "(declare-const %s Bool)\n", "m": "(define %s ()\n  true\n)\n", "s": "(echo \"\n\"\"\n\") ", "i": None, "j": None, "p": "(push 1)\n", "P": "(pop 1)\n"}
FAULT = [("(zz)", 1), ("(define u () zz)", 13), ("  (declare-const q (zz))", 21), ("\n(assume a1\n\tzz)", None), ("(define |u\nv| () zz)", None), ("(define u () \"a\nb\") (zz)", None), ("(echo \"a\n\"\"b\") ;\n zz", None)]
cases = []
n = [0]


def place(text):
    """the place of the last zz of a text"""
    i = text.rindex("zz")
    return text.count("\n", 0, i) + 1, i - (text.rindex("\n", 0, i) if "\n" in text[:i] else -1)


for m in range(0, 5 if TH else 4):
    for seq in itertools.product("ncdmsi", repeat=m):
        for fi, (ft, _) in enumerate(FAULT):
            if not TH and (len(cases) + fi) % 2 and m > 2:
                continue
            for where in ("main", "inner", "deep") if "i" in seq else ("main",):
                inner = "".join(x if x and "%" not in x else (x or "") % ("k%d" % q) for q, x in enumerate([ITEM[y] for y in seq if y != "i"]))
                fs, main, q = {}, "", 0
                fs["e/x.eo"] = "\n\n" + inner.replace("k", "x") + (ft + "\n" if where == "deep" else "")
                fs["b.eo"] = inner.replace("k", "y") + "(include \"e/x.eo\")\n\n" + (ft + "\n" if where == "inner" else "")
                for y in seq:
                    q += 1
                    main += '(include "b.eo")\n' if y == "i" else ITEM[y] % ("z%d" % q) if "%" in ITEM[y] else ITEM[y]
                main += ft + "\n"
                fs["m.eo"] = main
                f = {"main": "m.eo", "inner": "b.eo", "deep": "e/x.eo"}[where]
                p = place(fs[f].replace("; zz", ";  !") if "zz" in ft else fs[f])
                pat = "Error: %s:%d.%d: " % ((f,) + p)
                c.st(tuple(sorted(fs.items())))
                c.tr(m + 1)
                cases.append(Case("tree/%s/%s/%d" % ("".join(seq), where, fi), files=fs, name="m.eo", argv=["m.eo"],
                                  expect=lambda v, out, pat=pat: None if v == "reject" and "\n" + pat in "\n" + out else "expected '%s'" % pat))
done("faults in trees of included files", cases)

# ----------------------------------- 4. far places: buffers, long lines
cases = []
B = 32768
FILL = [("comment", lambda n: ";" + "c" * (n - 2) + "\n"), ("lines", lambda n: "\n" * n), ("blanks", lambda n: " " * n), ("crlf", lambda n: "\r\n" * (n // 2) + " " * (n % 2)),
        ("string", lambda n: '(echo "' + "s\n" * ((n - 10) // 2) + "t" * (n % 2) + '")\n'), ("symbol", lambda n: "(define |" + "s\n" * ((n - 18) // 2) + "t" * (n % 2) + "| () 0)\n"),
        ("comments", lambda n: ";c\n" * (n // 3) + " " * (n % 3)), ("quotes", lambda n: '(echo "' + '""' * ((n - 10) // 2) + "t" * (n % 2) + '")\n')]
for fn, fill in FILL:
    for k in (1, 2, 3) if TH else (1, 2):
        for d in range(-24, 5) if TH else range(-20, 3):
            for ft, _ in FAULT if TH else FAULT[1:4:2] + FAULT[5:]:
                text = "(declare-consts <numeral> Bool)\n" + fill(k * B + d - 32) + ft + "\n"
                p = place(text)
                pat = "%d.%d: " % p
                c.st(text)
                c.tr(1)
                ex = lambda v, out, pat=pat: None if v == "reject" and re.search(r"(?m)^Error: [^\n:]*:%s" % re.escape(pat), out) else "expected the error at '%s'" % pat
                cases.append(Case("far/%s/%d/%d/%s" % (fn, k, d, ft), text, ex, name="c.eo"))
                if TH or d in (-1, 0, -13):
                    cases.append(Case("farin/%s/%d/%d/%s" % (fn, k, d, ft), files={"m.eo": "", "x": ""}, name="m.eo", argv=[], stdin=text, expect=ex))
for ft, _ in FAULT:
    for k, t in (("lines", "\n" * 65530), ("blanks", " " * 65530), ("crlf", "\r\n" * 65530), ("both", ";" + "c" * 70000 + "\n" * 70000)) + ((("more", "\n" * 16777210), ("wide", " " * 16777210)) if TH else ()):
        for d in range(0, 12):
            text = "(declare-consts <numeral> Bool)\n" + t + " \n"[k == "lines"] * d + ft + "\n"
            pat = "Error: c.eo:%d.%d: " % place(text)
            c.st(text)
            c.tr(1)
            cases.append(Case("count/%s/%d/%s" % (k, d, ft), text, lambda v, out, pat=pat: None if v == "reject" and "\n" + pat in "\n" + out else "expected '%s'" % pat, name="c.eo"))
done("faults far into the text", cases)

# ------------------- 5. every way to name the file that contains the fault
cases = []
WAY = [("m.eo", ["m.eo"]), ("m.p", ["m.p"]), ("d/m.p", ["d/m.p"]), ("d/e/m.eo", ["d/e/m.eo"]), ("i.eo", ["--include=i.eo", "o.p"]), ("d/i.eo", ["--include=d/i.eo", "o.p"]),
       ("r.smt2", ["--reference=r.smt2", "o.p"]), ("d/r.smt2", ["--include=o.eo", "--reference=d/r.smt2", "o.p"]), ("m.eo", ["cd:d", "../m.eo"]), ("i.eo", ["cd:d", "--include=../i.eo", "o.p"]), ("x.eo", ["inc:x.eo"]), ("x.eo", ["inc:./x.eo"]),
       ("x.eo", ["inc:d/../x.eo"]), ("d/x.eo", ["inc:d/x.eo"]), ("d/e/x.eo", ["inc:d/e/x.eo"]), ("d/e/x.eo", ["inc:d//e/./x.eo"]), ("x.eo", ["cd:d", "inc:x.eo"]), ("d/x.eo", ["cd:d", "inc:d/x.eo"]),
       ("e/x.eo", ["cd:d", "inc:e/x.eo"]), ("x.eo", ["ref:x.eo"]), ("d/x", ["ref:d/x"])]
for fn, way in WAY:
    for ft in ("(zz)", "(declare-const q zz)", "  (declare-const\nq\n zz)", "(declare-const |q\nr| zz)"):
        for k in range(0, 4):
            text = "\n" * k + "(declare-const a Bool)\n" + ft + "\n"
            fs = {fn: text, "o.p": "(echo \"o\")\n", "d/o.p": "\n", "o.eo": "\n(declare-const b Bool)\n", "d/e/o.p": ""}
            argv = list(way)
            if argv[-1][:4] in ("inc:", "ref:"):
                fs["main.p"] = "\n" * (3 - k) + '(%s "%s")\n' % ("include" if argv[-1][:3] == "inc" else "reference", argv[-1][4:])
                argv[-1] = ("../" if argv[0][:3] == "cd:" else "") + "main.p"
            line, col = place(text)
            c.st(tuple(sorted(fs.items())))
            c.tr(2)

            def same(v, out, fn=fn, line=line, col=col, cd=argv[0][3:] if argv[0][:3] == "cd:" else ""):
                m = ERR.search(out)
                if v != "reject" or not m or m.group(1) is None:
                    return "expected an error with a place"
                f = m.group(1)
                if os.path.normpath(os.path.join("/R", cd, f)) != "/R/" + fn and not (os.path.isabs(f) and f.endswith("/" + fn)):
                    return "the error is reported for %s, it is in %s" % (f, fn)
                return None if (int(m.group(2)), int(m.group(3))) == (line, col) else "the error is reported at %s.%s, it is at %d.%d" % (m.group(2), m.group(3), line, col)
            cases.append(Case("way/%s/%s/%d" % (" ".join(way), ft, k), files=fs, name=fn, argv=argv, expect=same))
done("ways to name the file", cases)

c.bounds = ["one token edit (deletion, swap, replacement and insertion of %d tokens) at every position of every command of the corpus, in %s layouts" % (len(TOK), "all 5" if TH else "2 of 5"),
            "trees of three files with <= %d items before the fault, %d faults, a fault in each file" % (4 if TH else 3, len(FAULT)),
            "faults at all offsets %s of %d input buffers, %d kinds of text before" % ("-24..4" if TH else "-20..2", 3 if TH else 2, len(FILL))]
c.assumptions = ["lines and columns count from 1; a tab and a carriage return are one column each", "the column reported for an unexpected end of the input is not judged, only that it follows the last token",
                 "errors that name no place (missing files, type rules of literals) are not judged"]
c.finish()
