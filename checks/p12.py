"""P12: lexing. Model: an independent scanner of the lexical grammar. All
strings over an alphabet of lexically significant characters, all string
literal bodies and escape forms, all numeric forms, every byte value in every
lexical context, and every token class at every position around the boundary of
the input buffer, from files and from standard input."""
import itertools
import re
from fractions import Fraction as F
from mc import engine
from mc.engine import Case
from mc.lits import text, dec

c = engine.Check("P12")
TH = c.thorough
PRE = """(declare-const U Type)
(declare-const LT Type)
(declare-const nil LT)
(declare-parameterized-const L ((T Type :implicit)) (-> T LT LT) :right-assoc-nil nil)
"""
START = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+-/*=%?!.$_~&^<>@")
SYM = START | set("0123456789:")
DIG = set("0123456789")
WS = set(" \t\r\n")
RESERVED = {"!", "par", "let", "Bool", "Type", "eo::define"}
ESC = re.compile(r"\\u(?:\{([0-9a-fA-F]{1,5})\}|([0-9a-fA-F]{4}))", re.S)
NUMRE = re.compile(r"-?[0-9]+(?:[./][0-9]+)?\Z")


def unescape(s):
    r, i = [], 0
    while i < len(s):
        m = ESC.match(s, i)
        v = int(m.group(1) or m.group(2), 16) if m else None
        if m and v < 0x30000:
            r.append(v)
            i = m.end()
        else:
            r.append(ord(s[i]))
            i += 1
    return tuple(r)


def number(t):
    if "/" in t:
        p, q = t.split("/")
        return ("rat", F(int(p), int(q))) if int(q) else "reject"
    if "." in t:
        return ("dec", F(t))
    return ("num", int(t))


def scan(w):
    """-> list of tokens, 'reject', or None (tokens that are not separated)"""
    out, i, sep = [], 0, True
    n = len(w)
    while i < n:
        ch = w[i]
        if ch in WS:
            i += 1
            sep = True
            continue
        if ch == ";":
            while i < n and w[i] != "\n":
                i += 1
            sep = True
            continue
        if not sep:
            return None
        sep = False
        if ch == '"':
            j, body = i + 1, []
            while True:
                if j >= n:
                    return "reject"
                if w[j] == '"':
                    if w[j + 1:j + 2] == '"':
                        body.append('"')
                        j += 2
                        continue
                    break
                body.append(w[j])
                j += 1
            if any(not (" " <= x <= "~" or x in "\t\n\r") for x in body):
                return "reject"
            out.append(("str", unescape("".join(body))))
            i = j + 1
        elif ch == "|":
            j = w.find("|", i + 1)
            if j < 0:
                return "reject"
            out.append(("sym", w[i + 1:j]))
            i = j + 1
        elif ch == "#":
            base = w[i + 1:i + 2]
            cl = {"b": "01", "x": "0123456789abcdefABCDEF"}.get(base)
            if cl is None:
                return "reject"
            j = i + 2
            while j < n and w[j] in cl:
                j += 1
            if j == i + 2:
                return "reject"
            d = w[i + 2:j]
            out.append(("bin", len(d), int(d, 2)) if base == "b" else ("hex", 4 * len(d), int(d, 16)))
            i = j
        elif ch in DIG:
            m = re.compile("[0-9]+").match(w, i)
            j = m.end()
            if w[j:j + 1] in ("/", "."):
                m = re.compile("[0-9]+").match(w, j + 1)
                if not m:
                    return "reject"
                j = m.end()
            v = number(w[i:j])
            if v == "reject":
                return v
            out.append(v)
            i = j
        elif ch in START:
            j = i
            while j < n and w[j] in SYM:
                j += 1
            t = w[i:j]
            if NUMRE.match(t) and t[0] == "-":
                v = number(t)
                if v == "reject":
                    return v
                out.append(v)
            elif t in RESERVED:
                return "reject"
            else:
                out.append(("sym", t))
            i = j
        else:
            return "reject"
    return out


def nat(n):
    if n < 0:
        return "(eo::neg %s)" % nat(-n)
    s = str(n)
    if len(s) == 1:
        return s
    if len(s) > 6:
        return s
    return "(eo::add (eo::mul %s (eo::add 9 1)) %s)" % (nat(n // 10), s[-1])


def strx(cs):
    if not cs:
        return '(eo::extract "a" 1 0)'
    if len(cs) == 1:
        return "(eo::to_str %s)" % nat(cs[0])
    if len(cs) > 200:
        # repeated text, by doubling
        assert len(set(cs)) == 1, cs[:10]
        h = len(cs) // 2
        return "(eo::define ((h%d %s)) (eo::concat h%d h%d%s))" % (len(cs), strx(cs[:h]), len(cs), len(cs), " " + strx(cs[:1]) if len(cs) % 2 else "")
    return "(eo::concat %s)" % " ".join("(eo::to_str %s)" % nat(x) for x in cs)


def value(t, names):
    k = t[0]
    if k == "num":
        return nat(t[1])
    if k == "rat":
        return "(eo::qdiv %s %s)" % (nat(t[1].numerator), nat(t[1].denominator))
    if k == "dec":
        decs.add(t[1])
        return text(t)
    if k == "bin":
        return "(eo::to_bin %s %s)" % (nat(t[1]), nat(t[2]))
    if k == "hex":
        hexs.add(t[1:])
        return "#x" + hex(t[2])[2:].rjust(t[1] // 4, "0")
    if k == "str":
        return strx(t[1])
    if t[1] not in names:
        names.append(t[1])
    return "s%d" % names.index(t[1])


decs, hexs = set(), set()
lines, cases = [], []
count = {"accepted": 0, "rejected": 0, "unspecified": 0}
allnames = set()


def listof(toks, names):
    r = "nil"
    for t in reversed(toks):
        r = "(_ L %s %s)" % (value(t, names), r)
    return r


def word(w, sing=True, batch=None):
    toks = scan(w + "\n")
    if not toks:
        # no white space between two tokens, or no token at all
        count["unspecified"] += 1
        return
    c.tr(len(w))
    if toks == "reject":
        count["rejected"] += 1
        if sing:
            cases.append(Case("reject %r" % w, PRE + "(declare-const |a| U)\n(define t () (L nil) :type LT)\n(define t2 () (L %s\n)\n)\n" % w, "reject"))
        return
    count["accepted"] += 1
    c.st(tuple(toks))
    names = []
    rhs = listof(toks, names)
    # the symbols are declared by their quoted name, and reached by another name for the expected term
    txt = "".join("(declare-const |%s| U)(define s%d () |%s|)" % (n, i, n) for i, n in enumerate(names))
    txt = "(push)%s(declare-const t (eo::requires (L %s\n) %s Bool))(pop)" % (txt, w, rhs)
    allnames.update(names)
    (lines if batch is None else batch).append(("text %r" % w, txt))


# A: every string over the alphabet
AL = "ae019-./#bx|\";: \n\\!u"
for n in range(1, 4):
    for w in itertools.product(AL, repeat=n):
        word("".join(w))
AL4 = "a01-./#b|\"; :\n" if not TH else "af01-./#bx|\"; :\n!"
for w in itertools.product(AL4, repeat=4):
    word("".join(w), sing=TH or w[0] in "#\"|")
if TH:
    for w in itertools.product("ae1-./#bx|\"; :", repeat=5):
        word("".join(w), sing=False)
nA = dict(count)
c.part("texts of up to %d characters" % (5 if TH else 4), 0, sum(count.values()))
# B: string literals: bodies, escapes
for n in range(0, 6 if TH else 5):
    for w in itertools.product("a\"\\u{}03fF\n" if n > 4 else "a\"\\u{}03fG \n\t", repeat=n):
        word('"' + "".join(w) + '"', sing=False)
for n in range(0, 7):
    for d in itertools.product("023f" if n < 6 else "02", repeat=n):
        d = "".join(d)
        for f in ("\\u{%s}", "\\u%s", "\\u{%s", "a\\u{%s}b", "\\\\u{%s}", "\\u{%s}0", "\\x%s", "\\u{%sg}", "\\U{%s}", "\\u {%s}") if n < 6 else ("\\u{%s}", "\\u%s"):
            word('"' + f % d + '"', sing=False)
            if not TH and n > 4 and f != "\\u{%s}":
                break
for x in "0123456789abcdefABCDEFgG@`/:{":
    for f in ("\\u{%s}", "\\u{1%s}", "\\u{%s1}", "\\u00%s0", "\\u{000%s}", "\\u%s000", "\\u000%s", "\\u{1000%s}", "\\u{%s0000}", "#x%s", "#x1%s"):
        word('"' + f % x + '"' if f[0] == "\\" else f % x)
for i in range(128):
    for b in (i, i + 128, i * 512 % 0x30000, 0x2ffff - i, 0x30000 + i, 0xfffff - i * 100):
        word('"\\u{%x}"' % b)
        word('"\\u%04x"' % (b & 0xffff))
c.part("string literals", 0, sum(count.values()) - sum(nA.values()))
nA = sum(count.values())
# E: numeric forms
for n in range(5 if not TH else 5, 6 if not TH else 7):
    for w in itertools.product("019-./", repeat=n):
        word("".join(w), sing=TH and n < 6)
for n in range(1, 5):
    for w in itertools.product("019-./", repeat=n):
        word("".join(w), sing=n < 4)
for n in sorted(set(range(1, 70)) | set(range(120, 140)) | set(range(250, 262)) | {511, 512, 513, 1000}):
    for d in ("1" + "0" * (n - 1), "9" * n, "0" * n, "0" * n + "7", "1" * n):
        v = int(d)
        for w in (d, "-" + d):
            lines.append(("numeral " + w[:30], "(declare-const t (eo::requires %s %d Bool))" % (w, int(w))))
        if v:
            lines.append(("rational " + d[:30], "(declare-const t (eo::requires %s/%s 1/1 Bool))(declare-const t (eo::requires (eo::mul 1/%s %s/1) 1/1 Bool))" % (d, d, d, v)))
        lines.append(("decimal " + d[:30], "(declare-const t (eo::requires (eo::to_q 1.%s) (eo::qdiv %d %d) Bool))" % (d, int("1" + d), 10 ** len(d))))
        if set(d) <= {"0", "1"}:
            lines.append(("binary " + d[:30], "(declare-const t (eo::requires #b%s (eo::to_bin %d %d) Bool))" % (d, len(d), int(d, 2))))
        lines.append(("hex " + d[:30], "(declare-const t (eo::requires (eo::to_bin %d #x%s) (eo::to_bin %d %d) Bool))" % (4 * len(d), d, 4 * len(d), int(d, 16))))
for t in ("1/0", "0/0", "1/00", "-1/0", "10/000", "1.", "1./2", "1/2.", "#b", "#x", "#", "#b2", "#xg", "#B1", "#X1", "#d1", ":", ":1", "::", "1.a", "1/a", "1/-1", "1.-1"):
    cases.append(Case("reject token " + t, PRE + "(define t () (L nil) :type LT)\n(define t2 () (L %s ))\n" % t, "reject"))
c.part("numeric forms", 0, sum(count.values()) - nA)
for q in sorted(decs):
    lines.append(("canonical decimal %s" % q, "(declare-const t (eo::requires (eo::to_q %s) (eo::qdiv %s %s) Bool))(declare-const t (eo::requires (eo::is_q %s) false Bool))" % (text(("dec", q)), nat(q.numerator), nat(q.denominator), text(("dec", q)))))
for wd, v in sorted(hexs):
    lines.append(("canonical hex", "(declare-const t (eo::requires (eo::to_bin %d #x%s) (eo::to_bin %d %s) Bool))" % (wd, hex(v)[2:].rjust(wd // 4, "0"), wd, nat(v))))
# names: a symbol has exactly its characters
for nm in sorted(allnames):
    lines.append(("name %r" % nm, "(push)(declare-const |%s| U)(declare-const t (eo::requires (eo::nameof |%s|) %s Bool))(pop)" % (nm, nm, strx([ord(x) for x in nm]))))
# F: simple and quoted forms of a name are the same symbol, names that differ are different symbols, wherever they occur
NM = ["assume", "step", "declare-const", "include", "define", "a", "A", "a:b", "eo", "eo::foo", "x+y", "-", "--", "-a", "-1a", "+1", "1-".replace("1-", "m-1"), "<=", "=>", "a.b", ".", "..", "a!",
      "$x", "_a", "__", "~", "&", "^", "@", "%", "?", "*", "true1", "Bool1", "Types", "pars", "lets", "let1", "truE", "/", "/1", "1".replace("1", "b1")]
for nm in NM:
    assert scan(nm) == [("sym", nm)], nm
    for d, u in (("%s", "|%s|"), ("|%s|", "%s"), ("%s", "%s"), ("|%s|", "|%s|")):
        lines.append(("decl %s %s %s" % (nm, d, u), "(push)(declare-const %s U)(define s () %s)(declare-const t (eo::requires s %s Bool))"
                      "(declare-const t (eo::requires (eo::nameof s) \"%s\" Bool))(pop)" % (d % nm, u % nm, u % nm, nm)))
        lines.append(("prem %s %s %s" % (nm, d, u), "(push)(declare-const F Bool)(assume %s F)(step x F :rule same :premises (%s))(pop)" % (d % nm, u % nm)))
        lines.append(("var %s %s %s" % (nm, d, u), "(define t () (eo::define ((%s nil)) (L %s)) :type LT)(define t ((%s U)) %s :type (-> U U))" % (d % nm, u % nm, d % nm, u % nm)))
for nm in sorted(RESERVED) + ["assert", "(", ")", ";", "\"", "a b", " a", "a ", "", "1", "#b1", "-1", ":a", "a\nb", "\\", "a\\b", "''", "1.0", "--1/2"]:
    lines.append(("quoted %r" % nm, "(push)(declare-const |%s| U)(define s () |%s|)(declare-const t (eo::requires (eo::nameof s) %s Bool))"
                  "(assume |%s| true)(pop)" % (nm, nm, strx([ord(x) for x in nm]), nm)))
# names made from reserved words: a longer name is a name of its own
PARTS = sorted(RESERVED | {"true", "false"})
OPN = ["add", "and", "cmp", "concat", "cons", "define", "dt_constructors", "eq", "extract", "find", "gt", "hash", "is_bin", "is_bool", "is_eq", "is_neg", "is_ok", "is_q", "is_str", "is_var", "is_z", "ite", "len", "list_concat",
       "list_find", "list_len", "list_nth", "list_rev", "match", "mul", "nameof", "neg", "nil", "not", "or", "qdiv", "requires", "self", "to_bin", "to_q", "to_str", "to_z", "typeof", "var", "xor", "zdiv", "zmod", "List", "as"]
WORDS = set(OPN) | {"eo::" + w for w in OPN} | {"as", "_", "->", "Proof", "eo::Proof", "eo::List::cons", "eo::List::nil"}
TAIL = [x for x in SYM if x not in "|"]
longer = set()
for w in PARTS:
    for x in TAIL:
        longer |= {w + x, x + w} | {w + x + y for y in (w[-1], w[0], "a", ":", "1") for x in TAIL}
    for w2 in PARTS:
        longer |= {w + w2, w[:-1] + w2, w + w2[1:]}
    for i in range(1, len(w)):
        longer |= {w[:i], w[i:], w[:i] + w[i - 1] + w[i:], w[:i] + w[i + 1:], w[:i] + w[i].swapcase() + w[i + 1:]}
        longer |= {w[:i] + x + w[i:] for x in "aert:l1."}
    longer |= {w + x + y + z for x, y, z in itertools.product(sorted(set(w)), repeat=3)}
for w in OPN:
    longer |= {"eo::" + w + "1", "eo::" + w + "_", "eo::" + w[:-1], "eo:" + w, ":" .join(["eo", "", "", w]), "eo::" + w.upper(), "_eo::" + w, "Eo::" + w, "eo::" + w + w[-1], "eo::_" + w, "eo.." + w, "::".join(["eo", w, w]), w}
longer -= {x for x in longer if x.split("::")[-1] in OPN and x in WORDS and x.startswith("eo::")}
for w in sorted(longer):
    if w not in RESERVED | {"true", "false", "as", "_", "->"} and scan(w) == [("sym", w)]:
        lines.append(("longer than a reserved word %s" % w, "(push)(declare-const %s U)(define s () |%s|)(declare-const t (eo::requires (eo::nameof %s) \"%s\" Bool))(pop)" % (w, w, w, w)))
        count["name of a reserved word"] = count.get("name of a reserved word", 0) + 1
PRE2 = PRE + "(declare-rule same ((F Bool)) :premises (F) :conclusion F)\n"
for x, y in itertools.permutations(["a", "A", "aa", "a ", " a", "a.", "", "a:", "\ta", "a\n", "ab", "b", "\\u0061", "\\a", "\"a\"", "a;", "'a'"], 2):
    cases.append(Case("distinct %r %r" % (x, y), PRE + "(declare-const |%s| U)\n(define t () (L |%s|))\n" % (x, y), "reject"))
# C: every byte value, in every lexical context
for b in range(256):
    ch = chr(b)

    def bcase(key, txt, expect):
        cases.append(Case("byte %d %s" % (b, key), None, expect, files={"c.eo": (PRE + txt).encode("latin-1")}, argv=["c.eo"]))
    okstr = 32 <= b < 127 or b in (9, 10, 13)
    if b != 34:
        bcase("in string", '(declare-const t (eo::requires "a%sb" (eo::concat "a" (eo::to_str %d) "b") Bool))\n' % (ch, b), "correct" if okstr else "reject")
        bcase("string alone", '(declare-const t (eo::requires "%s" (eo::to_str %d) Bool))\n' % (ch, b), "correct" if okstr else "reject")
    if b != 124:
        bcase("in quoted", '(declare-const |a%sb| U)\n(declare-const t (eo::requires (eo::nameof |a%sb|) (eo::concat "a" (eo::to_str %d) "b") Bool))\n' % (ch, ch, b), "correct")
        bcase("quoted differs", '(declare-const |a%sb| U)\n(define t () |a%sc|)\n' % (ch, ch), "reject")
        bcase("quoted differs from prefix", '(declare-const |a%sb| U)\n(define t () |a|)\n' % ch, "reject")
        bcase("quoted differs from empty", '(declare-const |a%sb| U)\n(define t () ||)\n' % ch, "reject")
        bcase("quoted alone", '(declare-const |%s| U)\n(declare-const t (eo::requires (eo::nameof |%s|) (eo::to_str %d) Bool))\n' % (ch, ch, b), "correct")
    if b != 10:
        bcase("in comment", ";a%sb (((\"|\n(declare-const x U)\n;%s\n(declare-const y U);%s" % (ch, ch, ch), "correct")
    else:
        bcase("ends comment", ";a%s(define t () b)\n" % ch, "reject")
    if ch in WS:
        bcase("white space", "(declare-const%sx%sU)%s(define%st%s()%s(L%sx%snil%s)%s:type%sLT%s)%s" % ((ch,) * 13), "correct")
    elif ch not in "();\"|#:":
        e = "correct" if ch in SYM else "reject"
        bcase("inside a symbol", '(declare-const a%sb U)\n(declare-const t (eo::requires (eo::nameof |a%sb|) (eo::concat "a" (eo::to_str %d) "b") Bool))\n' % (ch, ch, b), e)
        bcase("starting a symbol", '(declare-const %sb U)\n(define t () |%sb|)\n' % (ch, ch), "correct" if ch in START else "reject")
        if ch not in DIG and ch not in "LUa":
            bcase("between tokens", '(declare-const a U)\n(define t () (L a %s nil))\n' % ch, "reject")
        bcase("between commands", '(declare-const a U)\n%s\n(declare-const b U)\n' % ch, "reject")
        bcase("at the end", '(declare-const a U)\n%s' % ch, "reject")
        if ch not in "bx":
            bcase("after #", '(define t () (L nil))(define t2 () (L #%s))\n' % ch, "reject")
        if ch not in START:
            bcase("after :", '(define t () nil :type LT)(define t2 () nil :%s LT)\n' % ch, "reject")
        if ch not in "01":
            bcase("first bit", '(define t () (L nil))(define t2 () (L #b%s))\n' % ch, "reject")
        if ch not in "0123456789abcdefABCDEF":
            bcase("first hex digit", '(define t () (L nil))(define t2 () (L #x%s))\n' % ch, "reject")
        if ch not in DIG:
            bcase("after .", '(define t () (L nil))(define t2 () (L 1.%s))\n' % ch, "reject")
            bcase("after /", '(define t () (L nil))(define t2 () (L 1/%s))\n' % ch, "reject")
    c.st(("byte", b))
# D: positions relative to the buffer, long tokens
BUF = 32768
NA = len(cases)
TOK = ["a", "abcde", "|a b|", "||", "12", "-12", "1.50", "-1.5", "1/2", "#b0110", "#xaF", '"ab"', '"a""b"', '"\\u{41}"', '"a\nb"', "; c\n 1", ";x\n;y\na", "nil", "-", "a:b", '""', '""""']
OFF = range(-14, 4) if not TH else range(-24, 10)
SPRE = PRE + "(declare-const |a| U)(declare-const |abcde| U)(declare-const |a b| U)(declare-const || U)(declare-const |-| U)(declare-const |a:b| U)\n"
NAMES = ["a", "abcde", "a b", "", "-", "a:b"]
PADS = [lambda n: " " * n, lambda n: ";" + "x" * (n - 2) + "\n" if n >= 2 else " " * n, lambda n: ("\n" * (n // 2)).ljust(n), lambda n: ('(echo "%s")' % ("x" * (n - 10))).ljust(n) if n > 20 else " " * n]


def expected(toks):
    r = "nil"
    for t in reversed(toks):
        v = "|%s|" % t[1] if t[0] == "sym" else value(t, [])
        r = "(_ L %s %s)" % (v, r)
    return r


for bufs in (1, 2) if TH else (1,):
    for tk in TOK:
        toks = [("sym", "nil")] if tk == "nil" else scan(tk)
        for off in OFF:
            for pi, pad in enumerate(PADS):
                if not TH and pi > 1:
                    continue
                head = "(declare-const t (eo::requires (L "
                fill = bufs * BUF + off - len(SPRE)
                for where in (0, 1):
                    # the token begins at `off` relative to the boundary
                    if where == 0:
                        if pi == 3:
                            continue
                        body = SPRE + head + pad(fill - len(head)) + tk
                    else:
                        body = SPRE + pad(fill - len(head)) + head + tk
                    assert body.index(tk, len(body) - len(tk)) == bufs * BUF + off
                    body += "\n) " + expected(toks) + " Bool))\n"
                    cases.append(Case("at %d pad %d %d: %s" % (off, pi, where, tk), body, "correct"))
                    if where == 1 and pi == 0:
                        b2 = body.replace(PRE, "")
                        b2 = '(include "sig.eo")\n(assume z (eqb (L ' + tk + "\n) " + expected(toks).replace("eo::", "eo::") + "))\n"
        c.st((tk, "buffer"))
for n in [1, 2, 3, 31, 32, 33, 255, 256, 257, 4095, 4096, 32766, 32767, 32768, 32769, 65535, 65536, 65537, 100000]:
    s = "a" * n
    q = [97] * n
    forms = [("symbol", "(declare-const %s U)(declare-const t (eo::requires (eo::nameof |%s|) %s Bool))" % (s, s, strx(q))),
             ("quoted", "(declare-const |%s| U)(declare-const t (eo::requires (eo::nameof %s) %s Bool))" % (s, s, strx(q))),
             ("string", "(declare-const t (eo::requires \"%s\" %s Bool))" % (s, strx(q))),
             ("quotes", "(declare-const t (eo::requires (eo::len \"%s\") %d Bool))" % ('""' * n, n)),
             ("comment", ";%s\n(declare-const x U)(define y () x);%s" % (s, s)), ("space", "(declare-const%sx%sU)" % (" " * n, "\n" * n)),
             ("binary", "(declare-const t (eo::requires (eo::len #b%s) %d Bool))" % ("1" * n, n)),
             ("hex", "(declare-const t (eo::requires (eo::len (eo::concat (eo::to_bin %d #x%s) #b1)) %d Bool))" % (4 * n, "f" * n, 4 * n + 1)),
             ("numeral", "(declare-const t (eo::requires (eo::add %s 1) 1%s Bool))" % ("9" * n, "0" * n)),
             ("zeros", "(declare-const t (eo::requires %s7 7 Bool))" % ("0" * n)), ("keyword", "(define t () nil :type LT)(set-info :%s x)" % s if False else ""),
             ("decimal", "(declare-const t (eo::requires 1.5%s 1.5 Bool))" % ("0" * n)), ("nesting", "")]
    for k, tx in forms:
        if tx:
            for lead in (0, 1, BUF - len(PRE) - 3) if not TH else range(0, 40):
                cases.append(Case("length %d %s lead %d" % (n, k, lead), PRE + " " * lead + tx + "\n", "correct"))
    cases.append(Case("length %d differs" % n, PRE + "(declare-const %s U)(define t () %sb)" % (s, s[1:]), "reject"))
    cases.append(Case("length %d prefix" % n, PRE + "(declare-const %sb U)(define t () %s)" % (s, s), "reject"))
    cases.append(Case("length %d extension" % n, PRE + "(declare-const %s U)(define t () %sa)" % (s, s), "reject"))
c.part("positions and lengths", 0, len(cases) - NA)
# the same scanner applies to standard input
SIG = PRE.replace("LT)", "LT)") + "(declare-const P (-> LT LT Bool))\n(declare-rule chk ((x LT)) :premises ((P x x)) :conclusion true)\n"
SIG += "".join("(declare-const |%s| U)" % n for n in NAMES) + "(define hole () nil)\n"
for tk in TOK:
    toks = [("sym", "nil")] if tk == "nil" else scan(tk)
    toks = [("rat", t[1]) if t[0] == "dec" else ("bin",) + t[1:] if t[0] == "hex" else t for t in toks]
    e = "nil"
    for t in reversed(toks):
        e = "(_ L %s %s)" % ("|%s|" % t[1] if t[0] == "sym" else value(t, []), e)
    for lead in (0, 1, 7, BUF - 60, BUF - 59, BUF - 58, BUF - 57):
        body = '(include "sig.eo")\n' + " " * lead + "(assume z (P (L " + tk + "\n) " + e + "))(step s true :rule chk :premises (z))"
        cases.append(Case("stdin %d %s" % (lead, tk), None, "correct", files={"sig.eo": SIG}, stdin=body))
        cases.append(Case("proof file %d %s" % (lead, tk), None, "correct", files={"sig.eo": SIG, "p.smt3": body}, argv=["p.smt3"]))
        bad = body.replace("(P (L ", "(P (L hole ")
        cases.append(Case("stdin bad %d %s" % (lead, tk), None, "reject", files={"sig.eo": SIG}, stdin=bad))
        cases.append(Case("proof file bad %d %s" % (lead, tk), None, "reject", files={"sig.eo": SIG, "p.smt3": bad}, argv=["p.smt3"]))
# not accepted for something else
for tk, other in itertools.permutations(["1", "2", "01", "1.0", "1/1", "#b1", "#b01", "#x1", "#x01", '"1"', '"01"', "|1|", '""', "||", "-1", "1.10", "11/10", "1.01", "#b0", "#x0", "0", '"\\u{31}"', '"#b1"', '"1.0"', "a", '"a"', '"A"', "A"], 2):
    x, y = scan(tk), scan(other)
    if x != y:
        cases.append(Case("%s is not %s" % (tk, other), PRE + "(declare-const |1| U)(declare-const || U)(declare-const a U)(declare-const A U)(declare-const t (eo::requires %s %s Bool))\n" % (tk, other), "reject"))
c.bounds += ["every text of up to %d characters over the lexical alphabet" % (5 if TH else 4), "every byte value in %d contexts" % 20,
             "tokens at offsets %d..%d of the buffer boundary, token lengths up to 100000" % (OFF[0], OFF[-1])]
if __name__ == "__main__":
    print(count, len(lines), len(cases))
    for i in range(0, len(lines), max(1, len(lines) // 10)):
        c.sample(lines[i][1])
    c.positive(PRE2, lines, chunk=400)
    c.run(cases)
    c.finish()
