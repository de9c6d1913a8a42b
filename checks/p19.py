"""P19: robustness. The input model is the set of all texts and option lists
reachable by a bounded number of edits from a corpus that covers the language,
all short token sequences in every command, all applications of every built-in
operator to all kinds of terms, and all byte values in all lexical contexts.
Every such input is run on the checker built with its internal assertions,
library assertions and memory/undefined-behaviour sanitizers; the run must end
with a verdict or an error message, and must not accept incomplete text."""
import itertools
import re
import sys
from mc import engine
from mc import grammar
from mc import scale
from mc.engine import Case
from mc.corpus import SIG, BODY, SIGS, REFS, lexemes, commands, join

c = engine.Check("P19")
TH = c.thorough
last = [0, 0, 0]
ONLY = [a[2:] for a in sys.argv if a.startswith("-o")]


def part(name):
    c.part(name, 0, 0)
    n = len(c.seen)
    c.parts[name] = dict(states=n - last[0], transitions=c.transitions - last[1], traces=c.traces - last[2])
    last[:] = [n, c.transitions, c.traces]


# messages that are about the run, not about a place in the text
NOPOS = re.compile("Couldn't open file|Error reading the input|setTypeRule: cannot set type rule|cannot get type rule|Error: unrecognized option|Error: mulitple files|"
                   "Error: cannot include file|Error: no input specified|did not preserve assumption scope|Including file|Error: Missing trace tag|tracing not enabled|popScope")
INTERNAL = re.compile("Unknown kind for mkLiteral|Cannot convert literal to string")
POS = re.compile(r"Error: [^\n]*?:\d+\.\d+: ")


def judge(must):
    def f(v, out):
        if v.startswith("crash") or v in ("timeout", "no-verdict"):
            return v
        if v == "reject":
            if INTERNAL.search(out):
                return "an internal error: " + INTERNAL.search(out).group(0)
            if not POS.search(out) and not NOPOS.search(out):
                return "rejected without a located error message"
            return None
        return "incomplete text is accepted" if must else None
    return f


J = {True: judge(True), False: judge(False)}


def incomplete(text):
    """is the text cut inside a command or lexeme? None when it does not matter
    (an exit command could end the input before)"""
    depth, i, n = 0, 0, len(text)
    while i < n:
        ch = text[i]
        if ch == ";":
            i = text.find("\n", i)
            if i < 0:
                break
        elif ch == "|":
            i = text.find("|", i + 1)
            if i < 0:
                return True
        elif ch == '"':
            while True:
                i = text.find('"', i + 1)
                if i < 0:
                    return True
                if text[i + 1:i + 2] == '"':
                    i += 1
                    continue
                break
        elif ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
            if depth < 0:
                return True
        i += 1
    return depth != 0


def badref(t):
    return incomplete(t) and "(exit" not in t or bool(grammar.malformed(t, "ref"))


class Batch:
    def __init__(self, name, kinds):
        self.name = name
        self.skip = bool(ONLY) and not any(o in name for o in ONLY)
        self.kinds = kinds
        self.cases = []
        self.keys = set()

    def add(self, key, text, files=None, argv=None, name="c.eo", must=None, stdin=None, own=None):
        if self.skip:
            return
        full = (text, name, tuple(argv or ()), stdin, tuple((files or {}).items()) if not isinstance(text, str) or files else None)
        h = hash(full)
        if h in self.keys:
            return
        self.keys.add(h)
        c.st(h)
        c.tr()
        if must is None:
            must = isinstance(text, str) and (incomplete(text) and "(exit" not in text or bool(grammar.malformed(own if own is not None else text[len(SIG):] if text.startswith(SIG) else text)))
        self.cases.append(Case(key, text, J[bool(must)], files=files, argv=argv, name=name, stdin=stdin))

    def run(self, timeout=10.0):
        name = self.name
        if self.skip:
            return
        if self.cases:
            c.sample(repr(self.cases[len(self.cases) // 2].files)[-400:])
        for k in self.kinds:
            c.run(self.cases, k, timeout)
        part(name)
        if ONLY:
            print(name, len(self.cases))


QUICK = ("dbg",)
FULL = ("dbg", "asan")

# ------------------------------------------------------ 1. truncations
SIGC = commands(SIG)
b = Batch("truncations", FULL if TH else QUICK)
SCR = [("b:" + k, SIG, "\n".join(x) + "\n") for k, (x, v) in BODY.items()] + [("s:" + k, SIG, "\n".join(x) + "\n") for k, (x, v) in SIGS.items()]
for k, pre, t in SCR:
    for i in range(len(t) + 1):
        b.add("cut/%s/%d" % (k, i), pre + t[:i])
        b.add("head/%s/%d" % (k, i), pre + t[i:])
for i in range(len(SIG) + 1):
    b.add("cutsig/%d" % i, SIG[:i])
for k, (x, v) in REFS.items():
    t = "\n".join(x) + "\n"
    for i in range(len(t) + 1):
        b.add("cutref/%s/%d" % (k, i), '(include "s.eo")(reference "r.smt2")', files={"s.eo": SIG, "r.smt2": t[:i]}, name="m.p", argv=["m.p"], must=badref(t[:i]))
b.run()

# -------------------------------------------------------- 2. token edits
TOK = ["(", ")", "()", "((", "))", "p", "a", "f", "and", "or", "+", "=", "=>", "<", "distinct", "Int", "Type", "Bool", "true", "0", "1", "-1", "3", "99999999999999999999", "4294967296", "1.5", "1/2", "1/0", "#b", "#b0", "#xF",
       '"s"', '""', "x", "y", "zz", "|q|", ":args", ":list", ":implicit", ":requires", ":type", ":var", ":", "!", "_", "as", "let", "eo::List::cons", "eo::List::nil", "eo::List", "eo::self", "eo::add", "eo::requires", "eo::define",
       "eo::typeof", "eo::var", "eo::quote", "eo::match", "eo::Proof", "->", "forall", "lnil", "lcons", "ite", "$size", "$neg", "and_intro", "all_and", "ext", "as-empty", "par", "(p)", "(f a)", "(x Int)", "((x Int))", "(_ f a)", "(-> Int Int)", "(as lnil (Lst Int))", "(eo::add a 1)",
       "(eo::requires 0 1 a)", "(forall ((x Int)) p)", "(lambda ((x Int)) x)", "h", "s", "Lst", "(Lst Int)", "(BitVec 4)", "(BitVec a)", "(eo::typeof a)", "(eo::ite true)", "(! p)", "(! p :named)", "(let ((x p)) x)"]
TOK1 = TOK if TH else TOK[::5] + [")", "_", "as", "!", "eo::List::nil", "(f a)", "f", "0"]


def edits(ts, toks):
    for i in range(len(ts)):
        yield "del%d" % i, ts[:i] + ts[i + 1:]
        yield "dup%d" % i, ts[:i + 1] + ts[i:]
        if i + 1 < len(ts):
            yield "swap%d" % i, ts[:i] + [ts[i + 1], ts[i]] + ts[i + 2:]
        for q in toks:
            if q != ts[i]:
                yield "rep%d:%s" % (i, q), ts[:i] + [q] + ts[i + 1:]
        for q in toks if TH else toks[::3]:
            yield "ins%d:%s" % (i, q), ts[:i] + [q] + ts[i:]


b = Batch("token edits of commands", QUICK)
TAIL = "\n(assume @h (and p q))\n(step @s q :rule and_elim :premises (@h) :args (1))\n(step @r (= (+ a b 1) (f (+ a b))) :rule trust)\n(assume @g (forall ((x Int)) (< x a 3)))\n"
for k, (x, v) in list(BODY.items()) + list(SIGS.items()):
    for n, cm in enumerate(x):
        pre, post = "\n".join(x[:n]), "\n".join(x[n + 1:])
        for e, ts in edits(lexemes(cm), TOK1):
            b.add("edit/%s/%d/%s" % (k, n, e), SIG + pre + "\n" + join(ts) + "\n" + post)
b.run()
b = Batch("token edits of the signature", QUICK)
for n, cm in enumerate(SIGC):
    pre, post = "\n".join(SIGC[:n]), "\n".join(SIGC[n + 1:]) + TAIL
    for e, ts in edits(lexemes(cm), TOK1):
        b.add("sigedit/%d/%s" % (n, e), pre + "\n" + join(ts) + "\n" + post, own=join(ts))
b.run()
b = Batch("token edits of reference files", QUICK)
for k, (x, v) in REFS.items():
    for n, cm in enumerate(x):
        for e, ts in edits(lexemes(cm), TOK1):
            t = "\n".join(x[:n] + [join(ts)] + x[n + 1:])
            b.add("refedit/%s/%d/%s" % (k, n, e), '(include "s.eo")(reference "r.smt2")(assume h p)', files={"s.eo": SIG, "r.smt2": t}, name="m.p", argv=["m.p"], must=badref(t))
b.run()

# -------------------------------------- 3. short token sequences as commands
CMDS = ["assume", "assume-push", "check-sat", "check-sat-assuming", "assert", "declare-const", "declare-consts", "declare-datatype", "declare-datatypes", "declare-fun", "declare-parameterized-const", "declare-rule", "declare-sort", "define", "define-const",
        "define-fun", "define-sort", "echo", "exit", "include", "pop", "program", "push", "reference", "reset", "set-info", "set-logic", "set-option", "step", "step-pop", "nope", "", "(", "|assume|", ":a", "0", '"s"']
SHORT = ["p", "h", "zz", "0", "-1", "99999999999999999999", "1.5", "1/2", "#b01", '"s"', ":args", ":premises", ":rule", ":type", ":zz", "()", "(p)", "((x Int))", "(x Int)", "((x Int) (y x))", "((zz 0))", "((zz 1))", "(((c)))", "((c (s Int)))", "Int", "Bool", "and_intro", "trust", "$neg", "(f a)", "(", ")", "<numeral>", "<string>", "!", "_", "|", '"', ";"]
b = Batch("short commands", QUICK)
for cm in CMDS:
    for n in (0, 1, 2, 3) if TH else (0, 1, 2):
        for ts in itertools.product(SHORT, repeat=n):
            t = "(%s)" % " ".join((cm,) + ts)
            b.add("short/" + t, SIG + t + "\n(assume @h p)")
            if n < 2 or TH and n == 2:
                b.add("shortp/" + t, t, name="m.p", argv=["m.p"])
                b.add("shortr/" + t, "", files={"r.smt2": t, "s.eo": SIG}, name="m.p", argv=["--include=s.eo", "--reference=r.smt2", "m.p"], must=badref(t))
b.run()

# ------------------------------------------------- 3b. texts of literals
# every text that begins like a literal, where terms, numbers and names are read
b = Batch("texts of literals", QUICK)
texts = {"".join(x) for n in range(1, 6 if TH else 5) for x in itertools.product(["0", "1", "9", "/", ".", "-", "#b", "#x", "a"], repeat=n)}
texts |= {x.replace("Z", "0" * n) for n in range(1, 20) for x in ("1/Z", "Z/Z", "-1/Z", "1.Z", "Z.Z", "Z.5", "1/Z1", "Z", "-Z", "-Z/Z", "#bZ", "#xZ", "1/Z/1", "1/Z.1", "1.Z/Z")}
texts |= {'"%s"' % "".join(x) for n in range(0, 6 if TH else 5) for x in itertools.product(["\\", "u", "{", "}", "4", "\"\"", "g"], repeat=n)}
SLOTS = ["(declare-const x (eo::requires (eo::is_ok %s) true Bool))", "(declare-consts <numeral> Int)\n(declare-const s Bool)\n(push %s)\n(pop %s)", "(assume %s true)", "(echo %s)"]
for i, t in enumerate(sorted(texts)):
    for j, sl in enumerate(SLOTS if TH else SLOTS[:1] if i % 7 else SLOTS):
        if j == 1 and t.strip("0").isdigit() and int(t) > 1000:
            continue
        for name in ("c.eo", "m.p") if TH or not i % 7 else ("c.eo",):
            b.add("lit/%d/%s/%s" % (j, name, t), ("(declare-const Int Bool)\n" if name == "m.p" else "(declare-const Int Type)\n") + (sl.replace("%s", t)), name=name, argv=[name])
b.run()

# ---------------------- 4. built-in operators applied to every kind of term
PRE = SIG + """(declare-const y Int)
(program $fwd ((x Int)) :signature (Int) Int)
(program $loopless ((x Int)) :signature (Int) Int ((($loopless 0) 1)))
(define mac ((x Int)) (+ x 1))
(define mac0 () (and p q))
(declare-const dep (-> (! Int :var n) (BitVec n)))
(declare-datatypes ((Pr 2)) ((par (X Y) ((mk (fst X) (snd Y))))))
(declare-datatype E ((e1) (e2 (es E))))
(declare-const ov Int)
(declare-const ov (-> Int Int))
(declare-const ov (-> Bool Bool Bool))
"""
PRE = PRE.replace("(declare-const dep (-> (! Int :var n) (BitVec n)))\n", "(declare-parameterized-const dep ((n Int)) (BitVec n))\n")
ATOMS = ["true", "false", "0", "2", "-1", "99999999999999999999", "1/2", "1.5", "#b", "#b01", "#xF", '""', '"ab"', '"1"', "a", "p", "f", "and", "or", "+", "<", "distinct", "=", "=>", "Int", "Type", "Bool", "(-> Int Int)", "(Lst Int)", "Lst", "Array", "eo::List", "eo::List::cons", "eo::List::nil", "eo::Proof", "eo::self",
         "$size", "$fwd", "$loopless", "mac", "mac0", "dep", "lnil", "lcons", "(as lnil (Lst Int))", "ltail", "mk", "e1", "e2", "E", "Pr", "ov", "and_intro", "ext", "(ext 1 0)", "as-empty", "forall", "(and p q)", "(or p)", "(+ a b 1)", "(_ and p)", "(_ and p q)", "(forall ((x Int)) (= x a))",
         "(eo::List::cons a p)", "(eo::requires 0 1 a)", "(eo::add a 1)", "($size (+ a b))", "($fwd a)", "($loopless 1)", '(eo::var "v" Int)', "(eo::var \"v\" (eo::add 1 a))", "(f p)", "(a b)", "(dep 3)", "(dep a)", "(eo::quote a)", "(lcons 1 (as lnil (Lst Int)))", "(e2 e1)", "(lambda ((x Int)) x)", "eo::add", "eo::requires", "_", "->", "as", "eo::as", "eo::var", "eo::typeof",
         "(eo::typeof a)", "(eo::typeof (f p))", "(eo::nil and Bool)", "(eo::nil f)", "()", "(eo::define ((z a)) z)", "(let ((z a)) z)", "(! a :named nn)", "zz"]
OPS = re.findall(r'bindBuiltinEval\("([a-z_]+)"', open(engine.REPO + "/src/state.cpp").read()) or []
OPSK = """is_ok is_eq eq ite requires hash nameof typeof var cmp is_z is_q is_bin is_str is_bool is_var nil cons list_len list_concat list_nth list_find list_erase list_erase_all list_rev list_setof list_minclude list_meq list_diff list_inter
list_singleton_elim not and or xor add neg mul zdiv zmod qdiv is_neg to_z to_q to_bin to_str gt len concat extract find dt_constructors dt_selectors as""".split()
OPS = ["eo::" + o for o in OPSK + [o for o in OPS if o not in OPSK]]
HEADS = OPS + ["_", "->", "as", "!", "let", "eo::define", "eo::quote", "eo::match", "and", "or", "+", "<", "distinct", "=", "=>", "f", "ite", "Lst", "Array", "lcons", "lnil", "ltail", "$size", "$fwd", "$loopless", "mac", "mac0", "dep", "ext", "as-empty", "forall", "lambda", "concat", "eo::List::cons", "mk", "ov", "e2", "and_intro", "eo::self", "zz", "(_ and p)", "(as lnil (Lst Int))", "(f a)", "par", "Type", "0", '"s"']


def soft(name, terms, kinds, wrap, chunk=60):
    """terms usually accepted: many to a file; files that end in an error are
    redone with one term each"""
    if ONLY and not any(o in name for o in ONLY):
        return
    for kind in kinds:
        groups = [terms[i:i + chunk] for i in range(0, len(terms), chunk)]
        cs = [Case("%s/%s.." % (name, g[0]), PRE + "\n".join(wrap(t, i) for i, t in enumerate(g)) + "\n", "any") for g in groups]
        res = c.execute(cs, kind, 20.0)
        c.execs += len(cs)
        single = []
        for g, (v, o) in zip(groups, res):
            if v in ("correct", "incomplete"):
                c.traces += len(g)
                continue
            single += g
        c.run([Case("%s/%s" % (name, t), PRE + wrap(t, 0) + "\n", J[False]) for t in single], kind)
    for t in terms:
        c.st((name, t))
    c.tr(len(terms))
    part(name)
    if ONLY:
        print(name, len(terms))


W1 = lambda t, i: "(define d%d () %s)" % (i, t)
W2 = lambda t, i: "(declare-const d%d (eo::requires (eo::is_ok (eo::typeof %s)) (eo::is_ok (eo::typeof %s)) Bool))" % (i, t, t)
T1 = ["(%s %s)" % (h, a) for h in HEADS for a in ATOMS] + ["(%s)" % h for h in HEADS]
T2 = ["(%s %s %s)" % (h, a, d) for h in HEADS for a in ATOMS for d in ATOMS]
soft("operators, one argument", T1, FULL, W1)
soft("types of operators, one argument", T1, QUICK, W2)
soft("operators, two arguments", T2 if TH else ["(%s %s %s)" % (h, a, d) for h in HEADS for a in ATOMS[::3] for d in ATOMS[1::3]], QUICK, W1)
if TH:
    soft("types of operators, two arguments", T2, QUICK, W2)
A3 = ["true", "0", "2", "-1", "99999999999999999999", "#b01", '"ab"', "a", "p", "f", "and", "+", "Int", "Type", "eo::List::nil", "$size", "(and p q)", "(+ a b 1)", "(eo::requires 0 1 a)", "(as lnil (Lst Int))", "lnil", "(forall ((x Int)) (= x a))", "(eo::List::cons a p)", "zz", "()"]
A3q = A3 if TH else A3[::3]
soft("operators, three arguments", ["(%s %s)" % (h, " ".join(x)) for h in HEADS for x in itertools.product(A3q, repeat=3)], QUICK, W1)
T4 = ["(%s %s)" % (h, " ".join(x)) for h in HEADS for x in itertools.product(A3[1:12:4] if not TH else A3[::2], repeat=4)]
soft("operators, four arguments", T4, QUICK, W1)

# terms of every kind in every slot of every command
SL = ["(declare-const n %s)", "(declare-const n (-> %s Int))", "(declare-const n (-> Int %s))", "(declare-const n (-> Int Int Int) :right-assoc-nil %s)", "(declare-const n (-> Int Int Int) :left-assoc-nil %s)", "(declare-const n (-> Int Int Bool) :chainable %s)", "(declare-const n (-> Int Int Bool) :pairwise %s)",
      "(declare-const n (-> eo::List Bool Bool) :binder %s)", "(declare-const n (-> eo::List Bool Bool) :let-binder %s)", "(declare-const n (-> eo::List Bool Bool) :arg-list %s)", "(declare-parameterized-const n ((x %s)) Int)", "(declare-parameterized-const n ((x %s :opaque)) Int)", "(declare-parameterized-const n ((x %s :implicit)) (-> x Int))", "(declare-parameterized-const n ((x Int)) %s)",
      "(declare-parameterized-const n ((x Int :requires ((%s true)))) Int)", "(declare-consts <numeral> %s)", "(declare-consts <hexadecimal> %s)", "(declare-rule n ((x %s)) :conclusion true)", "(declare-rule n ((x Int)) :premises (%s) :conclusion true)", "(declare-rule n ((x Int)) :args (%s) :conclusion true)", "(declare-rule n ((x Int)) :assumption %s :conclusion true)", "(declare-rule n ((x Bool)) :premise-list x %s :conclusion true)",
      "(declare-rule n ((x Bool)) :premise-list %s and :conclusion true)", "(declare-rule n () :requires ((%s true)) :conclusion true)", "(declare-rule n () :conclusion %s)", "(declare-rule n () :conclusion-explicit %s)", "(define n () %s)", "(define n ((x Int)) %s)", "(define n ((x %s)) x)", "(define n () a :type %s)", "(define n () %s :type Int)", "(program n ((x %s)) :signature (Int) Int (((n x) x)))", "(program n ((x Int)) :signature (%s) Int (((n x) x)))",
      "(program n ((x Int)) :signature (Int) %s (((n x) x)))", "(program n ((x Int)) :signature (Int) Int (((n %s) x)))", "(program n ((x Int)) :signature (Int) Int (((n x) %s)))", "(program n ((x Int)) :signature (Int) Int ((%s x)))", "(assume n %s)", "(assume-push n %s)", "(step n %s :rule trust)", "(step n :rule trust :args (%s))", "(step n %s :rule lit :premises (%s))", "(step n :rule %s)", "(step n p :rule refl :args (%s))", "(step n p :rule and_elim :premises (@h) :args (%s))",
      "(step n p :rule trust :premises (%s))", "(step-pop n %s :rule scope)", "(declare-datatype n ((c (s %s))))", "(declare-datatype n ((%s)))", "(declare-datatypes ((n 0)) (((c (s %s)))))", "(declare-datatypes ((n 1)) ((par (X) ((c (s %s))))))", "(declare-datatypes ((n 1)) ((par (%s) ((c)))))", "(declare-sort n %s)", "(push %s)", "(pop %s)", "(set-option :normalize-num %s)", "(set-info :x %s)", "(set-logic %s)", "(echo %s)", "(include %s)", "(reference %s)", "(reference %s p)", "(check-sat %s)", "(reset %s)",
      "(assume n (forall ((x %s)) p))", "(assume n (forall ((x Int)) %s))", "(assume n (forall %s p))", "(assume n (forall (%s) p))", "(assume n (eo::define ((x %s)) p))", "(assume n (eo::define (%s) p))", "(assume n (! p :named %s))", "(assume n (! p %s))", "(assume n (as %s Bool))", "(assume n (as p %s))", "(assume n (= %s %s))", "(declare-const c (eo::requires %s %s Bool))", "(declare-const %s Int)", "(define %s () a)", "(declare-rule %s () :conclusion true)", "(program %s ((x Int)) :signature (Int) Int (((n x) x)))", "(assume %s p)", "(step %s p :rule trust)", "(%s)", "(%s p)"]
SATOMS = ATOMS + T1[::7] if TH else ATOMS + T1[::61]
b = Batch("every kind of term in every slot", FULL if TH else QUICK)
for s in SL:
    for a in SATOMS:
        b.add("slot/%s/%s" % (s, a), PRE + "(assume @h (and p q))\n" + s.replace("%s", a) + "\n(declare-const @after n)\n")
b.run()

# ----------------------------------------------- 5. bytes in lexical contexts
b = Batch("bytes in lexical contexts", FULL)
CTX = [b"%s", b"(declare-const a%sb Bool)", b"(declare-const %s Bool)", b"(declare-const |a%sb| Bool)", b"(echo \"a%sb\")", b"(echo \"a%s\")", b"(declare-const a Bool)%s(declare-const b Bool)", b"; comment %s\n(declare-const a Bool)", b"; comment %s", b"(define x () #%s1)", b"(define x () 1%s2)", b"(define x () 1.%s)", b"(define x () 1/%s)", b"(define x () -%s)",
       b"(define x () #b1%s)", b"(define x () #xA%s)", b"(define x () a :%s)", b"(set-option :%s true)", b"(define x () \"\\u{%s}\")", b"(define x () \"\\u%s\")", b"(define x () \"\\%s\")", b"(define x () \"\\u{4%s", b"%s(declare-const a Bool)", b"(declare-const a Bool)%s", b"(declare-const a Bool%s)"]
for n, x in enumerate(CTX):
    for k in range(256):
        for rep in (1,) if not TH else (1, 2, 3, 1000, 70000):
            if rep > 2 and n > 14 or rep == 70000 and k % 8:
                continue
            t = x.replace(b"%s", bytes([k]) * rep)
            b.add("byte/%d/%d/%d" % (n, k, rep), t, must=False)
            if rep == 1 and (TH or n < 6):
                b.add("bytein/%d/%d" % (n, k), None, files={}, argv=[], stdin=t, must=False)
b.run()

# sizes around the lexer's buffer
b = Batch("sizes of lexemes", FULL)
for n in [1, 2, 255, 256, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 20]:
    for x in ["(declare-const %s Bool)" % ("a" * n), "(declare-const |%s| Bool)" % ("a" * n), '(echo "%s")' % ("a" * n), " " * n + "(echo)", ";" + "c" * n, ";" + "c" * n + "\n(echo)", "(define x () #b%s)" % ("1" * n), "(define x () %s)" % ("9" * n), "(define x () 0.%s)" % ("9" * n), "(define x () 1/%s)" % ("3" * n), "(set-option :%s true)" % ("k" * n), "(" * min(n, 5000), ")" * min(n, 10), "(declare-const " + "a" * n, '(echo "' + "a" * n, "|" + "a" * n, "(echo" + "\n" * n + ")"]:
        b.add("size/%d/%s" % (n, x[:30]), x)
b.run()

# nesting
b = Batch("deep nesting", ("rel", "asan") if TH else ("rel",))
NEST = [10, 100, 1000] + ([3000, 10000, 20000, 50000] if TH else [5000])
for n in NEST:
    ap = lambda o, i, cl: o * n + i + cl * n
    for t in ["(define x () %s)" % ap("(f ", "a", ")"), "(assume x %s)" % ap("(not ", "p", ")"), "(declare-const x %s)" % ap("(Lst ", "Int", ")"), "(define x () %s)" % ap("(_ f ", "a", ")"), "(assume x %s)" % ap("(eo::define ((z p)) ", "z", ")"), "(assume x (and%s))" % (" p" * n), "(define x () %s)" % ap("(eo::add 1 ", "1", ")"),
              "(assume x %s)" % ap("(forall ((x Int)) ", "p", ")"), "(declare-const g %s)" % ap("(-> Int ", "Int", ")"), "(declare-const g (->%s Int))" % (" Int" * n), "(assume x %s)" % ap("(! ", "p", " :named h)"), "(define x () %s)" % ap("(lcons a ", "(as lnil (Lst Int))", ")"), "(define x () %s)" % ap("(eo::ite true ", "a", " b)"),
              "\n".join("(assume-push h%d p)" % i for i in range(n)) + "\n" + "\n".join("(step-pop :rule scope :premises (h0))".replace("(step-pop ", "(step-pop s%d " % i) for i in range(min(n, 3))), "\n".join("(push)" for i in range(n)) + "\n" + "\n".join("(pop)" for i in range(n)), "(define x () %s" % ap("(f ", "a", ""), "\n".join("(define z%d () (+ z%d z%d))" % (i + 1, i, i) for i in range(min(n, 60))).replace("z0 z0", "a a")]:
        b.add("nest/%d/%s" % (n, t[:25]), SIG + t, must=False)
b.run(timeout=30.0)

# -------------------------------------------------------------- 6. options
OPT = ["m.p", "n.p", "m.eo", "nope", "", "-", "--", "-t", "-v", "--help", "--show-config", "--stats", "--stats-all", "--stats-compact", "--no-stats", "--print-dag", "--no-print-dag", "--parse-let", "--no-parse-let", "--normalize-dec", "--no-normalize-num", "--normalize-hex", "--rule-sym-table", "--no-rule-sym-table",
       "--include=s.eo", "--include=", "--include=nope", "--include", "--include=m.p", "--include=.", "--reference=r.smt2", "--reference=", "--reference=nope", "--reference", "--reference=m.p", "--nope", "--no-", "--no-no-stats", "--stats=1", "-x", "--include=s.eo,s.eo", ".", "/", "m.p ", " m.p", "\xff", "a" * 5000]
b = Batch("option lists", FULL)
OF = {"m.p": "(assume h p)", "n.p": "", "m.eo": "(declare-const a Bool)(assume h a)", "s.eo": SIG, "r.smt2": "(assert p)"}
for n in (0, 1, 2, 3) if TH else (0, 1, 2):
    for x in itertools.product(OPT if n < 3 else OPT[::2], repeat=n):
        b.add("opt/%r" % (x,), None, files=OF, argv=list(x), stdin="", must=False)


def optjudge(case):
    x = case.argv

    def f(v, out):
        if v == "reject" and {"-v", "-t"} & set(x):
            return None  # the message is behind the trace output
        if v == "no-verdict" and ({"--help", "--show-config"} & set(x)):
            return None
        return J[False](v, out)
    return f


for k in b.cases:
    k.expect = optjudge(k)
b.run()
c.bounds = ["every prefix and suffix of every corpus script", "one token edit (deletion, duplication, swap, replacement and insertion of %d tokens) at every position of every command of the corpus" % len(TOK1), "all commands of up to %d tokens out of %d" % (3 if TH else 2, len(SHORT)),
            "%d heads applied to all pairs of %d terms and all triples of %d" % (len(HEADS), len(ATOMS), len(A3q)), "%d command slots x %d terms" % (len(SL), len(SATOMS)), "256 byte values x %d contexts" % len(CTX), "nesting up to %d" % NEST[-1], "option lists up to length %d" % (3 if TH else 2)]
c.assumptions = ["stack exhaustion beyond the nesting bound is not judged", "memory errors are those the sanitizers detect"]
scale.safety(c)
c.finish()
