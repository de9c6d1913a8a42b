"""The grammar of commands (user manual, "Full syntax"): malformed(text, mode)
says whether some command of the text, before the first exit, surely is not in
the grammar. Terms are judged only for being there: a term is an atom that is
no keyword or a list that is not empty."""
import re
from mc.corpus import lexemes

NUM = re.compile(r"-?[0-9]+([./][0-9]+)?\Z")
CATS = {"<numeral>", "<decimal>", "<rational>", "<binary>", "<hexadecimal>", "<string>"}


def trees(text):
    """-> the top-level s-expressions, or None when it is no sequence of them"""
    st = [[]]
    try:
        ts = lexemes(re.sub(r';[^\n"|]*(\n|\Z)', r"\1", text))
    except ValueError:
        return None
    for t in ts:
        if t == "(":
            st.append([])
        elif t == ")":
            if len(st) == 1:
                return None
            x = st.pop()
            st[-1].append(x)
        else:
            st[-1].append(t)
    return st[0] if len(st) == 1 else None


def kw(t):
    return isinstance(t, str) and t.startswith(":")


def sym(t):
    return isinstance(t, str) and not kw(t) and t[0] not in '"#' and not NUM.match(t)


def term(t):
    return t != [] if isinstance(t, list) else not kw(t)


def numeral(t):
    return isinstance(t, str) and t.isdigit()


def string(t):
    return isinstance(t, str) and t.startswith('"')


def attrs(ts):
    """(keyword term?)*"""
    prev = False
    for t in ts:
        if kw(t):
            prev = True
        elif prev and term(t):
            prev = False
        else:
            return False
    return True


def params(t):
    return isinstance(t, list) and all(isinstance(p, list) and len(p) >= 2 and sym(p[0]) and term(p[1]) and attrs(p[2:]) for p in t)


def terms(t):
    return isinstance(t, list) and all(map(term, t))


def pairs(t):
    return isinstance(t, list) and all(isinstance(p, list) and len(p) == 2 and terms(p) for p in t)


def field(ts, name, *ok):
    """removes an optional field; -> False when it is there and malformed"""
    if ts and ts[0] == name:
        if len(ts) <= len(ok) or not all(f(x) for f, x in zip(ok, ts[1:])):
            return False
        del ts[:len(ok) + 1]
    return True


def dtdec(t, par=True):
    if par and isinstance(t, list) and len(t) == 3 and t[0] == "par":
        return isinstance(t[1], list) and t[1] and all(map(sym, t[1])) and dtdec(t[2], False)
    return isinstance(t, list) and t and all(isinstance(k, list) and k and sym(k[0]) and all(isinstance(s, list) and len(s) == 2 and sym(s[0]) and term(s[1]) for s in k[1:]) for k in t)


def step(a):
    if not a or not sym(a[0]):
        return False
    a = a[1:]
    if a and term(a[0]):
        a = a[1:]
    return a[:1] == [":rule"] and field(a, ":rule", sym) and field(a, ":premises", terms) and field(a, ":args", terms) and not a


def rule(a):
    if len(a) < 2 or not sym(a[0]) or not params(a[1]):
        return False
    a = a[2:]
    if not field(a, ":assumption", term):
        return False
    if a and a[0] == ":premise-list":
        if not field(a, ":premise-list", term, term):
            return False
    elif not field(a, ":premises", terms):
        return False
    return field(a, ":args", terms) and field(a, ":requires", pairs) and len(a) > 1 and a[0] in (":conclusion", ":conclusion-explicit") and term(a[1]) and attrs(a[2:])


def program(a):
    return len(a) in (5, 6) and sym(a[0]) and params(a[1]) and a[2] == ":signature" and isinstance(a[3], list) and a[3] and all(map(term, a[3])) and term(a[4]) and (len(a) == 5 or pairs(a[5]) and bool(a[5]))


def common(cm, a):
    n = len(a)
    return {"declare-const": lambda: n >= 2 and sym(a[0]) and term(a[1]) and attrs(a[2:]),
            "declare-datatype": lambda: n == 2 and sym(a[0]) and dtdec(a[1]),
            "declare-datatypes": lambda: n == 2 and isinstance(a[0], list) and isinstance(a[1], list) and len(a[0]) == len(a[1]) and all(isinstance(s, list) and len(s) == 2 and sym(s[0]) and numeral(s[1]) for s in a[0]) and all(map(dtdec, a[1])),
            "declare-sort": lambda: n == 2 and sym(a[0]) and numeral(a[1]),
            "echo": lambda: n == 0 or n == 1 and string(a[0]),
            "exit": lambda: n == 0, "reset": lambda: n == 0,
            "set-option": lambda: n == 2 and isinstance(a[0], str) and (kw(a[0]) or sym(a[0])),
            "push": lambda: n == 0 or n == 1 and numeral(a[0]), "pop": lambda: n == 0 or n == 1 and numeral(a[0])}.get(cm)


def eunoia(cm, a):
    n = len(a)
    return {"assume": lambda: n == 2 and sym(a[0]) and term(a[1]), "assume-push": lambda: n == 2 and sym(a[0]) and term(a[1]),
            "declare-consts": lambda: n == 2 and a[0] in CATS if n and isinstance(a[0], str) else False,
            "declare-parameterized-const": lambda: n >= 3 and sym(a[0]) and params(a[1]) and term(a[2]) and attrs(a[3:]),
            "declare-rule": lambda: rule(list(a)), "define": lambda: n >= 3 and sym(a[0]) and params(a[1]) and term(a[2]) and attrs(a[3:]),
            "include": lambda: n == 1 and string(a[0]), "reference": lambda: n in (1, 2) and string(a[0]) and term(a[-1]),
            "program": lambda: program(list(a)), "step": lambda: step(list(a)), "step-pop": lambda: step(list(a))}.get(cm)


def smtlib(cm, a):
    n = len(a)
    return {"assert": lambda: n == 1 and term(a[0]), "check-sat": lambda: n == 0, "check-sat-assuming": lambda: n == 1 and terms(a[0]),
            "declare-fun": lambda: n >= 3 and sym(a[0]) and terms(a[1]) and term(a[2]) and attrs(a[3:]),
            "define-const": lambda: n in (2, 3) and sym(a[0]) and all(map(term, a[1:])), "define-fun": lambda: n == 4 and sym(a[0]) and params(a[1]) and term(a[2]) and term(a[3]),
            "define-sort": lambda: n == 3 and sym(a[0]) and isinstance(a[1], list) and all(map(sym, a[1])) and term(a[2]),
            "set-info": lambda: n in (1, 2) and kw(a[0]), "set-logic": lambda: n == 1 and sym(a[0])}.get(cm)


def malformed(text, mode="eo"):
    ts = trees(text)
    if ts is None:
        return None
    for t in ts:
        if not isinstance(t, list) or not t or not isinstance(t[0], str):
            return "not a command: %s" % (t,)
        f = common(t[0], t[1:]) or (smtlib if mode == "ref" else eunoia)(t[0], t[1:])
        if f is None:
            return "unknown command %s" % t[0]
        if not f():
            return "malformed command %s" % (t,)
        if t[0] == "exit":
            return None
    return None
