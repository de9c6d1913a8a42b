"""Reference semantics of the literal operations, written from the user manual
(sections Boolean / Arithmetic / String / Conversion operators), over Python
integers, fractions and lists. Literals are tuples:
 ('num', int) ('rat', Fraction) ('dec', Fraction) ('bin', width, value)
 ('hex', width, value) ('str', tuple of code points) ('bool', bool)
An operation yields a literal, None (it does not evaluate), or SKIP where the
documentation does not settle the result."""
from fractions import Fraction as F

SKIP = "skip"


def num(n): return ("num", n)
def rat(p, q=1): return ("rat", F(p, q))
def dec(p, q=1): return ("dec", F(p, q))
def bv(w, v): return ("bin", w, v % (1 << w) if w < 5000 else v)
def hx(w, v): return ("hex", w, v % (1 << w))
def st(s): return ("str", tuple(ord(c) if isinstance(c, str) else c for c in s))
def bo(b): return ("bool", bool(b))


def text(l):
    """Concrete syntax of the literal."""
    k = l[0]
    if k == "num":
        return str(l[1])
    if k == "rat":
        return "%d/%d" % (l[1].numerator, l[1].denominator)
    if k == "dec":
        q = l[1].denominator
        p = l[1].numerator
        n = 0
        while q != 1:
            assert q % 2 == 0 or q % 5 == 0
            p, q, n = p * 10, q, n + 1
            f = F(p, q)
            p, q = f.numerator, f.denominator
        # p / 10^n
        if n == 0:
            return "%d.0" % p
        s = str(abs(p)).rjust(n + 1, "0")
        return ("-" if p < 0 else "") + s[:-n] + "." + s[-n:]
    if k == "bin":
        if l[1] == 0:
            return "(eo::to_bin 0 0)"
        return "#b" + bin(l[2])[2:].rjust(l[1], "0")
    if k == "hex":
        assert l[1] % 4 == 0 and l[1] > 0
        return "#x" + hex(l[2])[2:].rjust(l[1] // 4, "0")
    if k == "str":
        return '"' + "".join(schar(c) for c in l[1]) + '"'
    if k == "bool":
        return "true" if l[1] else "false"
    raise ValueError(l)


def schar(c):
    if c == 34:
        return '""'
    if c == 92 or c < 32 or c > 126:
        return "\\u{%x}" % c
    return chr(c)


ARITH = ("num", "rat", "dec")
BITS = ("bin", "hex")


def op(name, a):
    """a: list of literals"""
    k = a[0][0]
    same = all(x[0] == k for x in a)
    bits = k in BITS and same
    samew = bits and all(x[1] == a[0][1] for x in a)
    if name in ("and", "or", "xor"):
        if not same:
            return None
        if k == "bool":
            f = {"and": lambda x, y: x and y, "or": lambda x, y: x or y,
                 "xor": lambda x, y: x != y}[name]
            r = a[0][1]
            for x in a[1:]:
                r = f(r, x[1])
            return bo(r)
        if samew:
            f = {"and": lambda x, y: x & y, "or": lambda x, y: x | y,
                 "xor": lambda x, y: x ^ y}[name]
            r = a[0][2]
            for x in a[1:]:
                r = f(r, x[2])
            return (k, a[0][1], r)
        return None
    if name == "not":
        if k == "bool":
            return bo(not a[0][1])
        if bits:
            return (k, a[0][1], (1 << a[0][1]) - 1 - a[0][2])
        return None
    if name in ("add", "mul"):
        f = (lambda x, y: x + y) if name == "add" else (lambda x, y: x * y)
        if same and k in ARITH:
            r = a[0][1]
            for x in a[1:]:
                r = f(r, x[1])
            return (k, r)
        if samew:
            r = a[0][2]
            for x in a[1:]:
                r = f(r, x[2])
            return (k, a[0][1], r % (1 << a[0][1]))
        return None
    if name == "neg":
        if k in ARITH:
            return (k, -a[0][1])
        if k in BITS:
            return (k, a[0][1], -a[0][2] % (1 << a[0][1]))
        return None
    if name == "qdiv":
        if same and k in ARITH and a[1][1] != 0:
            return ("rat", F(a[0][1]) / F(a[1][1]))
        if samew:
            return SKIP
        return None
    if name in ("zdiv", "zmod"):
        if same and k == "num":
            x, y = a[0][1], a[1][1]
            if y == 0:
                return None
            # quotient and remainder with 0 <= remainder < |divisor|; it is
            # the floor for positive divisors
            r = x % abs(y)
            q = (x - r) // y
            return num(q if name == "zdiv" else r)
        if samew:
            w, x, y = a[0][1], a[0][2], a[1][2]
            if y == 0:
                return (k, w, (1 << w) - 1 if name == "zdiv" else x)
            return (k, w, x // y if name == "zdiv" else x % y)
        return None
    if name == "is_neg":
        return bo(a[0][1] < 0) if k in ARITH else None
    if name == "gt":
        if same and k in ARITH:
            return bo(a[0][1] > a[1][1])
        return SKIP if bits else None
    if name == "len":
        if k == "bin":
            return num(a[0][1])
        if k == "str":
            return num(len(a[0][1]))
        return None
    if name == "concat":
        if not same:
            return None
        if k == "bin" or k == "hex":
            w, v = 0, 0
            for x in a:
                w, v = w + x[1], (v << x[1]) | x[2]
            return (k, w, v)
        if k == "str":
            return ("str", sum((x[1] for x in a), ()))
        return None
    if name == "extract":
        if a[1][0] != "num" or a[2][0] != "num":
            return None
        lo, hi = a[1][1], a[2][1]
        if k == "hex":
            return SKIP
        if k == "bin":
            w, v = a[0][1], a[0][2]
            if lo < 0 or lo > hi or lo >= w:
                return bv(0, 0)
            hi = min(hi, w - 1)
            return bv(hi - lo + 1, v >> lo)
        if k == "str":
            s = a[0][1]
            if lo < 0 or lo > hi:
                return st("")
            return ("str", s[lo:hi + 1])
        return None
    if name == "find":
        if k == "str" and same:
            s, t = a[0][1], a[1][1]
            for i in range(len(s) - len(t) + 1):
                if s[i:i + len(t)] == t:
                    return num(i)
            return num(-1)
        return None
    if name == "to_z":
        if k == "num":
            return a[0]
        if k == "rat":
            return num(a[0][1].numerator // a[0][1].denominator)
        if k == "dec":
            return SKIP
        if k == "bin":
            return num(a[0][2])
        if k == "str" and len(a[0][1]) == 1:
            return num(a[0][1][0])
        return None
    if name == "to_q":
        if k == "rat":
            return a[0]
        if k == "num":
            return ("rat", F(a[0][1]))
        return SKIP if k == "dec" else None
    if name == "to_bin":
        if k != "num" or not 0 <= a[0][1] < 1 << 32:
            return None
        w = a[0][1]
        if a[1][0] == "hex":
            return SKIP
        if a[1][0] == "bin":
            return bv(w, a[1][2])
        if a[1][0] == "num":
            return bv(w, a[1][1]) if a[1][1] >= 0 else SKIP
        return None
    if name == "to_str":
        if k == "str":
            return a[0]
        if k == "num":
            return ("str", (a[0][1],)) if 0 <= a[0][1] <= 196607 else None
        if k == "rat":
            return st(text(a[0]))
        if k == "bin":
            return st("#b" + text(a[0])[2:]) if a[0][1] else SKIP
        if k == "hex":
            return st(text(a[0]))
        if k == "dec":
            if a[0][1].denominator == 1:
                return SKIP
            return st("%d/%d" % (a[0][1].numerator, a[0][1].denominator))
        return None
    if name in ("is_z", "is_q", "is_bin", "is_str", "is_bool"):
        return bo({"is_z": "num", "is_q": "rat", "is_bin": "bin", "is_str": "str",
                   "is_bool": "bool"}[name] == k)
    if name in ("eq", "is_eq"):
        return bo(a[0] == a[1])
    raise ValueError(name)


ARITY = {"and": 2, "or": 2, "xor": 2, "not": 1, "add": 2, "mul": 2, "neg": 1, "qdiv": 2,
         "zdiv": 2, "zmod": 2, "is_neg": 1, "gt": 2, "len": 1, "concat": 2, "extract": 3,
         "find": 2, "to_z": 1, "to_q": 1, "to_bin": 2, "to_str": 1, "is_z": 1, "is_q": 1,
         "is_bin": 1, "is_str": 1, "is_bool": 1, "eq": 2, "is_eq": 2}
NARY = ("and", "or", "xor", "add", "mul", "concat")
