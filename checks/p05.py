"""P05: literal operations. Every operator on every tuple of literals from
exhaustive bounded sets (all bit-vectors of width <= W, all strings up to a
length over two letters, all small numbers) and boundary sets (word and limb
boundaries), compared with the reference semantics in mc/lits.py."""
import itertools
from fractions import Fraction as F
from mc import engine
from mc.lits import *

c = engine.Check("P05")
T = c.thorough

PRE = """(declare-const Int Type)
(declare-const Real Type)
(declare-const Dec Type)
(declare-const Str Type)
(declare-const Bin Type)
(declare-const Hex Type)
(declare-consts <numeral> Int)
(declare-consts <rational> Real)
(declare-consts <decimal> Dec)
(declare-consts <string> Str)
(declare-consts <binary> Bin)
(declare-consts <hexadecimal> Hex)
"""
for o, n in ARITY.items():
    tv = ["T", "S", "U"][:n]
    xs = ["x", "y", "z"][:n]
    PRE += "(program $%s (%s %s) :signature (%s) Type ((($%s %s) (eo::%s %s))))\n" % (
        o, " ".join("(%s Type)" % t for t in tv),
        " ".join("(%s %s)" % p for p in zip(xs, tv)), " ".join(tv), o, " ".join(xs),
        o, " ".join(xs))
for o in NARY:
    PRE += ("(program $%s3 ((T Type) (S Type) (U Type) (x T) (y S) (z U)) :signature (T S U) Type "
            "((($%s3 x y z) (eo::%s x y z))))\n" % (o, o, o))

lines = []
seen = set()
fam = {}


def add(o, args, family):
    args = list(args)
    key = (o, tuple(args))
    if key in seen:
        return
    seen.add(key)
    r = op(o, args)
    if r == SKIP:
        return
    ts = " ".join(text(a) for a in args)
    c.st(*args)
    if r is not None:
        c.st(r)
    pr = "$%s%s" % (o, "3" if o in NARY and len(args) == 3 else "")
    n = len(lines)
    if r is None:
        t = ("(declare-const a%d (eo::requires (eo::is_ok (eo::%s %s)) false Bool))\n"
             "(declare-const b%d (eo::requires (eo::is_ok (%s %s)) false Bool))"
             % (n, o, ts, n, pr, ts))
    else:
        e = text(r) if r[0] != "hex" or r[1] % 4 == 0 and r[1] else None
        if e is None:
            return
        t = ("(declare-const a%d (eo::requires (eo::%s %s) %s Bool))\n"
             "(declare-const b%d (eo::requires (%s %s) %s Bool))"
             % (n, o, ts, e, n, pr, ts, e))
    lines.append(("%s(%s)" % (o, ",".join(text(a) for a in args)), t))
    fam[family] = fam.get(family, 0) + 1
    if n % 9973 == 17:
        c.sample(t)


# the sets
N = 16 if T else 9
ints = list(range(-N, N + 1))
edges = []
for b in (8, 16, 31, 32, 33, 63, 64, 65, 127, 128):
    for d in (-1, 0, 1):
        edges += [(1 << b) + d, -(1 << b) + d]
edges += [10 ** 19, 10 ** 38, 3 ** 100, -7 ** 60, 196607, 196608, 55296, 1114111]
nums = [num(i) for i in ints + edges]
snums = [num(i) for i in ints]
D = (1, 2, 3, 4, 5, 6, 7, 9) if T else (1, 2, 3, 4, 7)
rats = sorted({F(p, q) for p in range(-5, 6) for q in D} |
              {F(e, q) for e in ((1 << 32) + 1, (1 << 64) - 1, -(1 << 63), 3 ** 50) for q in (1, 2, 10 ** 20, 1 << 64)})
rats = [("rat", f) for f in rats]
decs = [("dec", f) for f in sorted({F(p, q) for p in range(-4, 5) for q in (1, 2, 10, 4)} |
                                   {F((1 << 64) + 1, 100), F(-(10 ** 25) - 1, 1000)})]
W = 6 if T else 5
bvs = [bv(w, v) for w in range(0, W + 1) for v in range(1 << w)]
wide = []
for w in (31, 32, 33, 63, 64, 65, 100) + (127, 128, 129, 256) + ((192, 193, 320) if T else ()):
    m = (1 << w) - 1
    for v in (0, 1, 2, m, m - 1, 1 << (w - 1), (1 << (w - 1)) - 1, m // 3):
        wide.append(bv(w, v))
hexs = [hx(4, v) for v in range(16)] + \
    [hx(8, v) for v in (0, 1, 0x0a, 0x10, 0x7f, 0x80, 0xff, 0xab)] + [hx(64, (1 << 64) - 1), hx(12, 10), hx(68, 1 << 64)]
SL = 5 if T else 4
strs = [("str", s) for n in range(SL + 1) for s in itertools.product((97, 98), repeat=n)]
strs += [("str", s) for s in ((34,), (92,), (92, 117), (0,), (9,), (10,), (196607,), (233,), (65536, 97), (127,), (128,), (255,), (256,),
                              (92, 117, 123, 54, 53, 125), tuple([97] * 70), tuple([97] * 64 + [98]))]
bools = [bo(True), bo(False)]
small = [num(0), num(1), num(-1), num(3), rat(0), rat(1), rat(-1, 2), dec(0), dec(1), dec(-1, 2),
         bv(0, 0), bv(1, 0), bv(1, 1), bv(4, 10), bv(2, 1), hx(4, 1), hx(8, 0xf0), st(""), st("a"),
         st("ab"), st("1"), bo(True), bo(False)]

un = [o for o, n in ARITY.items() if n == 1]
bi = [o for o, n in ARITY.items() if n == 2]
for o in un:
    for s, f in ((nums, "int"), (rats, "rat"), (decs, "dec"), (bvs + wide, "bin"), (hexs, "hex"),
                 (strs, "str"), (bools, "bool"), (small, "mixed")):
        for x in s:
            add(o, [x], "unary/" + f)
for o in bi:
    for s, f in ((snums, "int"), (rats, "rat"), (decs, "dec"), (hexs, "hex"),
                 (bools, "bool"), (small, "mixed")):
        for p in itertools.product(s, repeat=2):
            add(o, p, "binary/" + f)
    # all pairs of bit-vectors: same and different widths
    for x, y in itertools.product(bvs, repeat=2):
        if x[1] == y[1] or o == "concat" or (x[2] <= 1 and y[2] <= 1) or T:
            add(o, (x, y), "binary/bin")
    for x, y in itertools.product(wide, repeat=2):
        if x[1] == y[1] or (o == "concat" and True):
            add(o, (x, y), "binary/wide-bin")
    e2 = nums
    for x, y in itertools.product(e2, repeat=2):
        if not (o == "to_bin"):
            add(o, (x, y), "binary/int-edges")
    if o in ("find", "concat", "eq", "is_eq", "gt", "add"):
        for x, y in itertools.product(strs, repeat=2):
            add(o, (x, y), "binary/str")
for w in list(range(-1, 10)) + [63, 64, 65, 128]:
    for y in bvs + wide[:40] + nums + snums + [st("a"), rat(1), bo(True)]:
        add("to_bin", (num(w), y), "to_bin")
for w in ((1 << 32), -(1 << 32), (1 << 32) + 3, (1 << 64), (1 << 64) + 2, 1 << 63):
    for y in (num(0), num(5), bv(3, 5)):
        add("to_bin", (num(w), y), "to_bin")
for x in bvs + strs + wide[::5] + [num(3), rat(1, 2), bo(True)]:
    n = x[1] if x[0] == "bin" else len(x[1]) if x[0] == "str" else 3
    pos = sorted({-1, 0, 1, 2, 3, n - 2, n - 1, n, n + 1, n + 7} | (set(range(n)) if n < 6 else set()))
    big = [1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 64, (1 << 64) + 1, -(1 << 32), -(1 << 64)]
    for lo, hi in itertools.product(pos, repeat=2):
        add("extract", (x, num(lo), num(hi)), "extract")
    for b in big:
        add("extract", (x, num(0), num(b)), "extract")
        add("extract", (x, num(b), num(b)), "extract")
        add("extract", (x, num(b), num(1)), "extract")
for p in itertools.product((num(1), rat(1), bv(2, 1), st("ab"), bo(True)), repeat=3):
    add("extract", p, "extract")
for o in NARY:
    for p in itertools.product([num(2), num(-3), num(0), rat(1, 2), rat(3), dec(1, 2), bv(2, 1), bv(2, 3), bv(1, 1),
                                hx(4, 9), st("a"), st(""), bo(True), bo(False)], repeat=3):
        add(o, p, "ternary")

# sizes: wide bit-vectors, large numbers, long strings
SZ = [63, 64, 65, 95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025] + ([2047, 2048, 2049, 4095, 4096, 4097] if T else [])
for w in SZ:
    m = (1 << w) - 1
    vs = [bv(w, v) for v in (0, 1, m, m - 1, 1 << (w - 1), (1 << (w - 1)) - 1, m // 3, m // 3 << 1, 1 << (w // 2), (1 << (w // 2)) - 1)]
    for x in vs:
        for o in un:
            add(o, [x], "size/bin")
        for y in vs:
            for o in bi:
                if o not in ("to_bin", "find"):
                    add(o, (x, y), "size/bin")
        for y in (bv(1, 1), bv(0, 0), bv(w + 1, m), bv(3, 5)):
            add("concat", (x, y), "size/bin")
            add("concat", (y, x), "size/bin")
        for lo, hi in itertools.product((0, 1, w // 2, w - 2, w - 1, w, w + 1, -1), repeat=2):
            add("extract", (x, num(lo), num(hi)), "size/bin")
        for w2 in (0, 1, w - 1, w, w + 1, w // 2, 2 * w):
            add("to_bin", (num(w2), x), "size/bin")
    is_ = [e * (1 << w) + d for e in (1, -1) for d in (-1, 0, 1)]
    for i in is_:
        for o in un:
            add(o, [num(i)], "size/int")
            add(o, [rat(i, 3 ** (w // 2))], "size/rat")
        for j in is_ + [2, 3, -5, 10 ** 9, 1 << (w // 2), (1 << (w // 2)) - 1]:
            for o in bi:
                if o != "to_bin":
                    add(o, (num(i), num(j)), "size/int")
                    add(o, (num(j), num(i)), "size/int")
                    if o in ("add", "mul", "qdiv", "gt", "eq"):
                        add(o, (rat(i, 7), rat(j, 3)), "size/rat")
        for w2 in (0, 1, w - 1, w, w + 1, 2 * w):
            add("to_bin", (num(w2), num(i)), "size/int")
for n in list(range(5, 18)) + [31, 32, 33] + [x for x in SZ if x < 1026]:
    A = (97,) * n
    for k in sorted({0, 1, n // 2, n - 2, n - 1}):
        x = ("str", A[:k] + (98,) + A[k + 1:])
        for o in un:
            add(o, [x], "size/str")
        for y in (("str", A), x, ("str", (98,)), ("str", (98, 97)), ("str", (97, 98)), ("str", A[:k] + (98,)), ("str", A[:n - 1] + (98,)), ("str", A + (97,)), st(""), ("str", (98,) + A), ("str", (99,)),
                  ("str", A[1:k] + (98,)), ("str", (98,) + A[k + 1:])):
            for o in ("find", "concat", "eq", "is_eq"):
                add(o, (x, y), "size/str")
                add(o, (y, x), "size/str")
        for lo, hi in itertools.product(sorted({0, 1, k, k + 1, n - 1, n, n + 1}), repeat=2):
            add("extract", (x, num(lo), num(hi)), "size/str")
    dg = "1234567890" * (n // 10 + 1)
    for t in (dg[:n], "0" * n, "0" * (n - 1) + "1", "-" + dg[:n], dg[:n] + "a"):
        add("to_z", [st(t)], "size/str")

# direct identities of the two spellings
for f, n in fam.items():
    c.part("op:" + f, 0, n)
c.bounds.append("bit-vectors: all of width <= %d (pairs of equal width exhaustive), boundary values at widths up to %d; "
                "numbers: all in [-%d,%d] plus +-2^k+{-1,0,1} for k up to 128; strings: all up to length %d over two letters plus special characters"
                % (W, 320 if T else 256, N, N, SL))
c.bounds.append("sizes: bit-vectors of %d widths up to %d, numbers +-2^k+{-1,0,1} for these k, strings of %d lengths up to 1025" % (len(SZ), SZ[-1], 16 + len(SZ)))
c.positive(PRE, lines, chunk=500)
c.finish()
