"""P06: list operations. Python lists are the model: every operation on every
list (pair of lists) up to a length over a three letter alphabet, for right and
left associative operators with constant and type dependent terminators, with
list, nil and compound elements, and on terms that are not lists."""
import itertools
from mc import engine
from mc import scale

c = engine.Check("P06")
T = c.thorough

PRE = """(declare-const Int Type)
(declare-consts <numeral> Int)
(declare-const BitVec (-> Int Type))
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-const a Bool)
(declare-const b Bool)
(declare-const d Bool)
(declare-const h (-> Bool Bool))
(declare-const fr (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const fl (-> Bool Bool Bool) :left-assoc-nil false)
(declare-const nr (-> Bool Bool Bool) :right-assoc-non-singleton-nil true)
(declare-const nl (-> Bool Bool Bool) :left-assoc-non-singleton-nil true)
(declare-const as (-> Bool Bool Bool) :right-assoc)
(declare-parameterized-const pr ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) :right-assoc-nil (eo::to_bin m 0))
(declare-parameterized-const pl ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) :left-assoc-nil (eo::to_bin m 0))
(declare-const @L Type)
(declare-const @nil @L)
(declare-parameterized-const @cons ((T Type :implicit)) (-> T @L @L) :right-assoc-nil @nil)
(declare-const u (BitVec 4))
(declare-const v (BitVec 4))
(declare-const w (BitVec 4))
(declare-const x5 (BitVec 5))
"""
OPS = {  # name: arity after the operator
    "cons": 2, "list_len": 1, "list_concat": 2, "list_nth": 2, "list_find": 2, "list_rev": 1,
    "list_erase": 2, "list_erase_all": 2, "list_setof": 1, "list_minclude": 2, "list_meq": 2,
    "list_diff": 2, "list_inter": 2, "list_singleton_elim": 1}
for o, n in OPS.items():
    xs = ["x", "y"][:n]
    ts = ["X", "Y"][:n]
    PRE += "(program $%s ((F Type) (f F) %s %s) :signature (F %s) Type ((($%s f %s) (eo::%s f %s))))\n" % (
        o, " ".join("(%s Type)" % t for t in ts), " ".join("(%s %s)" % p for p in zip(xs, ts)),
        " ".join(ts), o, " ".join(xs), o, " ".join(xs))


class Op:
    def __init__(self, name, left, nil, elems, nonlists, extra=()):
        self.name, self.left, self.nil, self.elems, self.nonlists = name, left, nil, elems, nonlists
        self.extra = extra

    def mk(self, L):
        """L: the elements, from the outermost application inwards"""
        t = self.nil
        for e in reversed(L):
            t = "(_ %s %s %s)" % ((self.name, t, e) if self.left else (self.name, e, t))
        return t


def model(op, o, L, arg):
    """L: tuple of elements or None for a non list; arg: element, tuple or None.
    Returns text of the result, or None: does not evaluate."""
    B = lambda x: "true" if x else "false"
    if o == "cons":             # L is the tail here
        return None if L is None else op.mk((arg,) + L)
    if L is None:
        return None
    if o == "list_len":
        return str(len(L))
    if o == "list_rev":
        return op.mk(L[::-1])
    if o == "list_setof":
        r = []
        for e in L:
            if e not in r:
                r.append(e)
        return op.mk(r)
    if o == "list_singleton_elim":
        return L[0] if len(L) == 1 else op.mk(L)
    if o == "list_find":
        return str(L.index(arg)) if arg in L else "-1"
    if o == "list_erase":
        if arg not in L:
            return op.mk(L)
        i = L.index(arg)
        return op.mk(L[:i] + L[i + 1:])
    if o == "list_erase_all":
        return op.mk(tuple(e for e in L if e != arg))
    if arg is None:
        return None
    M = arg
    if o == "list_concat":
        return op.mk(M + L if op.left else L + M)
    if o == "list_minclude":
        return B(all(L.count(e) <= M.count(e) for e in L))
    if o == "list_meq":
        return B(sorted(L) == sorted(M))
    rest = list(M)
    inter, diff = [], []
    for e in L:
        if e in rest:
            rest.remove(e)
            inter.append(e)
        else:
            diff.append(e)
    return op.mk(inter if o == "list_inter" else diff)


AB = ["a", "b", "d"]
ops = [
    Op("fr", False, "false", AB, ["a", "(_ fr a b)", "(_ fr a (_ fr b a))", "true", "(h a)", "(_ fr a)",
                                  "(_ fl false a)", "(_ as a false)", "3"], ("false", "(_ fr a false)", "(h b)")),
    Op("fl", True, "false", AB, ["a", "(_ fl a b)", "(_ fl (_ fl a b) d)", "true", "(_ fr a false)", "(_ fl false)"],
       ("false", "(_ fl false a)")),
    Op("nr", False, "true", AB, ["a", "(_ nr a b)", "false", "(_ fr a true)"], ("true", "(_ nr a true)")),
    Op("nl", True, "true", AB, ["a", "(_ nl a b)", "false"], ("true",)),
    Op("pr", False, "#b0000", ["u", "v", "w"], ["u", "(_ pr u v)", "#b0001", "(_ pr x5 #b00000)" if False else "(_ pl #b0000 u)"],
       ("#b0000", "(_ pr u #b0000)")),
    Op("pl", True, "#b0000", ["u", "v", "w"], ["u", "(_ pl u v)", "#b0001", "(_ pr u #b0000)"], ("#b0000",)),
    Op("@cons", False, "@nil", ["a", "7", "u"], ["a", "(_ @cons a a)" if False else "u", "7", "false"],
       ("@nil", "(_ @cons a @nil)", "@L")),
]
lines = []


def emit(op, o, args, r):
    c.tr()
    c.st((op.name, r), *args)
    n = len(lines)
    s = " ".join(args)
    if r is None:
        t = ("(declare-const x%d (eo::requires (eo::is_ok (eo::%s %s %s)) false Bool))\n"
             "(declare-const y%d (eo::requires (eo::is_ok ($%s %s %s)) false Bool))" % (n, o, op.name, s, n, o, op.name, s))
    else:
        t = ("(declare-const x%d (eo::requires (eo::%s %s %s) %s Bool))\n"
             "(declare-const y%d (eo::requires ($%s %s %s) %s Bool))" % (n, o, op.name, s, r, n, o, op.name, s, r))
    lines.append(("(%s %s %s)" % (o, op.name, s), t))
    if n % 7919 == 5:
        c.sample(t)


def lists(elems, n):
    for k in range(n + 1):
        yield from itertools.product(elems, repeat=k)


LU = 7 if T else 6
LP = 4 if T else 3
for op in ops:
    main = op.name in ("fr", "fl")
    big = list(lists(op.elems, LU if main else LU - 1))
    big += [tuple(x) for k in (1, 2, 3) for x in itertools.product(op.elems[:2] + list(op.extra), repeat=k)]
    # longer lists over two elements
    for k in range(LU, (12 if T else 9) if main else 7):
        big += itertools.product(op.elems[:2], repeat=k)
    big = list(dict.fromkeys(big))
    pairs = list(lists(op.elems, LP if main else 3))
    pairs += [p for p in itertools.product(op.elems[:1] + list(op.extra), repeat=2)]
    pairs += [(e,) for e in op.extra]
    pairs = list(dict.fromkeys(pairs))
    es = op.elems + list(op.extra)
    for L in big:
        for o in ("list_len", "list_rev", "list_setof", "list_singleton_elim"):
            emit(op, o, [op.mk(L)], model(op, o, L, None))
        for e in es:
            for o in ("list_find", "list_erase", "list_erase_all"):
                emit(op, o, [op.mk(L), e], model(op, o, L, e))
        for i in list(range(-1, len(L) + 2)) + [1 << 32, (1 << 32) + 1, -(1 << 32), 1 << 64]:
            emit(op, "list_nth", [op.mk(L), str(i)], L[i] if 0 <= i < len(L) else None)
        emit(op, "list_nth", [op.mk(L), "a"], None)
        emit(op, "list_nth", [op.mk(L), "(eo::neg a)"], None)
    for L in pairs:
        for e in es + [op.mk((op.elems[0],)), op.nonlists[1]]:
            emit(op, "cons", [e, op.mk(L)], model(op, "cons", L, e))
        for M in pairs:
            for o in ("list_concat", "list_minclude", "list_meq", "list_diff", "list_inter"):
                emit(op, o, [op.mk(L), op.mk(M)], model(op, o, L, M))
        for x in op.nonlists:
            for o in ("list_concat", "list_minclude", "list_meq", "list_diff", "list_inter"):
                if op.name in ("pr", "pl", "@cons") and o != "list_concat" and False:
                    continue
                emit(op, o, [op.mk(L), x], None)
                emit(op, o, [x, op.mk(L)], None)
    for x in op.nonlists:
        for o in ("list_len", "list_rev", "list_setof", "list_singleton_elim"):
            emit(op, o, [x], None)
        for e in es:
            for o in ("list_find", "list_erase", "list_erase_all", "list_nth"):
                emit(op, o, [x, e], None)
            emit(op, "cons", [e, x], None)
        emit(op, "list_nth", [x, "0"], None)
        for y in op.nonlists:
            for o in ("list_concat", "list_minclude", "list_meq", "list_diff", "list_inter"):
                emit(op, o, [x, y], None)
    # stuck arguments
    st = "(eo::neg \"\")"
    for o, n in OPS.items():
        for i in range(n):
            args = [op.mk((op.elems[0],))] * n
            args[i] = st
            emit(op, o, args, None)
            # a list with an element or a tail that does not evaluate
            for bad in (op.mk((op.elems[0], st)), op.mk((st, op.elems[0])), op.mk((st,))):
                args = [op.mk((op.elems[0],))] * n
                if o == "list_nth" and n == 2:
                    args[1] = "0"
                args[i] = bad
                emit(op, o, args, None)
# operators that are not lists
class _N:
    pass


for nm in ("as", "h", "a"):
    no = _N()
    no.name = nm
    for o, n in OPS.items():
        emit(no, o, ["false", "(_ fr a false)"][:n], None)
# terminators
for nm, ty, r in (("fr", "Bool", "false"), ("fl", "Bool", "false"), ("nr", "Bool", "true"), ("nl", "Bool", "true"),
                  ("@cons", "@L", "@nil")) + tuple(
        (p, "(BitVec %d)" % k, "(eo::to_bin %d 0)" % k) for p in ("pr", "pl") for k in list(range(0, 12)) + [31, 32, 33, 64, 65]):
    lines.append(("nil %s %s" % (nm, ty), "(declare-const n%d (eo::requires (eo::nil %s %s) %s Bool))" % (len(lines), nm, ty, r)))
for nm, ty in (("as", "Bool"), ("h", "Bool"), ("a", "Bool")):
    lines.append(("nil %s %s" % (nm, ty), "(declare-const n%d (eo::requires (eo::is_ok (eo::nil %s %s)) false Bool))" % (len(lines), nm, ty)))
# long lists
for n in (8, 15, 16, 17, 31, 32, 33, 64, 100):
    for op in ops[:4]:
        for pat in (lambda i: i % 3, lambda i: (i * i) % 3, lambda i: 0 if i < n - 1 else 1, lambda i: 2 if i else 0):
            L = tuple(AB[pat(i)] for i in range(n))
            M = tuple(AB[pat(n - 1 - i)] for i in range(n // 2))
            for o in ("list_len", "list_rev", "list_setof", "list_singleton_elim"):
                emit(op, o, [op.mk(L)], model(op, o, L, None))
            for e in AB:
                for o in ("list_find", "list_erase", "list_erase_all"):
                    emit(op, o, [op.mk(L), e], model(op, o, L, e))
                emit(op, "cons", [e, op.mk(L)], model(op, "cons", L, e))
            for i in (0, 1, n // 2, n - 1, n, n + 1):
                emit(op, "list_nth", [op.mk(L), str(i)], L[i] if i < n else None)
            for o in ("list_concat", "list_minclude", "list_meq", "list_diff", "list_inter"):
                emit(op, o, [op.mk(L), op.mk(M)], model(op, o, L, M))
                emit(op, o, [op.mk(M), op.mk(L)], model(op, o, M, L))
# one or two exceptional elements at every position of lists of every length
for op in (ops if T else ops[:2] + ops[6:]):
    x, y, z = op.elems
    for n in range(2, 14 if T else 11):
        mark = [tuple(x if i != k else y for i in range(n)) for k in range(n)]
        two = [tuple(y if i in (k, m) else x for i in range(n)) for k in range(n) for m in range(k + 1, n)]
        two += [tuple(y if i == k else z if i == m else x for i in range(n)) for k in range(n) for m in range(n) if k != m]
        for L in mark + two:
            for o in ("list_rev", "list_setof"):
                emit(op, o, [op.mk(L)], model(op, o, L, None))
            for e in (y, z):
                for o in ("list_find", "list_erase", "list_erase_all"):
                    emit(op, o, [op.mk(L), e], model(op, o, L, e))
            for M in ((y,), (z, y), (x,) * (n - 1), (x, y, x)):
                for o in ("list_minclude", "list_meq", "list_diff", "list_inter"):
                    emit(op, o, [op.mk(L), op.mk(M)], model(op, o, L, M))
                    emit(op, o, [op.mk(M), op.mk(L)], model(op, o, M, L))
        for L in mark:
            for M in mark:
                for o in ("list_minclude", "list_meq", "list_diff", "list_inter", "list_concat"):
                    emit(op, o, [op.mk(L), op.mk(M)], model(op, o, L, M))
c.bounds.append("one or two exceptional elements at every position of lists of length 2 to %d, against short lists and each other" % (13 if T else 10))
c.bounds.append("lists up to length %d over 3 elements and up to 8 (thorough: 11) over 2 (unary), pairs up to length %d; lists of up to 100 elements by pattern; 7 operators" % (LU, LP))
c.positive(PRE, lines, chunk=500)
scale.run(c)
c.finish()
