"""Families of sizes: for each property, histories and terms of every size out
of a set that crosses the powers of two (word sizes, buffers, small counters,
small-vector optimizations), with the distinguished element at each of several
positions. The model of a family is its closed form."""
from mc.engine import Case

SIZES = list(range(1, 13)) + [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025]
BIG = [2047, 2048, 2049, 4095, 4096, 4097]
HUGE = [65535, 65536, 65537]


def pos(n):
    return sorted({k for k in (0, 1, n // 2, n - 2, n - 1) if 0 <= k < n})


def nl(*xs):
    return "\n".join(xs) + "\n"


def right(op, nil, xs):
    r = nil
    for x in reversed(xs):
        r = "(_ (_ %s %s) %s)" % (op, x, r)
    return r


U = "(declare-const U Type)\n(declare-const a U)\n(declare-const b U)\n(declare-const f (-> U U))\n(declare-const g (-> U U U))\n(declare-const Q (-> U Bool))\n"
NUM = "(declare-const Int Type)\n(declare-consts <numeral> Int)\n"
B = "(declare-const p Bool)\n(declare-const q Bool)\n(declare-const not (-> Bool Bool))\n(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)\n(declare-const => (-> Bool Bool Bool))\n"
ANY = "(declare-parameterized-const any ((T Type :implicit)) (-> T Bool))\n"


def ok(n, l, r):
    return "(declare-const o%s (eo::requires %s %s Bool))" % (n, l, r)


def neq(n, l, r):
    return "(declare-const o%s (eo::requires (eo::is_eq %s %s) false Bool))" % (n, l, r)


def tower(n, base, h="f"):
    return ("(%s " % h) * n + base + ")" * n


def p01(S, T):
    for n in S:
        ps = ["F%d" % i for i in range(n)]
        par = "(%s)" % " ".join("(%s Bool)" % x for x in ps)
        asm = ["(declare-const p%d Bool)\n(assume h%d p%d)" % (i, i, i) for i in range(n + 1)]
        pre = B + nl(*asm)
        hs = ["h%d" % i for i in range(n)]
        for k in pos(n):
            r = "(declare-rule r %s :premises (%s) :conclusion (not F%d))" % (par, " ".join(ps), k)
            yield "premises/%d/%d" % (n, k), Case("premises/%d/%d" % (n, k), pre + nl(r, "(step s (not p%d) :rule r :premises (%s))" % (k, " ".join(hs))), "correct")
            yield "x", Case("premises/wrong conclusion/%d/%d" % (n, k), pre + nl(r, "(step s (not p%d) :rule r :premises (%s))" % ((k + 1) % (n + 1), " ".join(hs))), "reject")
            # the k-th premise must be a negation
            r = "(declare-rule r %s :premises (%s) :conclusion F%d)" % (par, " ".join("(not %s)" % x if i == k else x for i, x in enumerate(ps)), k)
            yield "x", Case("premises/mismatch/%d/%d" % (n, k), pre + nl(r, "(step s :rule r :premises (%s))" % " ".join(hs)), "reject")
            yield "x", Case("premises/match/%d/%d" % (n, k), pre + nl("(assume k (not q))", r, "(step s q :rule r :premises (%s))" % " ".join("k" if i == k else x for i, x in enumerate(hs))), "correct")
            # the first parameter again at position k
            if k:
                r = "(declare-rule r %s :premises (%s) :conclusion F0)" % (par.replace("(F%d Bool)" % k, ""), " ".join("F0" if i == k else x for i, x in enumerate(ps)))
                yield "x", Case("premises/repeated/%d/%d" % (n, k), pre + nl(r, "(step s p0 :rule r :premises (%s))" % " ".join("h0" if i == k else x for i, x in enumerate(hs))), "correct")
                yield "x", Case("premises/repeated differs/%d/%d" % (n, k), pre + nl(r, "(step s p0 :rule r :premises (%s))" % " ".join(hs)), "reject")
                ra = "(declare-rule r %s :args (%s) :conclusion F0)" % (par.replace("(F%d Bool)" % k, ""), " ".join("F0" if i == k else x for i, x in enumerate(ps)))
                yield "x", Case("args/repeated/%d/%d" % (n, k), pre + nl(ra, "(step s p0 :rule r :args (%s))" % " ".join("p0" if i == k else "p%d" % i for i in range(n))), "correct")
                yield "x", Case("args/repeated differs/%d/%d" % (n, k), pre + nl(ra, "(step s p0 :rule r :args (%s))" % " ".join("p%d" % i for i in range(n))), "reject")
            # n requirements, the k-th fails
            r = "(declare-rule r (%s) :args (%s) :requires (%s) :conclusion p)" % (" ".join("(x%d Bool)" % i for i in range(n)), " ".join("x%d" % i for i in range(n)), " ".join("(x%d true)" % i for i in range(n)))
            yield "x", Case("requires/%d" % n, pre + nl(r, "(step s p :rule r :args (%s))" % " ".join(["true"] * n)), "correct")
            yield "x", Case("requires/fails/%d/%d" % (n, k), pre + nl(r, "(step s p :rule r :args (%s))" % " ".join("false" if i == k else "true" for i in range(n))), "reject")
            # premise list, the k-th differs from what the argument says
            r = "(declare-rule r ((F Bool)) :premise-list F and :args (F) :conclusion F)"
            conj = "(and %s)" % " ".join("p%d" % i for i in range(n)) if n > 1 else "(_ and p0 true)"
            swap = list(range(n))
            swap[k] = n
            yield "x", Case("premise-list/%d" % n, pre + nl(r, "(step s %s :rule r :premises (%s) :args (%s))" % (conj, " ".join(hs), conj)), "correct")
            yield "x", Case("premise-list/differs/%d/%d" % (n, k), pre + nl(r, "(step s :rule r :premises (%s) :args (%s))" % (" ".join("h%d" % i for i in swap), conj)), "reject")
        yield "x", Case("premises/one less/%d" % n, pre + nl("(declare-rule r %s :premises (%s) :conclusion F0)" % (par, " ".join(ps)), "(step s :rule r :premises (%s))" % " ".join(hs[1:] or [])), "reject")
        yield "x", Case("premises/one more/%d" % n, pre + nl("(declare-rule r %s :premises (%s) :conclusion F0)" % (par, " ".join(ps)), "(step s :rule r :premises (%s))" % " ".join(hs + ["h%d" % n])), "reject")
        # chains: each step uses the one before and an earlier one
        base = B + "(declare-rule i ((F Bool)) :premises (F) :conclusion (not F))\n(declare-rule e ((F Bool)) :premises ((not (not F))) :conclusion F)\n(assume h p)\n"
        ch = ["(step s0 (not p) :rule i :premises (h))"]
        for i in range(1, n):
            ch.append("(step s%d :rule %s :premises (s%d))" % (i, "i" if i % 3 == 1 else "e" if i % 3 == 2 else "i", i - 1))
        # forms: p -> not p -> not not p -> p -> ...
        last = {0: "(not p)", 1: "(not (not p))", 2: "p"}[(n - 1) % 3]
        other = {0: "p", 1: "(not p)", 2: "(not (not p))"}[(n - 1) % 3]
        yield "x", Case("chain/%d" % n, base + nl(*ch[:-1], ch[-1].replace(" :rule", (" %s :rule" % last) if n > 1 else " :rule")), "correct")
        if n > 1:
            yield "x", Case("chain/wrong end/%d" % n, base + nl(*ch[:-1], ch[-1].replace(" :rule", " %s :rule" % other)), "reject")
        # one rule out of n; a conclusion with a large term
        rs = ["(declare-rule r%d () :conclusion p%d)" % (i, i) for i in range(n)]
        for k in pos(n):
            yield "x", Case("rules/%d/%d" % (n, k), pre + nl(*rs, "(step s p%d :rule r%d)" % (k, k)), "correct")
            yield "x", Case("rules/other/%d/%d" % (n, k), pre + nl(*rs, "(step s p%d :rule r%d)" % ((k + 1) % (n + 1), k)), "reject")
        r = U + "(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))\n(declare-rule refl ((t U)) :args (t) :conclusion (= t t))\n"
        yield "x", Case("large term/%d" % n, r + nl("(step s (= %s %s) :rule refl :args (%s))" % ((tower(n, "a"),) * 3)), "correct")
        yield "x", Case("large term differs/%d" % n, r + nl("(step s (= %s %s) :rule refl :args (%s))" % (tower(n, "a"), tower(n, "b"), tower(n, "a"))), "reject")


def p02(S, T):
    pre = B + "(declare-rule intro ((A Bool) (F Bool)) :assumption A :premises (F) :conclusion (=> A F))\n(declare-rule dup ((F Bool)) :premises (F) :conclusion F)\n(declare-rule same ((F Bool)) :premises (F) :args (F) :conclusion F)\n"
    for n in S:
        fs = ["(declare-const p%d Bool)" % i for i in range(n)]
        P = pre + nl(*fs)
        # n scopes inside each other, formulas pairwise different
        h = ["(assume-push d%d p%d)" % (i, i) for i in range(n)]
        g, prev = "p%d" % (n - 1), "d%d" % (n - 1)
        close = []
        for i in reversed(range(n)):
            g = "(=> p%d %s)" % (i, g)
            close.append("(step-pop e%d %s :rule intro :premises (%s))" % (i, g if n < 300 or i == 0 else "", prev))
            prev = "e%d" % i
        yield "x", Case("nested/%d" % n, P + nl(*h, *close), "correct")
        yield "x", Case("nested/open/%d" % n, P + nl(*h, *close[:-1]), "reject")
        for k in pos(n):
            # all assumptions are available inside, those of closed scopes are not
            yield "x", Case("nested/use/%d/%d" % (n, k), P + nl(*h, "(step u p%d :rule same :premises (d%d) :args (p%d))" % (k, k, k), *close), "correct")
            yield "x", Case("nested/closed/%d/%d" % (n, k), P + nl(*h, *close[:n - k], "(step u :rule dup :premises (d%d))" % k, *close[n - k:]), "reject")
            if k:
                yield "x", Case("nested/still open/%d/%d" % (n, k), P + nl(*h, *close[:n - k], "(step u p%d :rule dup :premises (d%d))" % (k - 1, k - 1), *close[n - k:]), "correct")
            # the closing step discharges the innermost one
            wrong = list(close)
            wrong[n - 1 - k] = "(step-pop e%d (=> p%d %s) :rule intro :premises (%s))" % (k, (k + 1) % n, "p%d" % (n - 1), "d%d" % (n - 1) if k == n - 1 else "e%d" % (k + 1))
            if n > 1:
                yield "x", Case("nested/wrong one/%d/%d" % (n, k), P + nl(*h, *wrong), "reject")
        # n scopes after each other, n assumptions and steps inside one scope
        seq = []
        for i in range(n):
            seq += ["(assume-push d%d p%d)" % (i, i), "(step-pop e%d (=> p%d p%d) :rule intro :premises (d%d))" % (i, i, i, i)]
        yield "x", Case("sequence/%d" % n, P + nl(*seq), "correct")
        for k in pos(n):
            yield "x", Case("sequence/kept/%d/%d" % (n, k), P + nl(*seq, "(step u (=> p%d p%d) :rule dup :premises (e%d))" % (k, k, k)), "correct")
            yield "x", Case("sequence/gone/%d/%d" % (n, k), P + nl(*seq, "(step u :rule dup :premises (d%d))" % k), "reject")
        ins = ["(assume-push d q)"] + ["(step s%d q :rule dup :premises (%s))\n(declare-const c%d Bool)" % (i, "d" if not i else "s%d" % (i - 1), i) for i in range(n)]
        end = "(step-pop e (=> q q) :rule intro :premises (s%d))" % (n - 1)
        yield "x", Case("inside/%d" % n, P + nl(*ins, end, "(step u (=> q q) :rule dup :premises (e))"), "correct")
        for k in pos(n):
            yield "x", Case("inside/step gone/%d/%d" % (n, k), P + nl(*ins, end, "(step u :rule dup :premises (s%d))" % k), "reject")
            yield "x", Case("inside/symbol gone/%d/%d" % (n, k), P + nl(*ins, end, "(declare-const z (eo::requires c%d c%d Bool))" % (k, k)), "reject")


def p03(S, T):
    sig = B + "(declare-rule dup ((F Bool)) :premises (F) :conclusion F)\n(declare-rule intro ((A Bool)) :assumption A :conclusion A)\n"
    for n in S:
        s = sig + nl(*["(declare-const p%d Bool)" % i for i in range(n + 1)])
        ref = nl(*["(assert p%d)" % i for i in range(n)])
        F = {"s.eo": s, "r.smt2": ref}
        head = '(include "s.eo")\n(reference "r.smt2")\n'
        yield "x", Case("asserted/all/%d" % n, head + nl(*["(assume h%d p%d)" % (i, i) for i in reversed(range(n))]), "correct", files=F)
        yield "x", Case("asserted/not/%d" % n, head + nl(*["(assume h%d p%d)" % (i, i) for i in range(n + 1)]), "reject", files=F)
        yield "x", Case("only not/%d" % n, head + nl("(assume h p%d)" % n), "reject", files=F)
        for k in pos(n):
            yield "x", Case("asserted/%d/%d" % (n, k), head + nl("(assume h p%d)" % k), "correct", files=F)
            yield "x", Case("negation/%d/%d" % (n, k), head + nl("(assume h (not p%d))" % k), "reject", files=F)
            # inside n local scopes
            o = ["(assume-push l%d q)" % i for i in range(n)]
            cl = ["(step-pop z%d q :rule intro)" % i for i in range(n)]
            yield "x", Case("in scopes/%d/%d" % (n, k), head + nl(*o, "(assume h p%d)" % k, *cl), "correct", files=F)
            yield "x", Case("in scopes/not/%d/%d" % (n, k), head + nl(*o, "(assume h p%d)" % n, *cl), "reject", files=F)
            yield "x", Case("after scopes/not/%d/%d" % (n, k), head + nl(*o, *cl, "(assume h p%d)" % n), "reject", files=F)
            # formulas that differ at one place
            conj = lambda d: "(and %s)" % " ".join("q" if i == d else "p%d" % i for i in range(n + 1))
            yield "x", Case("large/%d/%d" % (n, k), head + nl("(assume h %s)" % conj(-1)), "correct", files=dict(F, **{"r.smt2": "(assert %s)\n" % conj(-1)}))
            yield "x", Case("large/differs/%d/%d" % (n, k), head + nl("(assume h %s)" % conj(k)), "reject", files=dict(F, **{"r.smt2": "(assert %s)\n" % conj(-1)}))
            yield "x", Case("large/prefix/%d/%d" % (n, k), head + nl("(assume h (and p0 p%d))" % k), "reject", files=dict(F, **{"r.smt2": "(assert %s)\n" % conj(-1)}) if n > 1 else dict(F, **{"r.smt2": "(assert (not q))\n"}))
        # n includes after the reference
        m = min(n, 200)
        inc = {"i%d.eo" % i: "(declare-const w%d Bool)\n" % i for i in range(m)}
        yield "x", Case("includes/%d" % n, head + nl(*['(include "i%d.eo")' % i for i in range(m)], "(assume h p0)"), "correct", files=dict(F, **inc))
        yield "x", Case("includes/not/%d" % n, head + nl(*['(include "i%d.eo")' % i for i in range(m)], "(assume h q)"), "reject", files=dict(F, **inc))


def p04(S, T):
    sig = B + "(declare-rule good () :conclusion p)\n(declare-rule sry () :conclusion p :sorry)\n(declare-rule intro ((A Bool) (F Bool)) :assumption A :premises (F) :conclusion (=> A F))\n(declare-rule id ((F Bool)) :premises (F) :conclusion F)\n"
    for n in S:
        steps = ["(step s%d p :rule good)" % i for i in range(n)]
        yield "x", Case("all good/%d" % n, sig + nl(*steps), "correct")
        yield "x", Case("all unproven/%d" % n, sig + nl(*[x.replace("good", "sry") for x in steps]), "incomplete")
        yield "x", Case("alternating/%d" % n, sig + nl(*[x.replace("good", "sry") if i % 2 else x for i, x in enumerate(2 * steps)]).replace("(step s", "(step t", n), "incomplete")
        rs = ["(declare-rule r%d () :conclusion p%s)" % (i, "") for i in range(n)]
        for k in pos(n):
            t = list(steps)
            t[k] = "(step s%d p :rule sry)" % k
            yield "x", Case("one unproven/%d/%d" % (n, k), sig + nl(*t), "incomplete")
            yield "x", Case("one unproven, error after/%d/%d" % (n, k), sig + nl(*t, "(step x q :rule good)"), "reject")
            r2 = list(rs)
            r2[k] = "(declare-rule r%d () :conclusion p :sorry)" % k
            use = ["(step u%d p :rule r%d)" % (i, i) for i in range(n)]
            yield "x", Case("rules/%d/%d" % (n, k), sig + nl(*r2, *use), "incomplete")
            yield "x", Case("rules not used/%d/%d" % (n, k), sig + nl(*r2, *[x for i, x in enumerate(use) if i != k]), "correct")
            yield "x", Case("rules used once/%d/%d" % (n, k), sig + nl(*r2, use[k]), "incomplete")
            # within n scopes
            op = ["(assume-push l%d q)" % i for i in range(n)]
            cl, prev = [], "x"
            for i in range(n):
                cl.append("(step-pop z%d :rule intro :premises (%s))" % (i, prev))
                prev = "z%d" % i
            for rule in ("good", "sry"):
                yield "x", Case("scopes/%s/%d" % (rule, n), sig + nl(*op[:k + 1], "(step y p :rule %s)" % rule, *op[k + 1:], "(step x p :rule good)", *cl), "correct" if rule == "good" else "incomplete")
        # an unproven rule, then n good steps that use the result
        ch = ["(step c%d p :rule id :premises (%s))" % (i, "y" if not i else "c%d" % (i - 1)) for i in range(n)]
        for rule in ("good", "sry"):
            yield "x", Case("chain/%s/%d" % (rule, n), sig + nl("(step y p :rule %s)" % rule, *ch), "correct" if rule == "good" else "incomplete")
            yield "x", Case("includes/%s/%d" % (rule, n), '(include "s.eo")\n' + nl(*['(include "i%d.eo")' % i for i in range(min(n, 200))]),
                            "correct" if rule == "good" else "incomplete", files=dict({"s.eo": sig}, **{"i%d.eo" % i: "(step y%d p :rule %s)\n" % (i, rule if i == n // 2 or i == 100 else "good") for i in range(min(n, 200))}))


def p06(S, T):
    pre = NUM + U + "(declare-const c U)\n(declare-const nil U)\n(declare-const fr (-> U U U) :right-assoc-nil nil)\n(declare-const fl (-> U U U) :left-assoc-nil nil)\n"
    for n in S:
        for op in ("fr", "fl"):
            o = -1 if op == "fl" else 1     # elements are counted from the outermost application
            L = lambda xs: "(%s %s)" % (op, " ".join(xs[::o])) if len(xs) > 1 else "nil" if not xs else "(_ fr %s nil)" % xs[0] if op == "fr" else "(_ fl nil %s)" % xs[0]
            A = ["a"] * n
            ls = [("len", "(eo::list_len %s %s)" % (op, L(A)), str(n)),
                  ("minclude", "(eo::list_minclude %s %s %s)" % (op, L(A), L(A + ["a"])), "true"), ("minclude2", "(eo::list_minclude %s %s %s)" % (op, L(A + ["a"]), L(A)), "false"),
                  ("meq", "(eo::list_meq %s %s %s)" % (op, L(A + ["b"]), L(["b"] + A)), "true"), ("meq2", "(eo::list_meq %s %s %s)" % (op, L(A + ["b"]), L(["b"] + A + ["a"])), "false"),
                  ("meq3", "(eo::list_meq %s %s %s)" % (op, L(A + ["b"]), L(["b"] + A[1:] + ["b"])), "false" if n else "true"),
                  ("diff", "(eo::list_diff %s %s %s)" % (op, L(A + ["b", "a"]), L(A)), L(["b", "a"])), ("inter", "(eo::list_inter %s %s %s)" % (op, L(A + ["a", "b"]), L(["b"] + A)), L(A + ["b"])),
                  ("setof", "(eo::list_setof %s %s)" % (op, L(A + ["b"] + A)), L(["a", "b"])), ("erase all", "(eo::list_erase_all %s %s a)" % (op, L(A + ["b"] + A)), L(["b"])),
                  ("erase", "(eo::list_erase %s %s b)" % (op, L(A + ["b"] + A)), L(A + A)), ("find", "(eo::list_find %s %s b)" % (op, L(A + ["b", "b"])), str(n)), ("find none", "(eo::list_find %s %s c)" % (op, L(A + ["b", "b"])), "-1"),
                  ("rev", "(eo::list_rev %s %s)" % (op, L(A + ["b", "c"])), L(["c", "b"] + A)), ("concat", "(eo::list_concat %s %s %s)" % (op, L(["b"] + A), L(A + ["c"])), L((["b"] + A + A + ["c"]) if op == "fr" else (A + ["c", "b"] + A))),
                  ("nth", "(eo::list_nth %s %s %d)" % (op, L(A + ["b"]), n), "b"), ("nth2", "(eo::list_nth %s %s %d)" % (op, L(A + ["b"]), n - 1), "a"), ("nth out", "(eo::is_ok (eo::list_nth %s %s %d))" % (op, L(A + ["b"]), n + 1), "false"),
                  ("cons", "(eo::cons %s b %s)" % (op, L(A + ["c"])), L(["b"] + A + ["c"]))]
            # pairwise different elements
            D = ["d%d" % i for i in range(n)]
            dd = pre + "".join("(declare-const d%d U)" % i for i in range(n)) + "\n"
            ls += [("D setof", "(eo::list_setof %s %s)" % (op, L(D + D)), L(D)), ("D rev", "(eo::list_rev %s %s)" % (op, L(D)), L(D[::-1])), ("D meq", "(eo::list_meq %s %s %s)" % (op, L(D), L(D[::-1])), "true"),
                   ("D meq2", "(eo::list_meq %s %s %s)" % (op, L(D + ["a"]), L(D[::-1] + ["b"])), "false"), ("D minclude", "(eo::list_minclude %s %s %s)" % (op, L(D), L(["a"] + D[::-1])), "true"),
                   ("D minclude2", "(eo::list_minclude %s %s %s)" % (op, L(D + ["b"]), L(["a"] + D[::-1])), "false"), ("D diff", "(eo::list_diff %s %s %s)" % (op, L(D + ["a"]), L(D[::-1])), L(["a"])),
                   ("D inter", "(eo::list_inter %s %s %s)" % (op, L(["a"] + D), L(D[::-1])), L(D))]
            for k in pos(n):
                ls += [("D nth", "(eo::list_nth %s %s %d)" % (op, L(D), k), D[k]), ("D find", "(eo::list_find %s %s %s)" % (op, L(D), D[k]), str(k)), ("D erase", "(eo::list_erase %s %s %s)" % (op, L(D), D[k]), L(D[:k] + D[k + 1:])),
                       ("D eraseall", "(eo::list_erase_all %s %s %s)" % (op, L(D + D), D[k]), L((D[:k] + D[k + 1:]) * 2))]
            if n > 2000:
                ls = ls[:9]
            yield "x", Case("%s/%d" % (op, n), dd + nl(*[ok(i, l, r) for i, (_, l, r) in enumerate(ls)]), "correct")


def p07(S, T):
    for n in S:
        pre = U + NUM + nl(*["(declare-const c%d U)" % i for i in range(n + 1)])
        # a program of n cases
        d = "(program $p ((x U)) :signature (U) U (%s))" % " ".join("(($p c%d) (f c%d))" % (i, n - i) for i in range(n))
        yield "x", Case("cases/%d" % n, pre + nl(d, *[ok(k, "($p c%d)" % k, "(f c%d)" % (n - k)) for k in pos(n)], ok("x", "(eo::is_ok ($p c%d))" % n, "false")), "correct")
        d = "(program $p ((x U)) :signature (U) U (%s (($p (f x)) x) (($p x) b)))" % " ".join("(($p (f c%d)) c%d)" % (i, n - i) for i in range(n))
        yield "x", Case("cases default/%d" % n, pre + nl(d, *[ok(k, "($p (f c%d))" % k, "c%d" % (n - k)) for k in pos(n)], ok("x", "($p (f c%d))" % n, "c%d" % n), ok("y", "($p a)", "b")), "correct")
        # n arguments, n variables
        vs = " ".join("(x%d U)" % i for i in range(n))
        for k in pos(n):
            d = nl("(program $p (%s) :signature (%s) U ((($p %s) (g x%d x0))))" % (vs, "U " * n, " ".join("x%d" % i for i in range(n)), k),
                   "(program $q (%s) :signature (%s) Bool ((($q %s) true) (($q %s) false)))" % (vs, "U " * n, " ".join("x0" if i == k else "x%d" % i for i in range(n)), " ".join("x%d" % i for i in range(n))))
            cs = " ".join("c%d" % i for i in range(n))
            same = " ".join("c0" if i == k else "c%d" % i for i in range(n))
            yield "x", Case("arguments/%d/%d" % (n, k), pre + d + nl(ok(0, "($p %s)" % cs, "(g c%d c0)" % k), ok(1, "($q %s)" % same, "true"), ok(2, "($q %s)" % cs, "true" if k == 0 else "false")), "correct")
            # the first case fails at argument k and binds the others
            xs = ["x%d" % i for i in range(n)]
            d5 = "(program $r (%s) :signature (%s) U ((($r %s) b) (($r %s) (g x%d x%d))))" % (
                vs, "U " * n, " ".join("(f a)" if i == k else x for i, x in enumerate(xs)), " ".join(reversed(xs)), k, n - 1)
            yield "x", Case("case after a failed case/%d/%d" % (n, k), pre + d5 + nl("", ok(0, "($r %s)" % cs, "(g c%d c0)" % (n - 1 - k))), "correct")
            # a function with n arguments, repeated variables at 0 and k
            h = "(declare-const h (-> %s U))" % ("U " * n)
            d2 = nl(h, "(program $p (%s) :signature (U) Bool ((($p (h %s)) true) (($p (h %s)) false)))" % (vs, " ".join("x0" if i == k else "x%d" % i for i in range(n)), " ".join("x%d" % i for i in range(n))))
            yield "x", Case("children/%d/%d" % (n, k), pre + d2 + nl(ok(1, "($p (h %s))" % same, "true"), ok(2, "($p (h %s))" % cs, "true" if k == 0 else "false")), "correct")
            # patterns of depth n, differing at depth k
            pat, tm, bad = "x0", "a", "a"
            for i in range(n):
                pat, tm = "(f %s)" % pat, "(f %s)" % tm
                bad = ("(g b %s)" if i == k else "(f %s)") % bad
            d3 = "(program $p ((x0 U)) :signature (U) U ((($p %s) x0)))" % pat
            yield "x", Case("depth/%d/%d" % (n, k), pre + nl(d3, ok(0, "($p %s)" % tm, "a"), ok(1, "($p (f %s))" % tm, "(f a)"), ok(2, "(eo::is_ok ($p %s))" % bad, "false")), "correct")
            # two large equal terms / terms that differ at depth k
            d4 = "(program $p ((x U) (y U)) :signature (U U) Bool ((($p x x) true) (($p x y) false)))"
            yield "x", Case("large/%d/%d" % (n, k), pre + nl(d4, ok(0, "($p %s %s)" % (tm, tm), "true"), ok(1, "($p %s %s)" % (tm, bad), "false")), "correct")
        # n programs, each calling the next
        ps = ["(program $p%d ((x U)) :signature (U) U ((($p%d x) %s)))" % (i, i, "(f x)" if not i else "(f ($p%d (f x)))" % (i - 1)) for i in range(n)]
        yield "x", Case("programs/%d" % n, U + nl(*ps, ok(0, "($p%d a)" % (n - 1), tower(2 * n - 1, "a"))), "correct")
        # n calls in one body
        d = "(program $i ((x U)) :signature (U) U ((($i (f x)) x)))\n(declare-const h (-> %s U))\n(program $p ((x U)) :signature (U) U ((($p x) (h %s))))" % ("U " * n, " ".join("($i %s)" % tower(i + 1, "x") for i in range(n)))
        if n <= 600:
            yield "x", Case("calls/%d" % n, U + nl(d, ok(0, "($p a)", "(h %s)" % " ".join(tower(i, "a") if i else "a" for i in range(n)))), "correct")


def p08(S, T):
    for n in S:
        pre = U + NUM + "(declare-const Str Type)\n(declare-consts <string> Str)\n"
        ls = []
        it, rq, no = "a", "a", "true"
        for i in range(n):
            it = "(eo::ite %s %s b)" % ("(eo::eq %d %d)" % (i, i), it) if i % 2 else "(eo::ite %s b %s)" % ("(eo::eq a b)", it)
            rq = "(eo::requires %d %d %s)" % (i, i, rq)
            no = "(eo::not %s)" % no
        ls += [(it, "a"), (rq, "a"), (no, "true" if n % 2 == 0 else "false")]
        for k in pos(n):
            bad = "a"
            for i in range(n):
                bad = "(eo::requires %d %d %s)" % (i, i if i != k else n, bad)
            ls += [("(eo::is_ok %s)" % bad, "false"), ("(eo::ite (eo::is_ok %s) a b)" % bad, "b"), ("(eo::is_eq %s a)" % bad, "false")]
            x, y = "a", "a"
            for i in range(n):
                x, y = "(g %s b)" % x, "(g %s %s)" % (y, "a" if i == k else "b")
            ls += [("(eo::eq %s %s)" % (x, x), "true"), ("(eo::eq %s %s)" % (x, y), "false"), ("(eo::is_eq %s %s)" % (x, y), "false"), ("(eo::eq (eo::hash %s) (eo::hash %s))" % (x, y), "false"), ("(eo::eq (eo::hash %s) (eo::hash %s))" % (y, y), "true"),
                   ("(eo::xor (eo::cmp %s %s) (eo::cmp %s %s))" % (x, y, y, x), "true"), ("(eo::typeof %s)" % x, "U")]
        ls += [("(eo::nameof %s)" % ("x" * n), '"%s"' % ("x" * n)), ("(eo::eq (eo::var \"%s\" U) (eo::var \"%s\" U))" % ("x" * n, "x" * n), "true"), ("(eo::eq (eo::var \"%s\" U) (eo::var \"%s\" U))" % ("y" * n, "y" * (n + 1)), "false"),
               ("(eo::len (eo::nameof (eo::var \"%s\" U)))" % ("x" * n), str(n))]
        ty = "U"
        for i in range(n):
            ty = "(-> U %s)" % ty
        yield "x", Case("terms/%d" % n, pre + "(declare-const %s U)\n(declare-const k %s)\n" % ("x" * n, ty) + nl(*[ok(i, l, r) for i, (l, r) in enumerate(ls)], ok("t", "(eo::typeof k)", ty), ok("u", "(eo::typeof (_ k a))", ty[6:-1])), "correct")
        # n different terms have n different hashes, in an order that is total
        if n <= 260:
            t = ["(g %s %s)" % (tower(i % 7, "a") if i % 7 else "a", tower(i // 7, "b") if i // 7 else "b") for i in range(n)]
            yield "x", Case("hashes/%d" % n, pre + nl(ok(0, "(eo::list_len eo::List::cons (eo::list_setof eo::List::cons (eo::List::cons %s)))" % " ".join("(eo::hash %s)" % x for x in t), str(n))), "correct")


def p09(S, T):
    for n in S:
        pre = U + NUM + "(declare-const nil U)\n" + nl(*["(declare-const c%d U)" % i for i in range(n)])
        pre += "(declare-const ra (-> U U U) :right-assoc)(declare-const la (-> U U U) :left-assoc)(declare-const rn (-> U U U) :right-assoc-nil nil)(declare-const ln (-> U U U) :left-assoc-nil nil)(declare-const ns (-> U U U) :right-assoc-non-singleton-nil nil)"
        pre += "(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)(declare-const lt (-> U U Bool) :chainable and)(declare-const di (-> U U Bool) :pairwise and)(declare-const ar (-> eo::List U) :arg-list eo::List::cons)(declare-const bi (-> eo::List U U) :binder eo::List::cons)\n"
        X = ["c%d" % i for i in range(n)]
        J = " ".join(X)
        ls = []
        r = lambda op, nil, xs: right(op, nil, xs)

        def l(op, nil, xs):
            t = nil
            for x in xs:
                t = "(_ (_ %s %s) %s)" % (op, t, x)
            return t
        if n >= 2:
            ls += [("(ra %s)" % J, r("ra", X[-1], X[:-1])), ("(la %s)" % J, l("la", X[0], X[1:])), ("(ns %s)" % J, r("ns", "nil", X))]
            ls += [("(lt %s)" % J, r("and", "true", ["(_ (_ lt %s) %s)" % (x, y) for x, y in zip(X, X[1:])]) if n > 2 else "(_ (_ lt c0) c1)")]
            if n <= 65:
                ls += [("(di %s)" % J, r("and", "true", ["(_ (_ di %s) %s)" % (X[i], X[j]) for i in range(n) for j in range(i + 1, n)]) if n > 2 else "(_ (_ di c0) c1)")]
        ls += [("(rn %s)" % J, r("rn", "nil", X)), ("(ln %s)" % J, l("ln", "nil", X)), ("(ar %s)" % J, "(_ ar %s)" % r("eo::List::cons", "eo::List::nil", X))]
        ls += [("(bi (%s) a)" % " ".join("(v%d U)" % i for i in range(n)), "(_ (_ bi %s) a)" % r("eo::List::cons", "eo::List::nil", ["(eo::var \"v%d\" U)" % i for i in range(n)]))]
        # a list parameter among n arguments
        for k in pos(n):
            xs = ["y" if i == k else x for i, x in enumerate(X)]
            flat = X[:k] + ["a", "b", "a"] + X[k + 1:]
            ls += [("($m%d (rn a b a))" % k, r("rn", "nil", flat)), ("($l%d (ln a b a))" % k, l("ln", "nil", flat)), ("($m%d nil)" % k, r("rn", "nil", X[:k] + X[k + 1:]))]
            pre += "(program $m%d ((y U :list)) :signature (U) U ((($m%d y) (rn %s))))\n(program $l%d ((y U :list)) :signature (U) U ((($l%d y) (ln %s))))\n" % (k, k, " ".join(xs), k, k, " ".join(xs))
        yield "x", Case("arguments/%d" % n, pre + nl(*[ok(i, p, q) for i, (p, q) in enumerate(ls)]), "correct")


def p10(S, T):
    for n in S:
        pre = "(declare-const U Type)\n(declare-const V Type)\n(declare-const a U)\n(declare-const v V)\n(declare-const Q (-> U Bool))\n(declare-const f (-> U U))\n(declare-const W (-> Type Type))\n" + NUM
        pre += "(declare-const h (-> %s Bool))\n(declare-parameterized-const e ((T Type :implicit)) (-> T T Bool))\n(declare-parameterized-const s ((T Type :implicit)) (-> T (W T)))\n" % ("U " * n)
        w = lambda t, k: "(W " * k + t + ")" * k
        sx = lambda t, k: "(s " * k + t + ")" * k
        pre += "(declare-const wu %s)\n(declare-const wv %s)\n" % (w("U", n), w("V", n))
        yield "x", Case("arity/%d" % n, pre + nl("(assume x (h %s))" % ("a " * n)), "correct")
        yield "x", Case("too many/%d" % n, pre + nl("(assume x (h %s a))" % ("a " * n)), "reject")
        if n > 1:
            yield "x", Case("too few/%d" % n, pre + nl("(assume x (h %s))" % ("a " * (n - 1))), "reject")
        for k in pos(n):
            yield "x", Case("wrong argument/%d/%d" % (n, k), pre + nl("(assume x (h %s))" % " ".join("v" if i == k else "a" for i in range(n))), "reject")
            yield "x", Case("wrong at depth/%d/%d" % (n, k), pre + nl("(assume x (Q %s))" % (tower(k, "", "f")[:-k] if 0 else "(f " * k + "(f v)" + ")" * k)), "reject")
            # n commands, the k-th ill-typed
            yield "x", Case("commands/%d/%d" % (n, k), pre + nl(*["(assume x%d (Q %s))" % (i, "v" if i == k else "a") for i in range(n)]), "reject")
            yield "x", Case("types/wrong depth/%d/%d" % (n, k), pre + nl("(assume x (e wu %s))" % sx("a", k)), "reject")
        yield "x", Case("commands/%d" % n, pre + nl(*["(assume x%d (Q a))" % i for i in range(n)]), "correct")
        yield "x", Case("deep/%d" % n, pre + nl("(assume x (Q %s))" % tower(n, "a")), "correct")
        yield "x", Case("types/%d" % n, pre + nl("(assume x (e wu %s))" % sx("a", n), "(assume y (e %s wv))" % sx("v", n)), "correct")
        yield "x", Case("types/wrong base/%d" % n, pre + nl("(assume x (e wu %s))" % sx("v", n)), "reject")
        yield "x", Case("types/wrong depth/%d" % n, pre + nl("(assume x (e wu %s))" % sx("a", n + 1)), "reject")
        # n type parameters
        tp = " ".join("(T%d Type :implicit)" % i for i in range(n))
        d = "(declare-parameterized-const m (%s) (-> %s Bool))\n" % (tp, " ".join("T%d" % i for i in range(n)) + " " + " ".join("T%d" % i for i in range(n)))
        args = ["a" if i % 2 else "v" for i in range(n)]
        yield "x", Case("parameters/%d" % n, pre + d + nl("(assume x (m %s %s))" % (" ".join(args), " ".join(args))), "correct")
        for k in pos(n):
            a2 = list(args)
            a2[k] = "1"
            yield "x", Case("parameters/wrong/%d/%d" % (n, k), pre + d + nl("(assume x (m %s %s))" % (" ".join(args), " ".join(a2))), "reject")


def p11(S, T):
    for n in S:
        ts = ["(declare-const T%d Type)" % i for i in range(n)]
        # n scopes, each with its own binding of the name
        o = ["(push)\n(declare-const x T%d)\n(declare-const y%d T%d)" % (i, i, i) for i in range(n)]
        cl = []
        for i in reversed(range(n)):
            cl.append("%s\n(pop)" % ok(i, "(eo::typeof x)", "T%d" % i))
        pre = nl("(declare-const B Type)", "(declare-const x B)", *ts)
        yield "x", Case("scopes/%d" % n, pre + nl(*o, *cl, ok("z", "(eo::typeof x)", "B")), "correct")
        for k in pos(n):
            yield "x", Case("scopes/visible/%d/%d" % (n, k), pre + nl(*o, ok("z", "(eo::typeof y%d)" % k, "T%d" % k)), "correct")
            yield "x", Case("scopes/closed/%d/%d" % (n, k), pre + nl(*o, *cl[:n - k], ok("z", "(eo::typeof y%d)" % k, "T%d" % k)), "reject")
            if k:
                yield "x", Case("scopes/open/%d/%d" % (n, k), pre + nl(*o, *cl[:n - k], ok("z", "(eo::typeof y%d)" % (k - 1), "T%d" % (k - 1))), "correct")
        # n overloads of a name
        ov = ["(declare-const c%d T%d)\n(declare-const R%d Type)\n(declare-const f (-> T%d R%d))" % (i, i, i, i, i) for i in range(n)]
        yield "x", Case("overloads/%d" % n, pre + nl(*ov, *[ok(k, "(eo::typeof (f c%d))" % k, "R%d" % k) for k in pos(n)], *[ok("a%d" % k, "(eo::typeof (_ (eo::as f (-> T%d R%d)) c%d))" % (k, k, k), "R%d" % k) for k in pos(n)]), "correct")
        yield "x", Case("overloads/none/%d" % n, pre + nl(*ov, "(assume h (f x))"), "reject")
        # the same name declared n times with the same type: the last one
        sm = ["(declare-const z B)\n(define z%d () z)" % i for i in range(n)]
        yield "x", Case("redeclared/%d" % n, pre + nl(*sm, ok("l", "z", "z%d" % (n - 1)), *[neq(k, "z%d" % k, "z") for k in pos(n) if k != n - 1]), "correct")
        # n names; n bindings in a let; n lets
        nm = ["(declare-const name%d T%d)" % (i, i) for i in range(n)]
        sig = pre + nl(*nm, "(declare-const d B)", ANY)
        yield "x", Case("names/%d" % n, sig + nl(*[ok(k, "(eo::typeof name%d)" % k, "T%d" % k) for k in pos(n)]), "correct")
        yield "x", Case("names/undeclared/%d" % n, sig + nl(ok("u", "(eo::typeof name%d)" % n, "B")), "reject")
        let = "(let (%s) %%s)" % " ".join("(l%d name%d)" % (i, i) for i in range(n))
        nest, un = "", ""
        for i in range(n):
            nest += "(let ((x name%d)) " % i
            un += ")"
        for k in pos(n):
            yield "x", Case("let/%d/%d" % (n, k), nl('(include "s.eo")', "(declare-const o (eo::requires (eo::typeof %s) T%d Bool))" % (let % ("l%d" % k), k)), "correct", name="c.smt3", files={"s.eo": sig})
        yield "x", Case("lets/%d" % n, nl('(include "s.eo")', "(declare-const o (eo::requires (eo::typeof %sx%s) T%d Bool))" % (nest, un, n - 1), "(declare-const p (eo::requires (eo::typeof x) B Bool))"), "correct", name="c.smt3", files={"s.eo": sig})


def p13(S, T):
    pre = NUM + U + B + "(declare-const @n Int)\n(declare-const @l (-> Int Int Int) :right-assoc-nil @n)\n(program $id ((T Type) (x T)) :signature (T) T ((($id x) x)))\n" + ANY
    pre += "(program $w ((x U) (y U)) :signature (U) U ((($w (f x)) (f ($w x))) (($w (g x y)) (g ($w y) ($w x))) (($w x) x)))\n(declare-rule sc ((F Bool)) :assumption F :conclusion true)\n"
    L = lambda xs: "(_ @l %s @n)" % xs[0] if len(xs) == 1 else "(@l %s)" % " ".join(xs)
    for n in S:
        D = nl(*["(declare-const c%d U)" % i for i in range(n)])
        ts = ["(f c%d)" % i for i in range(n)]
        P = pos(n)
        seen = lambda w: nl(*[ok("%s%d" % (w, k), "(eo::is_eq (f ($id c%d)) h%d)" % (k, k), "true") for k in P], *[ok("%sh%d" % (w, k), "(eo::hash (f c%d))" % k, "s%d" % k) for k in P],
                            *[ok("%sc%d" % (w, k), "(eo::cmp (f c%d) h%d)" % (k, P[0]), "o%d" % k) for k in P], *[neq("%sd%d" % (w, k), "(f c%d)" % k, "h%d" % P[0]) for k in P[1:]])
        obs = nl(*["(define h%d () (f c%d))\n(define s%d () (eo::hash h%d))\n(define o%d () (eo::cmp h%d (f c%d)))" % (k, k, k, k, k, k, P[0]) for k in P])
        allh = ok("all", "(eo::list_len @l (eo::list_setof @l %s))" % L(["(eo::hash %s)" % t for t in ts]), str(n)).replace("oall", "zall")
        # n terms held in a scope that ends; n transient ones; n evaluations; n scopes
        yield "x", Case("held/%d" % n, pre + D + obs + "(push)\n" + nl(*["(define x%d () (g (f c%d) a))\n(declare-const y%d (eo::requires (eo::is_eq (any x%d) (any (g (f c%d) a))) true Bool))" % (i, i, i, i, i) for i in range(n)]) + seen("in") + "(pop)\n" + seen("out") + allh, "correct")
        yield "x", Case("transient/%d" % n, pre + D + obs + nl(*["(declare-const y%d (eo::requires ($w (g (f c%d) a)) (g a (f c%d)) Bool))" % (i, i, i) for i in range(n)]) + seen("out") + allh, "correct")
        yield "x", Case("scopes/%d" % n, pre + D + obs + nl(*["(push)\n(define z%d () (f (f c%d)))" % (i, i) for i in range(n)]) + seen("in") + "(pop)\n" * n + seen("out"), "correct")
        yield "x", Case("local/%d" % n, pre + D + obs + nl(*["(assume-push l%d (Q (f (f c%d))))\n(step-pop e%d true :rule sc)" % (i, i, i) for i in range(n)]) + seen("out"), "correct")
        # a term of n parts written in two ways; with one part different
        t = tower(n, "a")
        yield "x", Case("large/%d" % n, pre + nl("(define h () %s)" % t, "(define s () (eo::hash h))", ok(0, "($w %s)" % tower(n, "($id a)"), "h"), ok(1, "(eo::hash %s)" % t, "s"), ok(2, "(eo::is_eq %s h)" % tower(n, "b"), "false"), ok(3, "(eo::is_eq %s h)" % tower(n + 1, "a"), "false"),
                                                 ok(4, "(eo::is_eq s (eo::hash %s))" % tower(n, "b"), "false"), ok(5, "(eo::add (eo::ite (eo::cmp h %s) 1 0) (eo::ite (eo::cmp %s h) 1 0))" % ((tower(n, "b"),) * 2), "1")), "correct")
        if n <= 257:
            small = pre + "(define h () (g (f a) b))\n" + nl(ok(0, "($w h)", "(g b (f a))"), ok(1, "(eo::is_eq h (g (f ($id a)) b))", "true"), ok(2, "(eo::is_eq (eo::hash h) (eo::hash (g (f a) a)))", "false"), "(assume h1 (Q h))")
            yield "x", Case("resets/%d" % n, (small + "(reset)\n") * n + small, "correct")


def p14(S, T):
    pre = U + "(declare-const V Type)\n(declare-const all (-> eo::List Bool Bool) :binder eo::List::cons)\n(declare-const P (-> U Bool))\n(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)\n(declare-const RV (-> V Bool))\n"
    for n in S:
        vs = lambda rep=None, ty=None: " ".join("(%s %s)" % ("w" if i == rep else "v%d" % i, "V" if i == ty else "U") for i in range(n))
        body = lambda k: "(P v%d)" % k
        ls = []
        for k in pos(n):
            t = "(all (%s) %s)" % (vs(), body(k))
            ls += [(True, t, "(all (eo::List::cons %s) (P (eo::var \"v%d\" U)))" % (" ".join("(eo::var \"v%d\" U)" % i for i in range(n)), k))]
            j = (k + 1) % n
            if n > 1:
                ls += [(False, t, "(all (%s) %s)" % (vs(rep=j), body(k))), (False, t, "(all (%s) %s)" % (vs(ty=j), body(k))), (False, t, "(all (%s) %s)" % (vs(), body(j)))]
                sw = list(range(n))
                sw[k], sw[j] = sw[j], sw[k]
                ls += [(False, t, "(all (%s) %s)" % (" ".join("(v%d U)" % i for i in sw), body(k)))]
            # n nested binders of the same name: the innermost one
            nb = lambda q: "".join("(all ((x %s)) " % ("V" if i == q else "U") for i in range(n))
            ls += [(True, nb(k) + ("(RV x)" if k == n - 1 else "(P x)") + ")" * n, nb(k) + ("(RV (eo::var \"x\" V))" if k == n - 1 else "(P (eo::var \"x\" U))") + ")" * n)]
            nn = lambda q: "".join("(all ((%s U)) " % ("w" if i == q else "v%d" % i) for i in range(n))
            ls += [(True, nn(-1) + body(k) + ")" * n, nn(-1) + "(P (eo::var \"v%d\" U))" % k + ")" * n)]
            if n > 1:
                ls += [(False, nn(-1) + body(k) + ")" * n, nn((k + 1) % n) + body(k) + ")" * n)]
        if n > 600:
            ls = ls[:12]
        yield "x", Case("binders/%d" % n, pre + nl(*[ok(i, l, r) if e else neq(i, l, r) for i, (e, l, r) in enumerate(ls)]), "correct")
        for k in pos(n):
            yield "x", Case("not in scope/%d/%d" % (n, k), pre + nl("(assume h (and (all (%s) (P v%d)) (P v%d)))" % (vs(), k, k)), "reject")
        nm = "n" * n
        yield "x", Case("names/%d" % n, pre + nl(ok(0, "(all ((%s U)) (P %s))" % (nm, nm), "(all (eo::List::cons (eo::var \"%s\" U)) (P (eo::var \"%s\" U)))" % (nm, nm)), neq(1, "(all ((%s U)) (P %s))" % (nm, nm), "(all ((%sm U)) (P %sm))" % (nm[:-1], nm[:-1]))), "correct")


def p16(S, T):
    for n in S:
        cons = ["c%d" % i for i in range(n)]
        decl = "(declare-datatypes ((D 0)) ((%s)))" % " ".join("(c%d (s%d U) (t%d D))" % (i, i, i) for i in range(n))
        L = lambda xs: right("eo::List::cons", "eo::List::nil", xs)
        ls = [("(eo::dt_constructors D)", L(cons))]
        for k in pos(n):
            ls += [("(eo::dt_selectors c%d)" % k, L(["s%d" % k, "t%d" % k])), ("(eo::typeof c%d)" % k, "(-> U D D)"), ("(eo::typeof s%d)" % k, "(-> D U)"), ("(eo::typeof t%d)" % k, "(-> D D)"), ("(eo::typeof (update-s%d d a))" % k, "D") if 0 else ("(eo::typeof (s%d (c%d a d)))" % (k, k), "U")]
        yield "x", Case("constructors/%d" % n, U + nl(decl, "(declare-const d D)", *[ok(i, l, r) for i, (l, r) in enumerate(ls)]), "correct")
        decl = "(declare-datatypes ((D 0)) (((c %s) (z))))" % " ".join("(s%d %s)" % (i, "D" if i % 3 == 1 else "U") for i in range(n))
        ls = [("(eo::dt_selectors c)", L(["s%d" % i for i in range(n)])), ("(eo::dt_constructors D)", L(["c", "z"])), ("(eo::dt_selectors z)", "eo::List::nil"), ("(eo::typeof c)", "(-> %s D)" % " ".join("D" if i % 3 == 1 else "U" for i in range(n)))]
        ls += [("(eo::typeof s%d)" % k, "(-> D %s)" % ("D" if k % 3 == 1 else "U")) for k in pos(n)]
        yield "x", Case("fields/%d" % n, U + nl(decl, *[ok(i, l, r) for i, (l, r) in enumerate(ls)]), "correct")
        decl = "(declare-datatypes (%s) (%s))" % (" ".join("(D%d 0)" % i for i in range(n)), " ".join("((c%d (s%d D%d)) (z%d))" % (i, i, (i + 1) % n, i) for i in range(n)))
        ls = []
        for k in pos(n):
            ls += [("(eo::dt_constructors D%d)" % k, L(["c%d" % k, "z%d" % k])), ("(eo::typeof c%d)" % k, "(-> D%d D%d)" % ((k + 1) % n, k)), ("(eo::typeof s%d)" % k, "(-> D%d D%d)" % (k, (k + 1) % n)), ("(eo::dt_selectors c%d)" % k, L(["s%d" % k]))]
        yield "x", Case("datatypes/%d" % n, U + nl(decl, *[ok(i, l, r) for i, (l, r) in enumerate(ls)]), "correct")
        ps = ["X%d" % i for i in range(n)]
        V = "".join("(declare-const V%d Type)(declare-const v%d V%d)" % (i, i, i) for i in range(n)) + "\n"
        decl = "(declare-datatypes ((D %d)) ((par (%s) ((c %s)))))" % (n, " ".join(ps), " ".join("(s%d X%d)" % (i, i) for i in range(n)))
        inst = "(D %s)" % " ".join("V%d" % i for i in range(n))
        ls = [("(eo::typeof (c %s))" % " ".join("v%d" % i for i in range(n)), inst), ("(eo::dt_selectors c)", L(["s%d" % i for i in range(n)]))]
        ls += [("(eo::typeof (s%d (c %s)))" % (k, " ".join("v%d" % i for i in range(n))), "V%d" % k) for k in pos(n)]
        yield "x", Case("parameters/%d" % n, V + nl(decl, *[ok(i, l, r) for i, (l, r) in enumerate(ls)]), "correct")
        ms = ["(declare-datatype E%d ((e%d) (ee%d (q%d E%d))))" % (i, i, i, i, i) for i in range(n)]
        yield "x", Case("commands/%d" % n, U + nl(*ms, *[ok(k, "(eo::dt_constructors E%d)" % k, L(["e%d" % k, "ee%d" % k])) for k in pos(n)]), "correct")


def p18(S, T):
    for n in S:
        m = min(n, 250)
        F = {"i%d.eo" % i: '(declare-const c%d Bool)\n(include "i%d.eo")\n(declare-const d%d Bool)\n' % (i, i + 1, i) for i in range(m)}
        F["i%d.eo" % m] = "(declare-const e Bool)\n"
        use = nl(*["(assume h%d c%d)\n(assume k%d d%d)" % (k, k, k, k) for k in pos(m)], "(assume z e)")
        yield "x", Case("chain/%d" % n, '(include "i0.eo")\n' + use, "correct", files=F)
        yield "x", Case("chain/missing/%d" % n, '(include "i0.eo")\n' + use, "reject", files={k: v for k, v in F.items() if k != "i%d.eo" % m})
        # included n times; through n "." and n ".."
        yield "x", Case("repeated/%d" % n, nl(*['(include "x.eo")'] * n, "(assume h c)"), "correct", files={"x.eo": "(declare-const c Bool)\n(step-count)\n".replace("(step-count)\n", "")})
        F2 = {"d/x.eo": "(declare-const c Bool)\n(declare-rule r () :conclusion c)\n", "d/y.eo": "(declare-const y Bool)\n"}
        if n <= 257:
            for sp in ("./" * n + "d/x.eo", "d/../" * n + "d/x.eo", "d/" + "./" * n + "x.eo", "/" .join(["d"] + [""] * (n - 1) + ["x.eo"]) if n > 1 else "d/x.eo"):
                yield "x", Case("spelling/%d/%s" % (n, sp[:20]), nl('(include "%s")' % sp, '(include "d/x.eo")', '(include "%s")' % sp, "(step s c :rule r)"), "correct", files=F2)
            deep = "/".join("q" for _ in range(min(n, 60)))
            yield "x", Case("directories/%d" % n, nl('(include "%s/z.eo")' % deep, "(assume h y)"), "correct", files=dict(F2, **{deep + "/z.eo": '(include "%sd/y.eo")\n' % ("../" * min(n, 60))}))


def p20(S, T):
    for n in S:
        pre = U + nl(*["(declare-const c%d U)" % i for i in range(n)])
        X = " ".join("c%d" % i for i in range(n))
        ls = []
        ps = " ".join("(x%d U)" % i for i in range(n))
        for k in pos(n):
            pre += "(define m%d (%s) (g x%d (f x%d)))\n" % (k, ps, k, n - 1 - k)
            ls += [("(m%d %s)" % (k, X), "(g c%d (f c%d))" % (k, n - 1 - k))]
            ls += [("(eo::define (%s) (g x%d x%d))" % (" ".join("(x%d c%d)" % (i, i) for i in range(n)), k, n - 1 - k), "(g c%d c%d)" % (k, n - 1 - k))]
        # towers of macros and definitions; chains of local definitions
        pre += "(define t0 ((x U)) (f x))\n" + nl(*["(define t%d ((x U)) (t%d (f x)))" % (i, i - 1) for i in range(1, n)])
        pre += "(define d0 () a)\n" + nl(*["(define d%d () (f d%d))" % (i, i - 1) for i in range(1, n)])
        pre += "(define e0 () f)\n" + nl(*["(define e%d () e%d)" % (i, i - 1) for i in range(1, n)])
        ls += [("(t%d b)" % (n - 1), tower(n, "b")), ("d%d" % (n - 1), tower(n - 1, "a") if n > 1 else "a"), ("(e%d a)" % (n - 1), "(f a)")]
        loc = "x"
        for i in range(n):
            loc = "(eo::define ((x (f x))) %s)" % loc
        ls += [("(eo::define ((x b)) %s)" % loc, tower(n, "b"))]
        # redefinition: a use keeps the meaning it had
        pre += nl(*["(define r () c%d)\n(define u%d () (f r))" % (i, i) for i in range(n)])
        yield "x", Case("definitions/%d" % n, pre + nl(*[ok(i, l, r) for i, (l, r) in enumerate(ls)], *[ok("u%d" % k, "u%d" % k, "(f c%d)" % k) for k in pos(n)], ok("r", "r", "c%d" % (n - 1))), "correct")
        yield "x", Case("definitions differ/%d" % n, pre + nl(*[neq(i, l, "(g b b)") for i, (l, r) in enumerate(ls)]), "correct")
        sg = U + nl(*["(declare-const c%d U)" % i for i in range(n)])
        big = "(let (%s) (g l%d l0))" % (" ".join("(l%d (f c%d))" % (i, i) for i in range(n)), n - 1)
        chain = "x"
        for i in range(n):
            chain = "(let ((x (f x))) %s)" % chain
        yield "x", Case("lets/%d" % n, nl('(include "s.eo")', ok(0, big, "(g (f c%d) (f c0))" % (n - 1)), ok(1, "(let ((x a)) %s)" % chain, tower(n, "a"))), "correct", name="c.smt3", files={"s.eo": sg})


def p21(S, T):
    for n in S:
        pre = U + NUM + "(declare-const V Type)\n(declare-const v V)\n" + nl(*["(declare-const c%d U)" % i for i in range(n + 1)])
        # n opaque arguments: identity depends on each
        pre += "(declare-parameterized-const o (%s) (-> U U))\n" % " ".join("(x%d U :opaque)" % i for i in range(n))
        cs = " ".join("c%d" % i for i in range(n))
        ls = [(True, "(o %s a)" % cs, "(o %s a)" % cs), (False, "(o %s a)" % cs, "(o %s b)" % cs)]
        for k in pos(n):
            ls += [(False, "(o %s a)" % cs, "(o %s a)" % " ".join("c%d" % n if i == k else "c%d" % i for i in range(n)))]
        pre += "(program $a ((h (-> U U)) (x U)) :signature (U) U ((($a (h x)) x)))\n(program $b ((h (-> U U)) (x U)) :signature (U) (-> U U) ((($b (h x)) h)))\n"
        ls += [(True, "($a (o %s b))" % cs, "b"), (True, "($b (o %s b))" % cs, "(o %s)" % cs)]
        # n implicit parameters, determined by the arguments
        pre += "(declare-parameterized-const i (%s) (-> %s T%d))\n" % (" ".join("(T%d Type :implicit)" % i for i in range(n)), " ".join("T%d" % i for i in range(n)), n // 2)
        args = ["v" if i == n // 2 else "a" for i in range(n)]
        ls += [(True, "(eo::typeof (i %s))" % " ".join(args), "V")]
        # n explicit ones
        pre += "(declare-const M (-> %s Type))\n(declare-parameterized-const e (%s) (M %s))\n" % ("U " * n, " ".join("(x%d U)" % i for i in range(n)), " ".join("x%d" % i for i in range(n)))
        ls += [(True, "(eo::typeof (e %s))" % cs, "(M %s)" % cs)]
        yield "x", Case("parameters/%d" % n, pre + nl(*[ok(i, l, r) if e else neq(i, l, r) for i, (e, l, r) in enumerate(ls)]), "correct")
        for k in pos(n):
            yield "x", Case("opaque/type/%d/%d" % (n, k), pre + ANY + nl("(assume h (any (o %s a)))" % " ".join("v" if i == k else "c%d" % i for i in range(n))), "reject")
        # n ambiguous constants
        am = ["(declare-datatypes ((D%d 1)) ((par (X) ((z%d) (w%d (s%d X))))))" % (i, i, i, i) for i in range(n)]
        yield "x", Case("ambiguous/%d" % n, U + nl(*am, *[ok(k, "(eo::typeof (as z%d (D%d U)))" % (k, k), "(D%d U)" % k) for k in pos(n)]), "correct")


def p22(S, T):
    for n in S:
        pre = NUM + "(declare-const BV (-> Int Type))\n(declare-consts <binary> (BV (eo::len eo::self)))\n(declare-parameterized-const cat ((n Int :implicit) (m Int :implicit)) (-> (BV n) (BV m) (BV (eo::add n m))))\n"
        pre += "(declare-parameterized-const bor ((n Int :implicit)) (-> (BV n) (BV n) (BV n)) :right-assoc-nil (eo::to_bin n 0))\n"
        pre += "(declare-parameterized-const ex ((n Int :implicit) (h Int :opaque) (l Int :opaque)) (-> (BV n) (eo::requires (eo::is_neg (eo::add h (eo::neg n))) true (BV (eo::add h 1 (eo::neg l))))))\n"
        pre = pre.replace("(eo::add h 1 (eo::neg l))", "(eo::add h (eo::add 1 (eo::neg l)))")
        pre += "(declare-const x (BV %d))\n(declare-const y (BV %d))\n(declare-const z (BV %d))\n" % (n, n, n + 1)
        ls = [("(eo::typeof (cat x y))", "(BV %d)" % (2 * n)), ("(eo::typeof (cat z (cat x y)))", "(BV %d)" % (3 * n + 1)), ("(eo::typeof #b%s)" % ("01" * n), "(BV %d)" % (2 * n)), ("(eo::typeof (ex %d 0 x))" % (n - 1), "(BV %d)" % n), ("(eo::typeof (ex %d %d x))" % (n - 1, n - 1), "(BV 1)"),
              ("(eo::is_ok (eo::typeof (ex %d 0 x)))" % n, "false"), ("(eo::is_ok (eo::typeof (bor x z)))", "false"), ("(bor x y)", "(_ (_ bor x) (_ (_ bor y) #b%s))" % ("0" * n)), ("(eo::nil bor (BV %d))" % n, "#b%s" % ("0" * n)), ("(eo::list_len bor (bor x y x))", "3"),
              ("(eo::list_rev bor (bor x y x y))", "(bor y x y x)")]
        yield "x", Case("widths/%d" % n, pre + nl(*[ok(i, l, r) for i, (l, r) in enumerate(ls)]), "correct")
        # n nested concatenations; n dimensions
        t = "#b1"
        for i in range(n):
            t = "(cat %s %s)" % (("#b0", t) if i % 2 else (t, "#b0"))
        dm = "(declare-const A (-> %s Type))\n(declare-parameterized-const mk (%s) (A %s))\n(declare-parameterized-const sum (%s) (-> (A %s) (BV %s)))\n" % (
            "Int " * n, " ".join("(d%d Int)" % i for i in range(n)), " ".join("d%d" % i for i in range(n)), " ".join("(d%d Int :implicit)" % i for i in range(n)), " ".join("d%d" % i for i in range(n)), right("eo::add", "0", ["d%d" % i for i in range(n)]).replace("(_ (_ eo::add ", "(eo::add ").replace(") ", " ") if n < 1 else "d%d" % (n - 1))
        yield "x", Case("nested/%d" % n, pre + dm + nl(ok(0, "(eo::typeof %s)" % t, "(BV %d)" % (n + 1)), ok(1, "(eo::typeof (mk %s))" % " ".join(map(str, range(n))), "(A %s)" % " ".join(map(str, range(n)))),
                                                      ok(2, "(eo::typeof (sum (mk %s)))" % " ".join(map(str, range(n))), "(BV %d)" % (n - 1))), "correct")


LIMIT = {"P13": 600, "P01": 257, "P03": 600, "P09": 600, "P11": 600, "P14": 600, "P16": 600, "P21": 600, "P22": 600, "P07": 600, "P20": 600, "P08": 600, "P10": 600}


def run(c, timeout=60):
    """runs the families of sizes of the property"""
    gen = globals()[c.prop.lower()]
    lim = LIMIT.get(c.prop, 1025)
    S = [n for n in SIZES if n <= (lim if not c.thorough else max(1025, lim))]
    if c.thorough and c.prop in ("P02", "P04", "P06"):
        S += BIG
    if c.prop == "P06":
        S += HUGE
    cs, keys = [], set()
    for _, k in gen(S, c.thorough):
        if k.key in keys:
            continue
        keys.add(k.key)
        cs.append(k)
    c.run(cs, timeout=timeout)
    c.part("families of sizes", len(cs), len(cs))
    c.bounds.append("families of sizes (numbers of arguments, cases, scopes, commands, depth, width): %d, ..., %d; %d instances" % (S[0], S[-1], len(cs)))


PROPS = ["P01", "P02", "P03", "P04", "P06", "P07", "P08", "P09", "P10", "P11", "P13", "P14", "P16", "P18", "P20", "P21", "P22"]


def safety(c):
    """the families of all properties, with library assertions and (thorough)
    memory error detection"""
    for S, kind in [([1, 2, 3, 5, 9, 17, 33, 65, 129], "dbg")] + ([(SIZES, "dbg"), ([1, 2, 3, 5, 8, 9, 16, 17, 33, 65], "asan")] if c.thorough else []):
        cs = {}
        for p in PROPS:
            for _, k in globals()[p.lower()]([n for n in S if n <= LIMIT.get(p, 1025)], c.thorough):
                k.key = "%s/%s" % (p, k.key)
                cs[k.key] = k
        c.run(list(cs.values()), kind=kind, timeout=60 if kind == "dbg" else 120)
        c.part("families of sizes, %s, up to %d" % (kind, S[-1]), len(cs), len(cs))
