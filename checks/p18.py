"""P18: including files. The model is an interpreter of a small file tree: it
keeps the set of files already read, the stack of files being read and the
scopes, resolves every path against the directory of the including file, and
predicts the exact trace of messages and the verdict. All path spellings up to
a length, all include graphs up to a size, all ways of starting a run, and all
interleavings of scopes with includes are replayed."""
import itertools
from mc import engine
from mc import scale
from mc.engine import Case

c = engine.Check("P18")
TH = c.thorough

# ---------------------------------------------------------------- the model
# A file is a list of items: ("echo", x), ("inc", path), ("ref", path),
# ("push",), ("pop",), ("ap",), ("sp",), ("exit",), ("asm",), ("raw", text),
# ("err", text)


class Reject(Exception):
    pass


def resolve(d, path, dirs):
    """-> canonical path (tuple) or None when an intermediate is no directory.
    d: directory of the including file (tuple)."""
    cur = list(d)
    segs = path.split("/")
    for i, s in enumerate(segs):
        if s in ("", "."):
            continue
        if s == "..":
            if not cur:
                return None
            cur.pop()
            continue
        cur.append(s)
        if i < len(segs) - 1 and any(x not in ("", ".") for x in segs[i + 1:]) and tuple(cur) not in dirs:
            return None
    return tuple(cur)


class Model:
    def __init__(self, files):
        self.files = {tuple(k.split("/")): v for k, v in files.items()}
        self.dirs = {()} | {f[:i] for f in self.files for i in range(len(f))}
        self.read = set()
        self.out = []
        self.scopes = []
        self.ref = False
        self.asserted = set()

    def include(self, d, path, ref):
        p = resolve(d, path, self.dirs)
        if p is None or p not in self.files:
            raise Reject("no file " + path)
        if ref and self.ref:
            raise Reject("second reference")
        if p in self.read:
            if ref:
                raise Reject("the reference was read before")
            return
        self.read.add(p)
        if ref:
            self.ref = True
        self.items(p[:-1], self.files[p], ref)
        if "a" in self.scopes:
            raise Reject("assumption left open")

    def items(self, d, its, ref=False):
        for it in its:
            k = it[0]
            if k == "echo":
                self.out.append(it[1])
            elif k in ("inc", "ref"):
                if "a" in self.scopes or ref:
                    raise Reject("include not allowed here")
                self.include(d, it[1], k == "ref")
            elif k == "push":
                self.scopes.append("p")
            elif k == "pop":
                if not self.scopes or self.scopes[-1] == "a":
                    raise Reject("pop")
                self.scopes.pop()
            elif k == "ap":
                self.scopes.append("a")
            elif k == "sp":
                if not self.scopes or self.scopes[-1] != "a":
                    raise Reject("step-pop")
                self.scopes.pop()
            elif k == "exit":
                return
            elif k == "raw":
                pass
            elif k == "err":
                raise Reject(it[1])
            else:
                raise AssertionError(k)


TEXT = {"push": "(push)", "pop": "(pop)", "ap": "(assume-push ap p)", "exit": "(exit)",
        "sp": "(step-pop sp :rule pop :premises (h))"}


def text(its):
    o = []
    for it in its:
        k = it[0]
        if k == "echo":
            o.append('(echo "%s")' % it[1])
        elif k == "inc":
            o.append('(include "%s")' % it[1])
        elif k == "ref":
            o.append('(reference "%s")' % it[1])
        elif k in ("raw", "err"):
            o.append(it[1])
        else:
            o.append(TEXT[k])
    return "\n".join(o) + "\n"


def expect(files, starts, stdin=None, cwd=()):
    """starts: [(path, isref)] read in order from the current directory"""
    m = Model(files)
    bad = None
    try:
        for p, r in starts:
            m.include(cwd, p, r)
        if stdin is not None:
            m.items(cwd, stdin)
            if "a" in m.scopes:
                raise Reject("assumption left open")
    except Reject as e:
        bad = str(e)
    c.st((tuple(m.out), bad, frozenset(m.read), tuple(m.scopes)))
    c.tr(len(m.out) + 1)
    want = list(m.out)

    def judge(v, out):
        ls = out.split("\n")
        if bad is not None:
            if v != "reject":
                return "expected an error (%s), got %s" % (bad, v)
            if ls[:len(want)] != want or (len(ls) > len(want) and ls[len(want)].startswith("@")):
                return "before the error (%s) expected the messages %s, got %s" % (bad, want, ls[:len(want) + 1])
            return None
        if v != "correct":
            return "expected correct, got " + v
        got = [l for l in ls if l.startswith("@")]
        if got != want:
            return "expected the messages %s, got %s" % (want, got)
    return judge


cases = []
last = [0, 0]


def part(name):
    flush()
    n = len(c.seen)
    c.parts[name] = dict(states=n - last[0], transitions=c.transitions - last[1])
    last[:] = [n, c.transitions]


def add(key, files, starts, argv=None, stdin=None, extra=None, cwd=""):
    fs = {k: (text(v) if not isinstance(v, str) else v) for k, v in files.items()}
    if extra:
        fs.update(extra)
    argv = argv if argv is not None else [p for p, _ in starts]
    if cwd:
        argv = ["cd:" + cwd] + argv
    cases.append(Case(key, None, expect(files, starts, stdin, tuple(cwd.split("/")) if cwd else ()), files=fs, argv=argv,
                      stdin=None if stdin is None else text(stdin)))
    if len(cases) >= 20000:
        flush()


def flush():
    global cases
    if cases:
        c.sample({"files": cases[0].files, "argv": cases[0].argv}.__repr__())
        c.run(cases)
    cases = []


# ---------------------------------------------------------------- spellings
# every path of up to N segments, from a file two directories deep
TREE = {"a.eo": [("echo", "@a")], "p/a.eo": [("echo", "@pa")], "p/q/a.eo": [("echo", "@pqa")],
        "p/q/r/a.eo": [("echo", "@pqra")], "p/q/r/b": [("echo", "@pqrb")], "r/a.eo": [("echo", "@ra")],
        "p/q/a": [("echo", "@pqx")]}
N = 6 if TH else 5
ALPHA = ["", ".", "..", "r", "a.eo", "q"]


def spellings(d, n, alpha, tree):
    dirs = {()} | {tuple(f.split("/"))[:i] for f in tree for i in range(len(f.split("/")))}
    files = {tuple(f.split("/")) for f in tree}
    for k in range(1, n + 1):
        for segs in itertools.product(alpha, repeat=k):
            path = "/".join(segs)
            if path.startswith("/"):
                continue
            # climbing above, or going on after something that is no directory,
            # is left to the operating system: not judged
            cur, ok = list(d), True
            for i, s in enumerate(segs):
                if s in ("", "."):
                    ok = ok and tuple(cur) in dirs
                elif s == "..":
                    ok = ok and tuple(cur) in dirs and bool(cur)
                    if cur:
                        cur.pop()
                else:
                    ok = ok and tuple(cur) in dirs
                    cur.append(s)
                if not ok:
                    break
            if ok:
                yield path, tuple(cur)


bytarget = {}
for path, t in spellings(("p", "q"), N, ALPHA, TREE):
    f = dict(TREE)
    f["p/q/m.eo"] = [("echo", "@m"), ("inc", path), ("echo", "@n")]
    add("spell:" + path, f, [("p/q/m.eo", False)])
    bytarget.setdefault(t, []).append(path)
# pairs of spellings, of the same file and of different files
files = [t for t in bytarget if "/".join(t) in TREE]
for t1 in files:
    for t2 in files:
        l1 = bytarget[t1][:12 if TH else 6]
        l2 = bytarget[t2][-(12 if TH else 6):]
        for p1, p2 in itertools.product(l1, l2):
            f = dict(TREE)
            f["p/q/m.eo"] = [("inc", p1), ("echo", "@m"), ("inc", p2), ("echo", "@n"), ("inc", p1)]
            add("spell2:%s,%s" % (p1, p2), f, [("p/q/m.eo", False)])
# spellings on the command line (relative to the current directory): the main
# file and the option, and a second time as an include
TREE2 = {"a.eo": [("echo", "@a")], "p/a.eo": [("echo", "@pa")], "p/q/a.eo": [("echo", "@pqa")], "q/a.eo": [("echo", "@qa")]}
for path, t in spellings((), 4 if TH else 3, ["", ".", "..", "p", "q", "a.eo"], TREE2):
    if not path:
        continue
    tp = "/".join(t)
    f = dict(TREE2)
    f["m.eo"] = [("echo", "@m")] + [("inc", x) for x in TREE2] + [("echo", "@n")]
    add("opt:" + path, f, [(path, False), ("m.eo", False)], argv=["--include=" + path, "m.eo"])
    add("opt2:" + path, f, [("m.eo", False), (path, False)], argv=["--include=m.eo", path] if path else None)
    f = dict(TREE2)
    add("optin:" + path, f, [(path, False)], argv=["--include=" + path],
        stdin=[("echo", "@m")] + [("inc", x) for x in TREE2] + [("echo", "@n")])
    f = dict(TREE2)
    f["m.eo"] = [("inc", "p/c.eo"), ("echo", "@e")]
    f["p/c.eo"] = [("inc", "../" + path), ("echo", "@m"), ("inc", "../a.eo"), ("inc", "a.eo"), ("inc", "q/a.eo"), ("inc", "../q/a.eo")]
    add("optc:" + path, f, [("m.eo", False)])
    add("optd:" + path, f, [(path, False), ("m.eo", False)], argv=["m.eo", "--include=" + path])
# the same when started in a subdirectory, such that the paths lead upwards
TREE3 = dict(TREE, **{"x.eo": [("echo", "@x")], "p/x.eo": [("echo", "@px")]})
for cwd in ("p", "p/q", "p/q/r"):
    d = tuple(cwd.split("/"))
    mains = [m for m in ("m.eo", "./m.eo", "../m.eo", "../%s/m.eo" % d[-1], "../../m.eo", "../../%s/m.eo" % "/".join(d[-2:]), "../../../m.eo")
             if m.count("..") <= len(d) and not (len(d) < 2 and m.count("/") > 3)]
    A3 = ["", ".", "..", "r", "q", "p", "a.eo", "x.eo"]
    for m in mains:
        mt = resolve(d, m, {d[:i] for i in range(len(d) + 1)})
        if mt is None:
            continue
        for path, t in spellings(mt[:-1], 4 if TH else 3, A3, TREE3):
            # from the directory of the main file
            f = dict(TREE3)
            f["/".join(mt)] = [("echo", "@m"), ("inc", path), ("echo", "@n"), ("inc", "a.eo")]
            add("cwd:%s:%s:%s" % (cwd, m, path), f, [(m, False)], cwd=cwd)
    for path, t in spellings(d, 4 if TH else 3, A3, TREE3):
        if not path:
            continue
        f = dict(TREE3)
        f["/".join(d) + "/m.eo"] = [("echo", "@m"), ("inc", "x.eo"), ("inc", "../x.eo"), ("inc", "a.eo"), ("inc", "../a.eo"), ("echo", "@n")]
        add("cwdopt:%s:%s" % (cwd, path), f, [(path, False), ("m.eo", False)], argv=["--include=" + path, "m.eo"], cwd=cwd)
        add("cwdarg:%s:%s" % (cwd, path), f, [(path, False)], argv=[path], cwd=cwd)
        add("cwdin:%s:%s" % (cwd, path), dict(TREE3), [], argv=[], stdin=[("echo", "@m"), ("inc", path), ("echo", "@n"), ("inc", "../a.eo")], cwd=cwd)
# absolute paths: what they include is resolved against their directory
for p1 in ("a.eo", "p/a.eo", "p/q/a.eo"):
    base = "/proc/self/cwd/"
    fs = {"m.eo": '(echo "@m")\n(include "%s%s")\n(echo "@n")\n' % (base, p1)}
    for n in ("a.eo", "p/a.eo", "p/q/a.eo"):
        fs[n] = '(echo "@%s")\n(include "x.eo")\n' % n
        fs[n[:-4] + "x.eo"] = '(echo "@x %s")\n' % n
    want = ["@m", "@" + p1, "@x " + p1, "@n"]

    def judge(v, out, want=want):
        got = [l for l in out.split("\n") if l.startswith("@")]
        if v != "correct" or got != want:
            return "expected %s, got %s %s" % (want, v, got)
    cases.append(Case("abs:" + p1, None, judge, files=fs, argv=["m.eo"]))
    cases.append(Case("absmain:" + p1, None, lambda v, o, w=want[1:3]: None if v == "correct" and [l for l in o.split("\n") if l.startswith("@")] == w else "expected %s" % w,
                      files=fs, argv=[base + p1]))
# absolute and relative paths name the same files
FS3 = ["a.eo", "p/a.eo", "p/q/a.eo"]
for ps in itertools.product(FS3, repeat=3 if TH else 2):
    for ab in itertools.product((0, 1), repeat=len(ps)):
        for main in ("m.eo", "p/m.eo"):
            up = "../" * main.count("/")
            fs = {n: '(echo "@%s")\n' % n for n in FS3}
            fs[main] = "".join('(include "%s%s")\n' % ("/proc/self/cwd/" if a else up, x) for x, a in zip(ps, ab))
            want = ["@" + x for x in dict.fromkeys(ps)]
            c.tr(len(ps))
            for m in (main, "/proc/self/cwd/" + main):
                cases.append(Case("mix:%s:%s:%s" % (ps, ab, m), None, lambda v, o, w=want: None if v == "correct" and [l for l in o.split("\n") if l.startswith("@")] == w else "expected correct, %s" % w,
                                  files=fs, argv=[m]))
# file names with unusual characters are taken literally
for nm in ("a b.eo", "a", ".a", "..a", "a..", "...", "a.EO", "-a", "a\\b.eo", "a;b.eo", "(a).eo", "|a|", "a.eo.", "~a", "$a", "a'b", "%s", "*.eo", "a:b", "a,b", "#a"):
    for d in ("", "s/", "..s/", ".s/", "s ./", "a b/"):
        f = {"m.eo": [("inc", d + nm), ("echo", "@m"), ("inc", d + "./" + nm)], d + nm: [("echo", "@a"), ("inc", "z")], d + "z": [("echo", "@z")]}
        add("name:" + d + nm, f, [("m.eo", False)])
        if not nm.startswith("-"):
            add("namemain:" + d + nm, {d + nm: [("echo", "@a"), ("inc", "z")], d + "z": [("echo", "@z")]}, [(d + nm, False)])
# a double quote in a path is written twice
cases.append(Case("quote", None, lambda v, o: None if v == "correct" and o.startswith("@q\n@m\n") else "expected @q @m",
                  files={"m.eo": '(include "a""b.eo")\n(echo "@m")\n', 'a"b.eo': '(echo "@q")\n'}, argv=["m.eo"]))
part("paths")

# ---------------------------------------------------------------- graphs
# every include graph over four files in three directories
NODES = ["m.eo", "d/a.eo", "d/e/b.eo", "f/c.eo"]
REL = {}
for x in NODES:
    for y in NODES:
        dx = x.split("/")[:-1]
        yy = y.split("/")
        k = 0
        while k < len(dx) and k < len(yy) - 1 and dx[k] == yy[k]:
            k += 1
        REL[x, y] = "/".join([".."] * (len(dx) - k) + yy[k:])


def outs(n):
    return [t for k in range(n + 1) for t in itertools.product(range(4), repeat=k)]


def body(i, inc):
    its = [("echo", "@%d" % i), ("raw", "(declare-const s%d Type)" % i), ("raw", "(define cur () s%d)" % i)]
    for j in inc:
        its += [("inc", REL[NODES[i], NODES[j]]), ("echo", "@%d-%d" % (i, j))]
    return its


def order(g, i, seen, acc):
    """the order in which files begin"""
    seen.add(i)
    acc.append(i)
    for j in g[i]:
        if j not in seen:
            order(g, j, seen, acc)
    return acc


deg = (2, 2, 2, 2) if TH else (2, 2, 2, 1)
for g in itertools.product(*[outs(d) for d in deg]):
    # graphs where a file cannot be reached from the main file are covered by
    # the ones where it includes nothing
    acc = order(g, 0, set(), [])
    if any(g[i] for i in range(4) if i not in acc):
        continue
    f = {NODES[i]: body(i, g[i]) for i in range(4)}
    # after everything is read, the last definition read is the current one,
    # and symbols of all files read are there
    f["m.eo"] += [("raw", "(declare-const chk (eo::requires cur s%d Type))" % acc[-1])]
    f["m.eo"] += [("raw", "(declare-const u%d s%d)" % (i, i)) for i in acc]
    add("graph:%r" % (g,), f, [("m.eo", False)])
    if len(acc) < 4:
        i = [i for i in range(4) if i not in acc][0]
        f = dict(f)
        f["m.eo"] = f["m.eo"] + [("err", "(declare-const w s%d)" % i)]
        add("graphu:%r" % (g,), f, [("m.eo", False)])
part("graphs")

# the same graphs started in different ways
for g in itertools.product(outs(1), outs(2), outs(1), outs(1)):
    acc = order(g, 1, set(), [])
    if any(g[i] for i in range(4) if i not in acc):
        continue
    f = {NODES[i]: body(i, g[i]) for i in range(4)}
    k = "start:%r" % (g,)
    add(k + "/main", f, [("d/a.eo", False)])
    f2 = dict(f)
    f2["x.smt3"] = [("inc", "d/a.eo"), ("echo", "@x"), ("inc", "d/e/b.eo")]
    add(k + "/proof", f2, [("x.smt3", False)])
    add(k + "/opt", f2, [("d/e/b.eo", False), ("d/a.eo", False), ("x.smt3", False)],
        argv=["--include=d/e/b.eo", "x.smt3", "--include=d/a.eo"])
    add(k + "/stdin", f, [("f/c.eo", False)], argv=["--include=f/c.eo"], stdin=[("inc", "d/a.eo"), ("echo", "@x"), ("inc", "f/c.eo")])
part("ways of starting")

# ---------------------------------------------------------------- kinds
# references: at most one, never a file that was read before, nothing but
# reference commands in it
FL = {"a.x": [("echo", "@a")], "s/b.x": [("echo", "@b")], "n.x": [("echo", "@n"), ("inc", "a.x")],
      "k.x": [("echo", "@k"), ("ref", "a.x"), ("echo", "@k2")]}
ITEMS = [("inc", "a.x"), ("ref", "a.x"), ("inc", "s/b.x"), ("ref", "s/b.x"), ("ref", "./s//b.x"), ("inc", "n.x"), ("ref", "n.x"), ("inc", "k.x"), ("ref", "k.x"), ("ref", "none.x")]
OPTS = [()] + [((o, f),) for o in ("include", "reference") for f in ("a.x", "s/b.x", "k.x")]
OPTS += [a + b for a in OPTS[1:] for b in OPTS[1:]]
for n in range(0, 4):
    for its in itertools.product(ITEMS, repeat=n):
        m = []
        for i, it in enumerate(its):
            m += [it, ("echo", "@%d" % i)]
        for o in OPTS if n < (4 if TH else 2) else OPTS[:1 + 6]:
            st = [(f, k == "reference") for k, f in o]
            av = ["--%s=%s" % (k, f) for k, f in o]
            for main in ("m.eo", "m.p") if n < 3 else ("m.eo",):
                f = dict(FL)
                f[main] = m
                add("kind:%s:%r:%r" % (main, o, its), f, st + [(main, False)], argv=av + [main])
            add("kind:-:%r:%r" % (o, its), FL, st, argv=av, stdin=m)
part("kinds of files")

# ---------------------------------------------------------------- scopes
# scopes and includes interleaved, in both files
PRE = [("raw", "(declare-const p Bool)"), ("raw", "(declare-rule pop ((A Bool) (F Bool)) :assumption A :premises (F) :conclusion F)"), ("raw", "(assume h p)")]
A = [("push",), ("pop",), ("ap",), ("sp",), ("exit",)]
M = [("push",), ("pop",), ("ap",), ("sp",), ("inc", "s/a.eo")]


def marked(its, tag):
    o = [("echo", "@%s" % tag)]
    for i, it in enumerate(its):
        o += [it, ("echo", "@%s%d" % (tag, i))]
    return o


la, lm = (4, 4) if TH else (3, 3)
As = [t for k in range(la + 1) for t in itertools.product(A, repeat=k)]
Ms = [t for k in range(1, lm + 1) for t in itertools.product(M, repeat=k)]
for m in Ms:
    if not any(i[0] == "inc" for i in m):
        continue
    for a in As:
        f = {"m.eo": PRE + marked(m, "m"), "s/a.eo": marked(a, "a")}
        add("scope:%r:%r" % (m, a), f, [("m.eo", False)])
        if len(m) < lm and len(a) < 2:
            f = {"p.eo": PRE, "s/a.eo": marked(a, "a")}
            add("scopein:%r:%r" % (m, a), f, [("p.eo", False)], argv=["--include=p.eo"], stdin=marked(m, "m"))
            f = {"p.eo": PRE, "s/a.eo": marked(a, "a"), "m.eo": marked(m, "m")}
            add("scopeopt:%r:%r" % (m, a), f, [("p.eo", False), ("s/a.eo", False), ("m.eo", False)], argv=["--include=p.eo", "--include=s/a.eo", "m.eo"])
part("scopes")

# ---------------------------------------------------------------- chains
# long chains and many files: the directory is restored after every include
for n in ([1, 2, 3, 10, 50] + ([120, 200] if TH else [])):
    f = {}
    for i in range(n):
        d = "/".join(["x"] * (i % 5 + 1))
        nxt = "/".join([".."] * (i % 5 + 1) + ["x"] * ((i + 1) % 5 + 1) + ["%d.eo" % (i + 1)])
        f["%s/%d.eo" % (d, i)] = [("echo", "@%d" % i)] + ([("inc", nxt)] if i + 1 < n else []) + [("inc", "y%d.eo" % (i % 5)), ("echo", "@%d." % i)]
    for i in range(5):
        f["/".join(["x"] * (i + 1)) + "/y%d.eo" % i] = [("echo", "@y%d" % i)]
    add("chain:%d" % n, f, [("x/0.eo", False)])
    f = {"d%d/a%d.eo" % (i % 7, i): [("echo", "@%d" % i)] for i in range(n)}
    f["m/m.eo"] = [("inc", "../d%d/a%d.eo" % (i % 7, i)) for i in list(range(n)) * 2]
    add("fan:%d" % n, f, [("m/m.eo", False)])
part("chains")
c.bounds = ["path spellings of up to %d segments over %s from a file two directories deep; pairs of spellings" % (N, ALPHA),
            "all include graphs over 4 files with out-degree up to %r" % (deg,),
            "all sequences of up to 3 include/reference items, of up to %d under all pairs of command line includes/references" % (3 if TH else 1),
            "all sequences of up to %d commands around an include of a file with up to %d scope commands" % (lm, la)]
c.assumptions = ["no symbolic links; paths through things that are not directories and paths climbing above the start directory are not judged"]
scale.run(c)
c.finish()
