"""Shared machinery of every check: build the checker from /repo's working
tree, run enumerated cases against it, compare with the reference model's
verdict, report violations with replay files, and write the evidence file.
"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 8

KINDS = {
    # what users run: the project's Release profile, linked statically so
    # that starting one process per case is cheap
    "rel": dict(cxx="-O2", ld="-static", mem=6000),
    # the project's Debug profile (internal assertions on)
    "dbg": dict(cxx="-O1 -D_GLIBCXX_ASSERTIONS -DEO_ASSERTIONS -DEO_TRACING", ld="-static", mem=6000),
    # memory safety / undefined behaviour monitors
    "asan": dict(cxx="-O1 -g1 -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer -fsanitize=address,undefined "
                     "-fno-sanitize-recover=all",
                 ld="-fsanitize=address,undefined", mem=0),
}


def die(msg):
    sys.stderr.write("CHECK ERROR: %s\n" % msg)
    sys.stdout.flush()
    os._exit(2)


def sources():
    src = os.path.join(REPO, "src")
    out = []
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            if f.endswith((".cpp", ".h")):
                out.append(os.path.join(d, f))
    return sorted(out)


def _lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build(kind="rel"):
    """Builds /repo/src's current content; returns the binary's path. The
    result is keyed by the content of every source file, so it is never stale."""
    k = KINDS[kind]
    h = hashlib.sha256(repr(k).encode())
    srcs = sources()
    for s in srcs:
        h.update(s.encode())
        with open(s, "rb") as f:
            h.update(f.read())
    out = os.path.join(BUILD, "%s-%s" % (kind, h.hexdigest()[:20]))
    exe = os.path.join(out, "ethos")
    lock = _lock(kind)
    try:
        if os.path.exists(exe):
            return exe
        if os.path.isdir(BUILD):
            olds = sorted((os.path.getmtime(os.path.join(BUILD, d)), d)
                          for d in os.listdir(BUILD)
                          if d.startswith(kind + "-"))
            for _, d in olds[:-3]:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        procs = []
        objs = []
        cpps = [s for s in srcs if s.endswith(".cpp")]
        # largest first
        cpps.sort(key=lambda s: -os.path.getsize(s))
        fails = []

        def reap(maxn):
            while len(procs) > maxn:
                p, s, log = procs.pop(0)
                if p.wait() != 0:
                    fails.append((s, open(log).read()[-3000:]))
        for i, s in enumerate(cpps):
            o = os.path.join(tmp, "%d.o" % i)
            log = os.path.join(tmp, "%d.log" % i)
            objs.append(o)
            cmd = ["g++", "-std=gnu++17", "-w", "-I" + os.path.join(REPO, "src")] \
                + k["cxx"].split() + ["-c", s, "-o", o]
            procs.append((subprocess.Popen(cmd, stdout=open(log, "w"),
                                           stderr=subprocess.STDOUT), s, log))
            reap(NCPU - 1)
        reap(0)
        if fails:
            shutil.rmtree(tmp, ignore_errors=True)
            die("cannot compile %s:\n%s" % fails[0])
        cmd = ["g++"] + k["cxx"].split() + objs + ["-o", os.path.join(tmp, "ethos")] \
            + k["ld"].split() + ["-lgmpxx", "-lgmp"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            shutil.rmtree(tmp, ignore_errors=True)
            die("cannot link: " + r.stderr[-3000:])
        for o in objs:
            os.unlink(o)
            os.unlink(o[:-2] + ".log")
        os.rename(tmp, out)
        return exe
    finally:
        lock.close()


def runner():
    src = os.path.join(VERIF, "runner", "mcrun.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "mcrun-" + h)
    lock = _lock("mcrun")
    try:
        if not os.path.exists(exe):
            t = exe + ".tmp%d" % os.getpid()
            r = subprocess.run(["g++", "-O2", "-std=gnu++17", "-pthread", src,
                                "-o", t], capture_output=True, text=True)
            if r.returncode != 0:
                die("cannot build the runner: " + r.stderr)
            os.rename(t, exe)
        return exe
    finally:
        lock.close()


class Case:
    """One execution of the checker. expect: 'correct', 'incomplete',
    'reject', 'accept' (correct or incomplete), 'any' (any verdict, no crash),
    or a callable (verdict, output) -> None or a string saying what is wrong."""
    __slots__ = ("key", "files", "argv", "stdin", "expect", "info", "cuts")

    def __init__(self, key, text=None, expect="correct", files=None, argv=None,
                 stdin=None, name="c.eo", info=None, cuts=None):
        # cuts: stdin is a pipe, delivered in pieces cut at these offsets
        self.cuts = cuts
        self.key = key
        self.files = dict(files or {})
        if text is not None:
            self.files[name] = text
        self.argv = argv if argv is not None else ([name] if stdin is None else [])
        self.stdin = stdin
        self.expect = expect
        self.info = info

    def pack(self):
        b = [struct.pack("<B", len(self.argv))]
        for a in self.argv:
            a = a.encode("utf-8", "surrogateescape")
            b.append(struct.pack("<H", len(a)) + a)
        if self.stdin is None:
            b.append(b"\0")
        else:
            s = self.stdin if isinstance(self.stdin, bytes) else \
                self.stdin.encode("utf-8", "surrogateescape")
            b.append((b"\1" if self.cuts is None else b"\2") + struct.pack("<I", len(s)) + s)
            if self.cuts is not None:
                b.append(struct.pack("<H", len(self.cuts)))
                b += [struct.pack("<I", k) for k in self.cuts]
        b.append(struct.pack("<B", len(self.files)))
        for n, c in self.files.items():
            n = n.encode()
            c = c if isinstance(c, bytes) else c.encode("utf-8", "surrogateescape")
            b.append(struct.pack("<H", len(n)) + n + struct.pack("<I", len(c)) + c)
        p = b"".join(b)
        return struct.pack("<I", len(p)) + p


CRASHSIG = {256 + s: n for s, n in
            {4: "SIGILL", 7: "SIGBUS", 8: "SIGFPE", 11: "SIGSEGV", 9: "SIGKILL"}.items()}


def verdict(status, out):
    """-> 'correct' | 'incomplete' | 'reject' | 'crash:<why>' | 'timeout'"""
    if status == 1000:
        return "timeout"
    if status == 1001:
        die("cannot execute the checker")
    if status in CRASHSIG:
        return "crash:" + CRASHSIG[status]
    if "ERROR: AddressSanitizer" in out:
        return "crash:asan"
    if "runtime error:" in out:
        return "crash:ubsan"
    if "Check failure" in out or "Unreachable code reached" in out or \
            ("Assertion '" in out and "failed." in out):
        return "crash:assertion"
    if "terminate called" in out:
        return "crash:uncaught-exception"
    if status == 0:
        tail = out.rstrip("\n").rsplit("\n", 1)[-1]
        if tail in ("correct", "incomplete"):
            return tail
        for l in reversed(out.split("\n")):
            if l in ("correct", "incomplete"):
                return l
        return "no-verdict"
    return "reject"


def execute(cases, exe, timeout=10.0, outcap=3000, mem=6000, workers=None, limit=None):
    """Runs cases (a list); returns [(verdict, output)] in order. After limit
    timeouts the rest is not run and gets the verdict 'skipped'."""
    if not cases:
        return []
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    scratch = tempfile.mkdtemp(prefix="ethos-mc-", dir=base)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:alloc_dealloc_mismatch=0:hard_rss_limit_mb=2500:detect_stack_use_after_return=0",
               LC_ALL="C", MALLOC_PERTURB_="165")
    try:
        p = subprocess.Popen([runner(), exe, str(workers or NCPU), str(int(timeout * 1000)),
                              str(outcap), scratch, str(mem)],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, process_group=0)

        def feed():
            try:
                buf = []
                n = 0
                for c in cases:
                    d = c.pack()
                    buf.append(d)
                    n += len(d)
                    if n > 1 << 18:
                        p.stdin.write(b"".join(buf))
                        buf, n = [], 0
                p.stdin.write(b"".join(buf))
                p.stdin.close()
            except (BrokenPipeError, ValueError):
                pass
            except Exception as e:
                die("cannot pack a case: %r" % e)
        t = threading.Thread(target=feed)
        t.start()
        res = [None] * len(cases)
        rd = p.stdout
        slow = 0
        for _ in range(len(cases)):
            h = rd.read(12)
            if len(h) < 12:
                die("the runner ended early")
            i, st, n = struct.unpack("<IiI", h)
            o = rd.read(n).decode("utf-8", "replace")
            res[i] = (verdict(st, o), o)
            slow += st == 1000
            if limit and slow >= limit:
                os.killpg(p.pid, signal.SIGKILL)
                break
        p.wait()
        rd.close()
        t.join()
        return [r or ("skipped", "") for r in res]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def mismatch(case, v, out):
    e = case.expect
    if callable(e):
        return e(v, out)
    if e == "any":
        return None if v in ("correct", "incomplete", "reject") else "got " + v
    if e == "accept":
        return None if v in ("correct", "incomplete") else "expected acceptance, got " + v
    return None if v == e else "expected %s, got %s" % (e, v)


class Check:
    MAXREPORT = int(os.environ.get("VERIF_MAXREPORT", "8"))

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if "--quick" in sys.argv:
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.execs = 0
        self.samples = []
        self.seen = set()
        self.parts = {}
        self.outcomes = {}
        self.assumptions = []
        self.viol = []
        self.known_hit = {}
        self.exe_cache = {}
        self.exhaustive = True
        self.bounds = []
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = []
        if os.path.exists(kf):
            self.known = [f for f in json.load(open(kf))["findings"]
                          if f["property"] == prop and f["status"] == "known"]

    def exe(self, kind="rel"):
        if kind not in self.exe_cache:
            self.exe_cache[kind] = build(kind)
        return self.exe_cache[kind]

    # ---- counting
    def part(self, name, states=0, transitions=0):
        """Adds measured counts for one enumerated family: states are distinct
        model states (terms, values, proof states), transitions the model
        operations / commands applied to them. Traces replayed against the
        binary are counted by run() and positive()."""
        p = self.parts.setdefault(name, dict(states=0, transitions=0))
        p["states"] += states
        p["transitions"] += transitions
        self.states += states
        self.transitions += transitions

    def st(self, *xs):
        """Registers model states; counted when distinct."""
        for x in xs:
            self.seen.add(hash(x))

    def tr(self, n=1):
        self.transitions += n

    def sample(self, text, n=12):
        if len(self.samples) < n:
            self.samples.append(text if len(text) < 1200 else text[:1200] + "...")

    # ---- running
    def run(self, cases, kind="rel", timeout=10.0, outcap=3000):
        """Runs single cases, records mismatches. Returns verdict list."""
        res = self.execute(cases, kind, timeout, outcap)
        self.execs += len(cases)
        self.traces += len(cases)
        for c, (v, o) in zip(cases, res):
            self.outcomes[v] = self.outcomes.get(v, 0) + 1
            m = mismatch(c, v, o)
            if m:
                self._confirm(c, kind, m, timeout, outcap)
                if len(self.viol) >= self.MAXREPORT or (self.viol and time.time() - self.t0 > 300):
                    self.finish()
        return res

    def execute(self, cases, kind="rel", timeout=10.0, outcap=3000):
        """Runs the cases; those that exceed the time limit are run again with
        a longer one, alone, and the first that exceeds it is a violation."""
        exe, mem = self.exe(kind), KINDS[kind]["mem"]
        res = execute(cases, exe, timeout, outcap, mem, limit=12)
        slow = [i for i, (v, o) in enumerate(res) if v == "timeout"]
        if slow:
            longer = min(timeout * 4, max(timeout, 100.0))
            for i in slow[:3]:
                res[i], = execute([cases[i]], exe, longer, outcap, mem, workers=1)
                m = res[i][0] == "timeout" and mismatch(cases[i], *res[i])
                if m:
                    self.violation(cases[i], kind, m, res[i][1])
                    if self.viol:
                        self.finish()
            rest = [i for i, (v, o) in enumerate(res) if v in ("timeout", "skipped")]
            for i, r in zip(rest, execute([cases[i] for i in rest], exe, longer, outcap, mem)):
                res[i] = r
        return res

    def _confirm(self, case, kind, m, timeout, outcap):
        # replay before report; a timeout gets a longer limit, alone
        (v, o), = execute([case], self.exe(kind), timeout * 4, outcap,
                          KINDS[kind]["mem"], workers=1)
        m2 = mismatch(case, v, o)
        if not m2:
            if "timeout" in m:
                return
            # it may depend on the addresses or times of a run
            for v, o in execute([case] * 40, self.exe(kind), timeout * 4, outcap, KINDS[kind]["mem"]):
                m2 = mismatch(case, v, o)
                if m2:
                    break
            else:
                sys.stderr.write("case %s failed once and never again: %s\n" % (case.key, m))
                return
        self.violation(case, kind, m2, o)

    def violation(self, case, kind, what, out=""):
        for f in self.known:
            if case.key in f["keys"]:
                self.known_hit.setdefault(f["id"], f)
                return
        if len(self.viol) >= self.MAXREPORT:
            return
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d.json" % (self.prop, len(self.viol) + 1))

        def s(x):
            return x.decode("utf-8", "replace") if isinstance(x, bytes) else x
        json.dump(dict(property=self.prop, key=case.key, what=what, build=kind,
                       argv=case.argv, files={k: s(v) for k, v in case.files.items()},
                       stdin=s(case.stdin) if case.stdin is not None else None,
                       info=case.info, cuts=case.cuts, output=out[:3000]),
                  open(path, "w"), indent=1)
        self.viol.append((path, case.key, what))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  case %s: %s" % (case.key, what))
        o = [l for l in out.split("\n") if l.strip()]
        if o:
            print("  output: " + " | ".join(o[:4])[:400])
        sys.stdout.flush()

    def positive(self, prelude, lines, kind="rel", mode="eo", chunk=250, expect="correct",
                 argv=None, timeout=20.0, name=None):
        """lines: [(key, text)], each text a self-contained group of commands
        that must be accepted after the prelude. They are checked many to a
        file; when a file fails, its members are re-run one per process."""
        name = name or ("c.eo" if mode == "eo" else "c.smt3")
        argv = argv or [name]
        cases = []
        groups = []
        for i in range(0, len(lines), chunk):
            g = lines[i:i + chunk]
            groups.append(g)
            cases.append(Case(g[0][0] + "..", prelude + "\n" + "\n".join(t for _, t in g) + "\n",
                              expect, name=name, argv=argv))
        res = self.execute(cases, kind, timeout)
        self.execs += len(cases)
        self.traces += len(lines)
        for g, c, (v, o) in zip(groups, cases, res):
            self.outcomes[v] = self.outcomes.get(v, 0) + len(g)
            if mismatch(c, v, o) is None:
                continue
            singles = [Case(k, prelude + "\n" + t + "\n", expect, name=name, argv=argv)
                       for k, t in g]
            sres = self.execute(singles, kind, timeout)
            self.execs += len(singles)
            bad = [(s, mismatch(s, vv, oo), oo) for s, (vv, oo) in zip(singles, sres)
                   if mismatch(s, vv, oo)]
            if bad:
                for s, m, oo in bad:
                    self.violation(s, kind, m, oo)
                if len(self.viol) >= self.MAXREPORT:
                    self.finish()
                continue
            # fails only together: shrink the history
            self._shrink(prelude, g, expect, kind, name, argv, timeout)
            if len(self.viol) >= self.MAXREPORT:
                self.finish()

    def _shrink(self, prelude, g, expect, kind, name, argv, timeout):
        def bad(sub):
            c = Case("history:" + sub[-1][0], prelude + "\n" + "\n".join(t for _, t in sub) + "\n",
                     expect, name=name, argv=argv)
            (v, o), = execute([c], self.exe(kind), timeout, 3000, KINDS[kind]["mem"])
            self.execs += 1
            return c, mismatch(c, v, o), o
        cur = list(g)
        for _ in range(20):
            c, m, o = bad(cur)
            if m:
                break
        else:
            sys.stderr.write("batch of %s failed once and never again\n" % g[0][0])
            return
        step = max(1, len(cur) // 2)
        while step >= 1:
            i = 0
            while i < len(cur) and len(cur) > 1:
                sub = cur[:i] + cur[i + step:]
                if sub and bad(sub)[1]:
                    cur = sub
                else:
                    i += step
            step //= 2
        c, m, o = bad(cur)
        self.violation(c, kind, "each command group is accepted alone, together: " + m, o)

    # ---- ending
    def finish(self):
        for f in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        self.states += len(self.seen)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   process_executions=self.execs,
                   verdicts_observed=self.outcomes,
                   families=self.parts, bounds=self.bounds,
                   samples=self.samples or ["none"],
                   exhaustive=bool(self.exhaustive and not self.viol))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.rename(p + ".tmp", p)
        print("%s %s: states=%d transitions=%d traces=%d executions=%d violations=%d wall=%.1fs"
              % (self.prop, self.tier, self.states, self.transitions, self.traces,
                 self.execs, len(self.viol), time.time() - self.t0))
        sys.stdout.flush()
        sys.exit(1 if self.viol else 0)
