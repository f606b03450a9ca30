"""A small property-based-testing engine (choice-sequence based, in the style of Hypothesis /
minithesis): deterministic from VERIF_SEED, integrated shrinking, replay files.

A check is a subclass of Prop:
    gen(s)            -> a JSON-able case drawn from the choice source s
    check(case, rig)  -> Info(nontrivial, labels); raises Violation when the oracle disagrees
The rig owns the harness processes.  A violation is reported only if it reproduces in fresh
processes; anything that goes wrong in the machinery itself is a HarnessError (exit code 3).
"""
import hashlib
import json
import math
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402

VERIF = B.VERIF


class Violation(Exception):
    """The observed behaviour contradicts the oracle."""


class HarnessError(Exception):
    """The machinery failed; says nothing about the property."""


class Discard(Exception):
    """The generated case is not usable."""


class _Stop(Exception):
    pass


class Src:
    """Source of choices: random, or replaying a recorded prefix."""

    def __init__(self, rnd=None, prefix=(), limit=20000):
        self.rnd = rnd
        self.prefix = prefix
        self.choices = []
        self.limit = limit

    def _next(self, n, f):
        """a choice in [0, n]; f draws it at random"""
        if n < 0:
            raise HarnessError("empty choice")
        i = len(self.choices)
        if i >= self.limit:
            raise _Stop()
        if i < len(self.prefix):
            v = min(self.prefix[i], n)
        elif self.rnd is not None:
            v = f()
        else:
            v = 0
        self.choices.append(v)
        return v

    # -- drawing; the smallest choice is always the simplest value --
    def bits(self, n):
        return self._next(n, lambda: self.rnd.randint(0, n))

    def int(self, lo, hi):
        return lo + self.bits(hi - lo)

    def bool(self, p=0.5):
        return self._next(1, lambda: 1 if self.rnd.random() < p else 0) == 1

    def pick(self, seq):
        return seq[self.bits(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; first is the simplest"""
        tot = sum(w for w, _ in pairs)

        def f():
            x = self.rnd.random() * tot
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self._next(len(pairs) - 1, f)][1]

    def more(self, p=0.85):
        """loop control: while s.more(): ..."""
        return self._next(1, lambda: 1 if self.rnd.random() < p else 0) == 1

    def list(self, f, lo=0, hi=10, p=0.75):
        out = []
        while len(out) < hi:
            if len(out) >= lo and not self.more(p):
                break
            out.append(f())
        return out

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.bits(len(seq) - 1 - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    # geometric-ish small integers
    def small(self, hi, p=0.6):
        def f():
            n = 0
            while n < hi and self.rnd.random() < p:
                n += 1
            return n
        return self._next(hi, f)

    def real(self, lo, hi):
        """an arbitrary double in [lo, hi]; 0 choice is lo"""
        k = self.bits((1 << 30) - 1)
        return lo + (hi - lo) * (k / float((1 << 30) - 1))

    def anydouble(self):
        """a double over the whole finite range, from its bit pattern, plus special values"""
        import struct
        kind = self.weighted([(2, "nice"), (2, "int"), (3, "bits"), (1, "edge")])
        if kind == "nice":
            return self.pick([0.0, 1.0, 0.5, -1.0, 0.1, 1e-3, 2.5, 1e6, 1.0 / 3])
        if kind == "int":
            return float(self.int(-1000, 1000))
        if kind == "edge":
            return self.pick([-0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
                              -1.7976931348623157e308, 1 + 2.0 ** -52, 0.1 + 0.2, 1e299, 1e16 + 2,
                              123456.789012345, 4294967296.0, 1e-8])
        while True:
            hi = self.bits(0xFFFFFFFF)
            lo = self.bits(0xFFFFFFFF)
            v = struct.unpack(">d", struct.pack(">II", hi, lo))[0]
            if math.isfinite(v):
                return v
            return 0.25


class Info:
    __slots__ = ("nontrivial", "labels")

    def __init__(self, nontrivial, labels=()):
        self.nontrivial = bool(nontrivial)
        self.labels = list(labels)


class Crash(Exception):
    pass


class Server:
    """A harness process; every case is executed in a forked child of it."""

    def __init__(self, path, cwd, args=(), env=None):
        self.path, self.cwd, self.args, self.env = path, cwd, list(args), env
        self.p = None

    def start(self):
        e = dict(os.environ)
        e["LC_ALL"] = "C"
        e.pop("CYCLUS_PATH", None)
        if self.env:
            e.update(self.env)
        self.err = open(os.path.join(self.cwd, "stderr.txt"), "wb")
        self.p = subprocess.Popen([self.path] + self.args, cwd=self.cwd, env=e,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  bufsize=1 << 16, start_new_session=True)

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None
            self.err.close()

    def call(self, text):
        """Run one case; returns the observation lines.  Raises Crash when the code under test
        died (signal, exit, timeout in the child)."""
        if self.p is None:
            self.start()
        if isinstance(text, (list, tuple)):
            text = "\n".join(text)
        data = (text + "\nENDCASE\n").encode("utf-8", "surrogateescape")
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
            out = []
            while True:
                ln = self.p.stdout.readline()
                if not ln:
                    raise HarnessError("harness server died: %s" % self.path)
                ln = ln.decode("utf-8", "surrogateescape").rstrip("\n")
                if ln == "ENDOBS ok":
                    return out
                if ln.startswith("ENDOBS "):
                    self.last_partial = out
                    if ln.startswith("ENDOBS harness"):
                        raise HarnessError(ln + " " + " | ".join(out[-5:]))
                    raise Crash(ln[7:])
                out.append(ln)
        except (BrokenPipeError, OSError) as e:
            self.stop()
            raise HarnessError("harness i/o: %s" % e)


class Rig:
    def __init__(self, built):
        self.built = built
        self.dir = tempfile.mkdtemp(prefix="verif_")
        self.servers = {}
        self.extra = {}

    def server(self, name, args=(), env=None):
        k = (name, tuple(args))
        if k not in self.servers:
            d = os.path.join(self.dir, "srv%d" % len(self.servers))
            os.makedirs(d, exist_ok=True)
            self.servers[k] = Server(self.built[name], d, args, env)
        return self.servers[k]

    def run(self, name, text, args=(), env=None):
        return self.server(name, args, env).call(text)

    def close(self):
        for s in self.servers.values():
            s.stop()
        self.servers = {}
        shutil.rmtree(self.dir, ignore_errors=True)


class Prop:
    id = None
    harnesses = ()
    agents = False
    exe = False
    python = False        # the Python package, for harness h_py
    extra_agents = ()
    quick = 2000          # number of generated cases
    thorough = 40000
    rule = ""
    level = "exploration"
    assumptions = ()
    crash_is_violation = True
    workers = None
    max_samples = 4

    def gen(self, s):
        raise NotImplementedError

    def check(self, case, rig):
        raise NotImplementedError

    def known(self, case, msg):
        """-> id of the known finding this failure is an instance of, or None"""
        return None

    def fixed_cases(self):
        return []

    def setup(self, built):
        pass


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def _judge(prop, case, rig):
    """-> (Info or None, message or None)"""
    try:
        info = prop.check(case, rig)
        return info, None
    except Violation as e:
        return None, str(e)
    except Crash as e:
        if not prop.crash_is_violation:
            raise HarnessError("crash: %s" % e)
        return None, "the code under test died: %s" % e


def _fresh_judge(prop, built, case):
    rig = Rig(built)
    try:
        return _judge(prop, case, rig)
    finally:
        rig.close()


class Shrinker:
    def __init__(self, prop, built, choices, case, msg, budget=400, seconds=60):
        self.prop, self.built = prop, built
        self.best, self.case, self.msg = list(choices), case, msg
        self.budget = budget
        self.deadline = time.time() + seconds
        self.rig = Rig(built)
        self.seen = set()

    def ok(self):
        return self.budget > 0 and time.time() < self.deadline

    def try_(self, choices):
        if not self.ok():
            return False
        t = tuple(choices)
        if t in self.seen:
            return False
        self.seen.add(t)
        s = Src(None, choices)
        try:
            case = self.prop.gen(s)
        except (_Stop, Discard):
            return False
        ch = s.choices
        while ch and ch[-1] == 0:
            ch = ch[:-1]
        if (len(ch), ch) >= (len(self.best), self.best):
            return False
        self.budget -= 1
        try:
            info, msg = _judge(self.prop, case, self.rig)
        except HarnessError:
            self.rig.close()
            self.rig = Rig(self.built)
            return False
        if msg is None or self.prop.known(case, msg):
            return False
        self.best, self.case, self.msg = ch, case, msg
        return True

    def run(self):
        try:
            improved = True
            while improved and self.ok():
                improved = False
                k = max(1, len(self.best) // 2)
                while k >= 1 and self.ok():
                    i = len(self.best) - k
                    while i >= 0 and self.ok():
                        if i + k <= len(self.best) and self.try_(self.best[:i] + self.best[i + k:]):
                            improved = True
                        i -= max(1, k // 2) if k > 1 else 1
                        i = min(i, len(self.best) - k)
                    k //= 2
                k = 8
                while k >= 1 and self.ok():
                    for i in range(0, max(0, len(self.best) - k + 1), k):
                        if any(self.best[i:i + k]):
                            if self.try_(self.best[:i] + [0] * k + self.best[i + k:]):
                                improved = True
                    k //= 2
                i = 0
                while i < len(self.best) and self.ok():
                    lo, hi = 0, self.best[i]
                    while lo < hi and self.ok():
                        mid = (lo + hi) // 2
                        if self.try_(self.best[:i] + [mid] + self.best[i + 1:]):
                            improved = True
                            if i >= len(self.best):
                                break
                            hi = min(mid, self.best[i])
                        else:
                            lo = mid + 1
                    i += 1
        finally:
            self.rig.close()
        return self.best, self.case, self.msg


def _worker(prop, built, seed, idxs, q, wid):
    stats = {"evals": 0, "nontrivial": set(), "labels": {}, "samples": [], "discards": 0,
             "known": {}, "warn": []}
    fail = None
    rig = Rig(built)
    try:
        n_since = 0
        for i in idxs:
            rnd = random.Random("%s/%s/%d" % (seed, prop.id, i))
            s = Src(rnd)
            try:
                case = prop.gen(s)
            except (_Stop, Discard):
                stats["discards"] += 1
                continue
            stats["evals"] += 1
            n_since += 1
            info, msg = _judge(prop, case, rig)
            if msg is not None:
                # confirm in fresh processes, twice
                m2 = _fresh_judge(prop, built, case)[1]
                m3 = _fresh_judge(prop, built, case)[1] if m2 else None
                if not (m2 and m3):
                    stats["warn"].append("case %d not reproducible in a fresh process: %s" % (i, msg))
                    rig.close()
                    rig = Rig(built)
                    continue
                kf = prop.known(case, m3)
                if kf:
                    stats["known"].setdefault(kf, [i, m3])
                    continue
                ch, case2, msg2 = Shrinker(prop, built, s.choices, case, m3).run()
                if _fresh_judge(prop, built, case2)[1] is None:
                    ch, case2, msg2 = s.choices, case, m3
                fail = {"index": i, "choices": ch, "case": case2, "msg": msg2, "orig_case": case}
                break
            for lb in info.labels:
                stats["labels"][lb] = stats["labels"].get(lb, 0) + 1
            if info.nontrivial:
                k = case_key(case)
                if k not in stats["nontrivial"]:
                    stats["nontrivial"].add(k)
                    if len(stats["samples"]) < 2:
                        stats["samples"].append(case)
        q.put((wid, "ok", stats, fail))
    except BaseException:
        q.put((wid, "err", traceback.format_exc(), None))
    finally:
        rig.close()


def _load_known(pid):
    """known_findings.txt: open findings are JSON lines, repaired ones "fixed:" lines"""
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("{"):
                d = json.loads(ln)
                if d.get("property") == pid and d.get("status") == "open":
                    out.append(d)
    return out


def write_replay(prop, fail, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop.id, case_key(fail["case"])[:12]))
    with open(p, "w") as f:
        json.dump({"property": prop.id, "message": fail["msg"], "case": fail["case"],
                   "choices": fail.get("choices"), "seed": seed, "tier": tier,
                   "how": "python3-vt /verif/run.py %s --replay %s" % (prop.id, p)}, f, indent=1)
    return p


def write_evidence(prop, tier, seed, cov, wall, nviol):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
          "coverage": cov, "assumptions": list(prop.assumptions), "wall_s": round(wall, 2),
          "violations": nviol}
    p = os.path.join(VERIF, "evidence", prop.id + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def _clip(x, n=4000):
    t = json.dumps(x)
    return x if len(t) <= n else t[:n] + " ..."


def main(prop, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    n = prop.thorough if tier == "thorough" else prop.quick
    if "-n" in argv:
        n = int(argv[argv.index("-n") + 1])
    os.environ["PBT_TIER"] = tier
    try:
        built = B.build(prop.harnesses, agents=prop.agents, exe=prop.exe,
                        extra_agents=prop.extra_agents)
        if prop.python:
            built["py"] = B.build_py()
            built["h_py"] = built["py"]["python"]
            built["build_s"] += built["py"]["build_s"]
        prop.setup(built)
    except B.BuildError as e:
        print("ERROR: cannot build: %s" % e)
        return 3
    tb = time.time() - t0
    if replay:
        d = json.load(open(replay))
        info, msg = _fresh_judge(prop, built, d["case"])
        print(json.dumps(d["case"], indent=1)[:6000])
        if msg:
            print("message: " + msg)
            print("VIOLATION property=%s replay=%s" % (prop.id, replay))
            return 1
        print("replay passes: nontrivial=%s labels=%s" % (info.nontrivial, info.labels))
        return 0
    # the committed regression cases first, then the generated ones
    known_seen = {}
    fixed = list(prop.fixed_cases())
    cdir = os.path.join(VERIF, "corpus", prop.id)
    if os.path.isdir(cdir):
        for f in sorted(os.listdir(cdir)):
            if f.endswith(".json"):
                fixed.append(json.load(open(os.path.join(cdir, f)))["case"])
    fails = []
    evals = 0
    nontriv = set()
    labels = {}
    samples = []
    warns = []
    discards = 0
    rig = Rig(built)
    try:
        for c in fixed:
            evals += 1
            info, msg = _judge(prop, c, rig)
            if msg:
                if _fresh_judge(prop, built, c)[1] is None:
                    warns.append("fixed case not reproducible: " + msg)
                    continue
                kf = prop.known(c, msg)
                if kf:
                    known_seen[kf] = msg
                else:
                    fails.append({"index": -1, "choices": None, "case": c, "msg": msg})
                    break
            else:
                for lb in info.labels:
                    labels[lb] = labels.get(lb, 0) + 1
                if info.nontrivial:
                    nontriv.add(case_key(c))
    except HarnessError as e:
        print("ERROR: %s" % e)
        return 3
    finally:
        rig.close()
    if not fails:
        W = prop.workers or B.NPROC
        W = max(1, min(W, n))
        q = mp.Queue()
        procs = []
        for w in range(W):
            p = mp.Process(target=_worker, args=(prop, built, seed, range(w, n, W), q, w))
            p.start()
            procs.append(p)
        got = 0
        err = None
        while got < W:
            try:
                wid, st, a, fail = q.get(timeout=5)
            except Exception:
                dead = [p for p in procs if p.exitcode not in (None, 0)]
                if dead and q.empty():
                    err = "a worker died (exit code %s)" % dead[0].exitcode
                    break
                continue
            got += 1
            if st == "err":
                err = a
                continue
            evals += a["evals"]
            discards += a["discards"]
            nontriv |= a["nontrivial"]
            for k, v in a["labels"].items():
                labels[k] = labels.get(k, 0) + v
            samples.append((wid, a["samples"]))
            warns += a["warn"]
            for k, v in a["known"].items():
                known_seen.setdefault(k, v[1])
            if fail:
                fails.append(fail)
        for p in procs:
            if err:
                p.terminate()
            p.join()
        if err and not fails:
            print("ERROR in the machinery:\n" + str(err))
            return 3
    fails.sort(key=lambda f: f["index"])
    samples = [x for _, l in sorted(samples, key=lambda t: t[0]) for x in l][:prop.max_samples]
    wall = time.time() - t0
    cov = {"evaluations": evals, "distinct_nontrivial": len(nontriv), "rule": prop.rule,
           "samples": [_clip(x) for x in samples], "classes": dict(sorted(labels.items())),
           "discarded": discards, "build_s": round(tb, 1), "unreproducible": len(warns)}
    write_evidence(prop, tier, seed, cov, wall, len(fails))
    for w in warns[:5]:
        print("note: " + w)
    for d in _load_known(prop.id):
        print("KNOWN-FINDING: property=%s %s%s" % (
            prop.id, d["what"], " (seen in this run)" if d["id"] in known_seen else ""))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1f s (build %.1f s)" % (
        prop.id, tier, seed, evals, len(nontriv), discards, wall, tb))
    if "-v" in argv:
        print(json.dumps(cov["classes"], indent=1))
    if fails:
        f = fails[0]
        p = write_replay(prop, f, seed, tier)
        print("case: " + json.dumps(f["case"])[:3000])
        print("message: " + f["msg"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop.id, p))
        return 1
    if evals == 0 or len(nontriv) == 0:
        print("ERROR: nothing was explored")
        return 3
    return 0


# ---- helpers for talking to harnesses ----
def hx(s):
    """hex-encode a str/bytes so that it is one token ('-' for empty)"""
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    return s.hex() or "-"


def unhx(t):
    return b"" if t == "-" else bytes.fromhex(t)


def fl(x):
    """a double, exactly"""
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return x.hex()


def unfl(t):
    return float.fromhex(t) if "x" in t else float(t)
