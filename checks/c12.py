"""C12: a simulation restarted from a snapshot is the simulation that was saved."""
from pbt import Prop, Info, Violation, HarnessError, hx, fl, unfl

NUCS = [922350000, 922380000, 942390000, 551370000, 10010000, 80160000]
STRAT = ["first", "equal"]
TSTRAT = ["first", "equal", "hybrid"]


def frac(s):
    return s.weighted([(3, s.int(1, 100) / 100.0), (1, 1.0), (1, s.real(1e-9, 1.0))])


def gen(s):
    dur = s.int(1, 12)
    c = {"info": {"dur": dur, "y0": s.int(1900, 2100), "m0": s.int(1, 12), "handle": s.pick(["", "h", "a b'c"]),
                  "dt": s.pick([2629846, 86400, 1]), "eps": s.pick([1e-6, 1e-7]), "epsr": s.pick([1e-6, 1e-4, 1e-8]),
                  "seed": s.int(0, 2 ** 31 - 1), "stride": s.int(0, 1000), "xinv": s.int(0, 3), "excl": s.int(0, 1),
                  "dump": s.pick([1, 3, 10000])},
         "back": s.weighted([(4, "sqlite"), (1, "h5")])}
    c["recipes"] = [["r%d" % i, [[n, frac(s)] for n in s.shuffle(NUCS)[:s.int(1, 4)]]] for i in range(s.int(1, 3))]
    c["pkgs"] = [["p%d" % i, s.pick([0.0, 0.5, 1.0]), s.pick([1.0, 2.0, 3.5, 1e299]), s.pick(STRAT)] for i in range(s.int(0, 2))]
    c["tus"] = [["t%d" % i, s.int(0, 2), s.int(2, 9), s.pick(TSTRAT)] for i in range(s.int(0, 2))]
    coms = ["ca", "cb", "cc"][:s.int(1, 3)]
    c["prio"] = [[k, float(s.int(1, 5))] for k in coms] if s.bool(0.4) else []
    protos = [["root", "R", -1, {}]]
    nf, ni = s.int(1, 4), s.int(1, 2)
    facs = ["fac%d" % i for i in range(nf)]
    for f in facs:
        k = {}
        r = s.int(0, 2)
        if r != 1:
            k["in"] = s.pick(coms)
            k["buy"] = s.pick([0.5, 1.0, 2.5, 10.0])
        if r != 0:
            k["out"] = s.pick(coms)
        if s.bool(0.6):
            k["recipe"] = s.pick(c["recipes"])[0]
            k["rate"] = s.pick([0.0, 1.0, 2.0, 1.0 / 3, 7.25])
        if s.bool():
            k["cap"] = s.pick([3.0, 10.0, 50.0])
        if s.bool():
            k["period"] = s.int(1, 4)
        if c["pkgs"] and s.bool():
            k["pkg"] = s.pick(c["pkgs"])[0]
            k.setdefault("period", 1)
        if s.bool(0.3):
            k["qual"] = s.pick(["ball", "a'b", "q"])
        if s.bool(0.3):
            k["quit"] = s.int(1, 8)
        protos.append([f, "F", s.pick([-1, -1, s.int(1, 8)]), k])
    for i in range(ni):
        plan = []
        for _ in range(s.weighted([(1, 0), (3, s.int(1, 3)), (2, s.int(2, 8))])):
            n = s.int(1, max(1, dur))
            w = s.weighted([(4, "b"), (1, "o"), (2, "d"), (1, "l")])
            if w in "bo":
                plan.append("%d:%s:%d:%s" % (n, w, s.int(0, 4), s.pick(facs)))
            else:
                plan.append("%d:%s:%d:%d" % (n, w, s.int(0, 3), s.int(0, 6) if w == "d" else s.int(1, 9)))
        protos.append(["inst%d" % i, "I", s.pick([-1, -1, -1, s.int(2, 9)]), {"plan": ",".join(plan)}])
    c["protos"] = protos
    init = [["root", -1]]
    for i in range(ni):
        init.append(["inst%d" % i, s.pick([0, 0, -1])])
    for _ in range(s.int(0, 5)):
        init.append([s.pick(facs), s.pick([-1] + list(range(1, 1 + ni)))])
    c["init"] = init
    c["sched"] = [[s.pick([-1] + list(range(0, 1 + ni))), s.pick(facs + ["inst0"]), s.int(1, dur + 1)] for _ in range(s.int(0, 3))]
    k = min(dur, 3)
    c["restart"] = sorted(set(s.int(1, dur) for _ in range(s.int(1, k))))
    return c


def text(c):
    i = dict(c["info"])
    i["handle"] = hx(i["handle"])
    i["eps"], i["epsr"] = fl(i["eps"]), fl(i["epsr"])
    L = ["info " + " ".join("%s=%s" % kv for kv in i.items()), "back " + c["back"]]
    L += ["prio %s %s" % (a, fl(b)) for a, b in c["prio"]]
    for n, fr in c["recipes"]:
        L.append("recipe %s %d %s" % (n, len(fr), " ".join("%d %s" % (a, fl(b)) for a, b in fr)))
    L += ["pkg %s %s %s %s" % (n, fl(a), fl(b), st) for n, a, b, st in c["pkgs"]]
    L += ["tu %s %d %d %s" % tuple(t) for t in c["tus"]]
    for n, k, life, kv in c["protos"]:
        L.append("proto %s %s %d %s" % (n, k, life, " ".join(
            "%s=%s" % (a, hx(fl(b) if isinstance(b, float) else str(b))) for a, b in kv.items())))
    L += ["init %s %d" % tuple(x) for x in c["init"]]
    L += ["sched %d %s %d" % tuple(x) for x in c["sched"]]
    L.append("restart " + " ".join(map(str, c["restart"])))
    return "\n".join(L) + "\n"


def near(a, b):
    if a == b:
        return True
    try:
        x, y = unfl(a), unfl(b)
    except ValueError:
        return False
    return abs(x - y) <= 1e-9 * max(abs(x), abs(y)) + 1e-12


def same(a, b):
    """equal token lists, numbers with tolerance"""
    return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))


def strip(kind, toks):
    """without the ids of resources and compositions, which a continued run need not repeat"""
    if kind == "inv":
        return toks[2:5] + toks[6:]
    if kind == "recipe":
        return toks[1:]
    return toks


class Part:
    """one run: dumps by time, rows"""

    def __init__(self, lines):
        self.dumps, self.rows, self.marks, self.bad = {}, [], {}, None
        self.initdump = None
        cur, phase = {}, None
        for ln in lines:
            t = ln.split(" ")
            if t[0] == "D":
                if t[2] == "end":
                    if phase == "INIT":
                        self.initdump = (int(t[1]), cur)
                    else:
                        self.dumps[int(t[1])] = cur
                    cur = {}
                else:
                    cur[(t[2], t[3] if t[2] not in ("info", "eps", "next") else "")] = t[4:] if t[2] not in ("info", "eps", "next") else t[3:]
            elif t[0] in ("INIT", "RUN", "DONE"):
                phase = t[0]
            elif t[0] == "ROW":
                self.rows.append(t)
            elif t[0] == "FAILED":
                self.bad = t
            else:
                self.marks[t[0]] = t[1:]
        self.done = phase == "DONE"


def rowd(t):
    d = {}
    for part in " ".join(t).split(" | ")[1:]:
        p = part.split(" ")
        d[p[0]] = " ".join(p[2:])
    return t[1], d


def compare(what, exp, got, exact):
    for k in sorted(set(exp) | set(got), key=str):
        if not exact and k[0] == "next":
            continue
        a, b = exp.get(k), got.get(k)
        if a is None or b is None:
            raise Violation("%s: %s %s" % (what, " ".join(k), "is missing, was %s" % a if b is None else "appeared: %s" % b))
        if exact:
            ok = same(a, b)
        else:
            ok = same(strip(k[0], a), strip(k[0], b))
        if not ok:
            raise Violation("%s: %s is %s, was %s" % (what, " ".join(k), " ".join(b), " ".join(a)))


def canon(rows, t0):
    out = []
    for t in rows:
        n, d = rowd(t)
        if n == "Transactions":
            if int(d["Time"]) >= t0:
                out.append((n, d["Time"], d["SenderId"], d["ReceiverId"], d["Commodity"]))
        elif n == "AgentEntry":
            if int(d["EnterTime"]) >= t0:
                out.append((n, str(sorted(d.items()))))
        elif n == "AgentExit":
            if int(d["ExitTime"]) >= t0:
                out.append((n, str(sorted(d.items()))))
        elif n == "Finish":
            out.append((n, str(sorted(d.items()))))
        elif n in ("BuildSchedule", "DecomSchedule"):
            if int(d["SchedTime"]) >= t0:
                out.append((n, str(sorted(d.items()))))
    return sorted(out)


class C12(Prop):
    id = "C12"
    harnesses = ("h_snap",)
    quick = 1000
    thorough = 30000
    rule = ("a simulation of 1-12 steps with 1-4 kinds of scripted facilities (that make, buy, sell, mix, transmute and package material and "
            "make products), 1-2 institutions with plans of builds, decommissions and lifetime changes, recipes, packages, transport units and "
            "commodity orders, written to SQLite or HDF5, initialized from it, run with a snapshot at every step, and restarted at 1-3 steps in "
            "a fresh process; non-trivial: the restarted run has more than one step left and the snapshot holds a resource")
    assumptions = ("no agent draws random numbers (a restart begins the random sequence again)",
                   "the order in which trades are made within one time step is free")

    def gen(self, s):
        return gen(s)

    def check(self, c, rig):
        parts, cur = [], None
        for ln in rig.run("h_snap", text(c)):
            if not ln:
                continue
            if ln == "ORIGINAL" or ln.startswith("RESTART "):
                cur = [ln]
                parts.append(cur)
            else:
                cur.append(ln)
        res = []
        for p in parts:
            q = Part([x for x in p[1:]])
            rc = int(q.marks.get("RC", ["-1"])[0])
            if rc == 99:
                raise HarnessError("harness: " + str(p[:3]))
            if rc != 0 or not q.done:
                raise Violation("%s: the run failed (%s)%s" % (p[0].lower(), "signal %d" % (rc - 200) if rc >= 200 else "exit %d" % rc,
                                                               " " + bytes.fromhex(q.bad[2]).decode(errors="replace") if q.bad and len(q.bad) > 2 and q.bad[2] != "-" else ""))
            res.append((p[0], q))
        o = res[0][1]
        dur = c["info"]["dur"]
        if sorted(o.dumps) != list(range(0, dur + 1)):
            raise Violation("snapshots were taken at %s of a simulation of %d steps" % (sorted(o.dumps), dur))
        # initialization from the database
        t, d = o.initdump
        if t != 0:
            raise Violation("initialized at time %d" % t)
        compare("initialized from the database", o.dumps[0], d, True)
        labels = set()
        nt = False
        for name, q in res[1:]:
            t0 = int(name.split()[1])
            t, d = q.initdump
            if t != t0:
                raise Violation("restarted at time %d instead of %d" % (t, t0))
            if q.marks["PARENT"] != ["1", "restart", str(t0)] or q.marks["NEWID"] != ["1"]:
                raise Violation("restart at %d: parent simulation %s, new id %s" % (t0, q.marks["PARENT"], q.marks["NEWID"]))
            compare("restarted at %d" % t0, o.dumps[t0], d, True)
            for t in range(t0 + 1, dur + 1):
                if t not in q.dumps:
                    raise Violation("restarted at %d: step %d was not run" % (t0, t))
                compare("restarted at %d, at time %d" % (t0, t), o.dumps[t], q.dumps[t], False)
            a, b = canon(o.rows, t0), canon(q.rows, t0)
            if a != b:
                x = [r for r in a if r not in b][:2]
                y = [r for r in b if r not in a][:2]
                raise Violation("restarted at %d: rows of the continued run differ: missing %s, extra %s (%d instead of %d)" % (t0, x, y, len(b), len(a)))
            if any(k[0] == "inv" for k in d):
                labels.add("inventory")
                if dur - t0 > 1:
                    nt = True
            for k in d:
                if k[0] in ("build", "decom"):
                    labels.add(k[0])
        return Info(nt, labels)


PROP = C12()
