"""C08: time steps and agent life cycles."""
from pbt import Prop, Info, Violation, hx, unhx


class Stream:
    def __init__(self, obs):
        self.o = [ln.split(" ") for ln in obs]
        self.i = 0

    def peek(self):
        return self.o[self.i] if self.i < len(self.o) else ["END"]

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def ahead(self, *pre):
        for t in self.o[self.i:]:
            if tuple(t[:len(pre)]) == pre:
                return t
        return None


def rowdict(t):
    d = {}
    for part in " ".join(t).split(" | ")[1:]:
        p = part.split()
        d[p[0]] = p[2] if len(p) > 2 else ""
    return d


class M:
    """the reference model; follows the observed order where the order is free"""

    def __init__(self, c, obs):
        self.c, self.s = c, Stream(obs)
        self.t = 0
        self.A = {}       # serial -> agent
        self.dead = set()
        self.bq, self.dq = {}, {}
        self.protos = {p[0]: p for p in c["protos"]}
        self.script = {}
        for a in c["acts"]:
            self.script.setdefault((a[0], a[1], a[2]), []).append(a[3:])
        self.kill = self.snap = False
        self.nev = 0
        self.labels = set()
        self.refuse = {}

    def fail(self, msg):
        raise Violation("time %d: %s" % (self.t, msg))

    def want(self, *exp):
        t = self.s.next()
        if t != [str(x) for x in exp]:
            self.fail("expected %s, got %s" % (" ".join(map(str, exp)), " ".join(t)))

    def row(self, table, **kw):
        t = self.s.next()
        d = rowdict(t)
        exp = {k: (hx(v) if isinstance(v, str) else str(v)) for k, v in kw.items()}
        if t[:2] != ["ROW", table] or d != exp:
            self.fail("expected a row of %s with %s, got %s" % (table, kw, " ".join(t)))

    # ---- scheduling
    def do(self, op, me):
        def get(n):
            n = me if n == -2 else n
            return n if n in self.A else None
        k = op[0]
        if k == "build":
            p = get(op[2])
            if op[2] != -1 and p is None:
                return self.want("DO", "skip")
            t = self.t + 1 if op[3] == -1 else op[3]
            if t <= self.t:
                return self.want("DO", "ValueError")
            self.bq.setdefault(t, []).append([op[1], p])
            self.row("BuildSchedule", ParentId=self.A[p]["id"] if p is not None else -1, Prototype=op[1], SchedTime=self.t, BuildTime=t)
            self.want("DO", "ok")
        elif k == "decom":
            p = get(op[1])
            if p is None:
                return self.want("DO", "skip")
            t = self.t if op[2] == -1 else op[2]
            if t < self.t:
                return self.want("DO", "ValueError")
            self.sched_decom(p, t)
            self.row("DecomSchedule", AgentId=self.A[p]["id"], SchedTime=self.t, DecomTime=t)
            self.want("DO", "ok")
        elif k == "life":
            p = get(op[1])
            if p is None:
                return self.want("DO", "skip")
            a = self.A[p]
            a["life"] = op[2] if a["enter"] + op[2] > self.t else self.t - a["enter"] + 1
            self.want("LIFE", a["life"], a["enter"] + a["life"] - 1)
            self.want("DO", "ok")
            self.labels.add("lifetime changed")
        elif k == "setlife":
            p = get(op[1])
            if p is None:
                return self.want("DO", "skip")
            self.want("DO", "ValueError")
        elif k == "allow":
            self.refuse[me if op[1] == -2 else op[1]] = not op[2]
            self.want("DO", "ok")
        elif k == "kill":
            self.kill = True
            self.want("DO", "ok")
        elif k == "snap":
            self.snap = True
            self.want("DO", "ok")
        elif k == "count":
            self.want("COUNT", op[1], sum(1 for a in self.A.values() if a["proto"] == op[1]))
            self.want("DO", "ok")

        elif k == "family":
            p, q = get(op[1]), get(op[2])
            if p is None or q is None:
                return self.want("DO", "skip")

            def above(x, y):   # x is an ancestor of y
                y = self.A[y]["parent"]
                while y is not None and y != x:
                    y = self.A[y]["parent"]
                return y == x
            par = self.A[p]["parent"]
            pid = -1 if par is None else self.A[par]["id"]
            kids = sorted(m for m, a in self.A.items() if a["parent"] == p)
            self.want("FAM", pid, pid, len(kids), *kids)
            self.want("REL", int(above(p, q)), int(above(q, p)), int(p == q or above(p, q) or above(q, p)))
            self.want("DO", "ok")
            self.labels.add("family")
        elif k == "print":
            p = get(op[1])
            if p is None:
                return self.want("DO", "skip")
            got = []
            while self.s.peek()[0] == "PRINT":
                t = self.s.next()
                got.append((int(t[1]), unhx(t[2]).decode()))
            if not got or got[0][0] != 0 or self.A[p]["proto"] not in got[0][1]:
                self.fail("the printed tree of %s is %s" % (self.A[p]["proto"], got))

            def read(i, d):   # -> subtrees at depth d from line i on
                r = []
                while i < len(got) and got[i][0] == d:
                    sub, j = read(i + 1, d + 1)
                    r.append((got[i][1], sub))
                    i = j
                return sorted(r), i

            def tree(x):
                return sorted((a["proto"], tree(m)) for m, a in self.A.items() if a["parent"] == x)
            sub, i = read(1, 1)
            if i != len(got) or sub != tree(p):
                self.fail("the printed tree of %s is %s, its descendants are %s" % (self.A[p]["proto"], got, tree(p)))
            if sub:
                self.labels.add("family printed")
            self.want("DO", "ok")

    def sched_decom(self, p, t):
        for q in self.dq.values():
            if p in q:
                q.remove(p)
                self.labels.add("decommissioning moved")
        self.dq.setdefault(t, []).append(p)

    def ev(self, phase, n):
        self.want("EV", phase, self.t, n)
        self.nev += 1
        for op in self.script.get((phase, self.t, n), []):
            self.do(op, n)

    def build(self, proto, parent):
        t = self.s.peek()
        if t[0] != "ENTER":
            self.fail("expected %s to be built, got %s" % (proto, " ".join(t)))
        self.s.next()
        n, aid = int(t[1]), int(t[2])
        life = self.protos[proto][2]
        pid = self.A[parent]["id"] if parent is not None else -1
        exp = [str(len(self.A) + len(self.dead)), t[2], proto, str(pid), str(life), str(self.t),
               str(-1 if life == -1 else self.t + life - 1)]
        if t[1:] != exp:
            self.fail("built %s, expected %s (serial, id, prototype, parent, lifetime, entry, exit)" % (t[1:], exp))
        if any(a["id"] == aid for a in self.A.values()):
            self.fail("agent id %d is used twice" % aid)
        self.A[n] = {"id": aid, "proto": proto, "kind": self.protos[proto][1], "parent": parent, "life": life, "enter": self.t}
        self.ev("enter", n)
        k = {"F": "Facility", "I": "Inst", "R": "Region"}[self.protos[proto][1]]
        self.row("AgentEntry", AgentId=aid, Kind=k, Spec="s" + self.protos[proto][1], Prototype=proto, ParentId=pid, Lifetime=self.A[n]["life"],
                 EnterTime=self.t)
        if parent is not None:
            self.ev("buildnotify", parent)

    def phase(self, name, who, after=None):
        who = set(who)
        while who:
            t = self.s.peek()
            n = int(t[3]) if t[0] == "EV" and t[1] == name and t[2] == str(self.t) else None
            if n not in who:
                self.fail("expected %s of agents %s, got %s" % (name, sorted(who), " ".join(t)))
            who.remove(n)
            self.ev(name, n)
            if after:
                after(n)

    def inst_tock(self, n):
        if self.A[n]["kind"] != "I":
            return
        exp = set()
        for m, a in self.A.items():
            if a["parent"] == n and a["life"] != -1 and self.t >= a["enter"] + a["life"] - 1:
                if a["kind"] == "F" and self.refuse.get(m):
                    self.labels.add("end of life put off")
                    continue
                exp.add(m)
        while exp:
            t = self.s.peek()
            d = rowdict(t) if t[:2] == ["ROW", "DecomSchedule"] else {}
            m = [x for x in exp if str(self.A[x]["id"]) == d.get("AgentId")]
            if not m:
                self.fail("agents %s should retire, got %s" % (sorted(exp), " ".join(t)))
            self.row("DecomSchedule", AgentId=self.A[m[0]]["id"], SchedTime=self.t, DecomTime=self.t)
            exp.remove(m[0])
            self.sched_decom(m[0], self.t)
            self.labels.add("end of life")

    def decom(self):
        """-> False if the simulation ends with an error"""
        q = self.dq.setdefault(self.t, [])
        while q:
            t = self.s.ahead("EV", "decom", str(self.t))
            if t is None or int(t[3]) not in q:
                self.fail("agents %s should be decommissioned, got %s" % (q, " ".join(t or self.s.peek())))
            m = int(t[3])
            q.remove(m)
            a = self.A[m]
            if a["parent"] is not None:
                self.ev("decomnotify", a["parent"])
            self.ev("decom", m)
            if a["kind"] == "F" and self.refuse.get(m):
                self.want("ERR", "Error")
                self.labels.add("decommissioning refused")
                return False
            self.row("AgentExit", AgentId=a["id"], ExitTime=self.t)
            self.want("GONE", m)
            del self.A[m]
            self.dead.add(m)
            for b in self.A.values():
                if b["parent"] == m:
                    b["parent"] = None
                    self.labels.add("orphan")
            for bl in self.bq.values():
                for b in bl:
                    if b[1] == m:
                        b[1] = None
                        self.labels.add("build of a gone parent")
            for ql in self.dq.values():
                if m in ql:
                    ql.remove(m)
            self.labels.add("decommissioned")
        return True

    def run(self):
        for op in self.c["init"]:
            if op[0] == "init":
                self.build(op[1], op[2] if op[2] in self.A else None)
            else:
                self.do(op, -1)
        self.want("RUN")
        while self.t < self.c["dur"]:
            if self.snap:
                self.snap = False
                self.row("Snapshots", Time=self.t)
            for proto, parent in list(self.bq.get(self.t, [])):
                self.build(proto, parent)
                self.labels.add("built at run time")
            self.phase("tick", list(self.A))
            fac = [n for n, a in self.A.items() if a["kind"] == "F"]
            self.phase("mreq", fac)
            self.phase("preq", fac)
            self.phase("tock", list(self.A), self.inst_tock)
            self.phase("decision", list(self.A))
            if not self.decom():
                return
            self.t += 1
            if self.kill:
                self.labels.add("killed")
                break
        self.row("Finish", EarlyTerm=int(self.kill), EndTime=self.t - 1)
        self.row("Snapshots", Time=self.t)
        self.want("DONE")
        if self.s.peek() != ["END"]:
            self.fail("more happened: " + " ".join(self.s.peek()))


class C08(Prop):
    id = "C08"
    harnesses = ("h_life",)
    quick = 12000
    thorough = 400000
    rule = ("a simulation of 1-12 steps with 2-5 prototypes (facilities, institutions, regions; lifetimes 1-6 or none), 1-6 "
            "initial agents in a random hierarchy and up to 25 scripted actions (schedule a build or decommissioning at a past, "
            "present or future time, change a lifetime, refuse decommissioning, ask for relatives, snapshot, kill) taken by random agents in random "
            "phases; non-trivial: an agent is built at run time or decommissioned")
    assumptions = ("agents are removed through scheduled decommissionings, not by calling Decommission from within a phase",
                   "within a phase agents may be called in any order")

    def gen(self, s):
        dur = s.int(1, 12) if s.bool(0.9) else s.int(12, 25)
        protos = [["F0", "F", s.pick([-1, 1, 2, 3, 5])], ["I0", "I", s.weighted([(5, -1), (1, 3)])]]
        for i in range(s.int(0, 3)):
            k = s.weighted([(4, "F"), (2, "I"), (1, "R")])
            protos.append([k + str(i + 1), k, s.weighted([(3, -1), (1, 1), (1, 2), (1, 3), (1, 4), (1, 6)])])
        names = [p[0] for p in protos]
        init = []
        n = 0
        family = s.bool(0.4)   # an institution with facilities
        if family:
            init.append(["init", "I0", -1])
            n += 1
        for _ in range(s.int(1, 6)):
            if family and s.bool(0.7):
                init.append(["init", s.pick([x for x in names if x[0] == "F"]), 0])
            else:
                init.append(["init", s.pick(names), s.int(-1, n - 1)])
            n += 1
        for _ in range(s.weighted([(3, 0), (2, 2), (1, 5)])):
            if s.bool(0.7):
                init.append(["build", s.pick(names), s.int(-1, n - 1), s.int(0, dur)])
            else:
                init.append(["decom", s.int(0, n - 1), s.int(0, dur)])
        acts = []
        top = n + 6
        if family and s.bool(0.5):   # a facility that isn't ready to leave for a while
            k, t0 = s.int(1, n - 1), s.int(0, dur - 1)
            acts.append(["tick", t0, 0, "allow", k, 0])
            acts.append([s.pick(["tick", "decision"]), s.int(t0, dur - 1), 0, "allow", k, 1])
        for _ in range(s.int(0, 25)):
            ph = s.weighted([(3, "tick"), (2, "tock"), (2, "decision"), (1, "enter"), (1, "mreq"), (1, "preq"), (1, "buildnotify"),
                             (1.5, "decomnotify"), (1, "decom")])
            t = s.int(0, dur - 1)
            who = s.int(0, n - 1) if s.bool(0.7) else s.int(0, top)
            leaving = [(x[1], x[2]) for x in init if x[0] == "decom"]
            leaving += [(x[4] if x[4] >= 0 else x[2], x[5] if x[5] >= 0 else x[1]) for x in acts if x[3] == "decom"]
            of = None
            if ph in ("decom", "decomnotify") and leaving and s.bool(0.6):   # at the time an agent leaves
                of, t = s.pick(leaving)
                t = min(t, dur - 1)
                if ph == "decom":
                    who = of
                elif of < n:
                    inits = [x for x in init if x[0] == "init"]
                    who = max(0, inits[of][2])

            def when():
                return s.weighted([(3, -1), (4, t + s.int(0, 4)), (1, t), (0.5, max(0, t - 1))])

            def tgt():
                return s.weighted([(2, -2), (4, s.int(0, n - 1)), (4, s.int(0, top))] + ([(4, of)] if of is not None else []))
            k = s.weighted([(5, "build"), (5, "decom"), (1.5, "life"), (0.3, "setlife"), (1, "allow"), (0.2, "kill"), (0.5, "snap"),
                            (1, "count"), (1, "family"), (0.5, "print")])
            a = [ph, t, who, k]
            if k == "build":
                a += [s.pick(names), s.weighted([(3, -2), (2, -1), (3, s.int(0, top))]), when()]
            elif k == "decom":
                a += [tgt(), when()]
            elif k in ("life", "setlife"):
                a += [tgt(), s.int(1, 8)]
            elif k == "allow":
                a += [tgt(), int(s.bool(0.3))]
            elif k == "count":
                a += [s.pick(names)]
            elif k == "family":
                a += [tgt(), tgt()]
            elif k == "print":
                a += [tgt()]
            acts.append(a)
        return {"dur": dur, "protos": protos, "init": init, "acts": acts}

    def check(self, c, rig):
        o = ["dur %d" % c["dur"]]
        o += ["proto %s %s %d" % tuple(p) for p in c["protos"]]
        for op in c["init"]:
            o.append(("" if op[0] == "init" else "sched ") + " ".join(map(str, op)))
        o += ["act " + " ".join(map(str, a)) for a in c["acts"]]
        obs = rig.run("h_life", o)
        m = M(c, obs)
        m.run()
        return Info("built at run time" in m.labels or "decommissioned" in m.labels, sorted(m.labels))


PROP = C08()
