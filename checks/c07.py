"""C07: the resource exchange, end to end with scripted traders."""
import math
from pbt import Prop, Info, Violation, hx, unhx, fl, unfl
import graphlib as G
from c05 import C05, Ambiguous

QT = [1.0, 2.0, 3.0, 5.0, 10.0, 0.5, 7.5]
MODEL = C05()


class C07(Prop):
    id = "C07"
    harnesses = ("h_exch",)
    quick = 6000
    thorough = 200000
    rule = ("2-6 traders under 0-3 institutions and 0-2 regions, over 1-3 time steps; each trader makes 0-2 request "
            "portfolios (1-4 requests, mutual requests, constraints) and 0-2 bid portfolios (1-3 bids, shared exclusive "
            "offers, constraints) of materials and products in 1-3 commodities; traders, institutions and regions change "
            "preferences, some to negative; some traders leave; greedy or optimizing solver; non-trivial: at least two "
            "trades")
    assumptions = ("with the optimizing solver, and where preferences tie, trades are checked for feasibility only",)

    def gen(self, s):
        c = {"dur": s.int(1, 3), "solver": s.weighted([(5, "greedy"), (1, "prog")]), "excl": int(s.bool(0.7))}
        nreg = s.int(0, 2)
        ninst = s.int(0, 3)
        c["regs"] = nreg
        c["insts"] = [s.int(-1, nreg - 1) for _ in range(ninst)]
        nt = s.int(2, 6)
        c["trs"] = [[s.int(-1, ninst - 1), s.int(0, c["dur"] - 1) if s.bool(0.15) else -1] for _ in range(nt)]
        coms = ["c0", "c1", "c2"][:s.int(1, 3)]
        rules = []
        keys = ["T%d" % i for i in range(nt)] + ["I%d" % i for i in range(ninst)] + ["R%d" % i for i in range(nreg)]
        for _ in range(s.weighted([(3, 0), (3, 2), (2, 5)])):
            rules.append([s.pick(keys), s.weighted([(4, "M"), (1, "P")]), s.pick(coms), s.pick(["mul", "set"]),
                          s.weighted([(4, "r"), (2, "n")]), s.int(-1, nt - 1), s.real(0.1, 9)])
        for r in rules:
            if r[4] == "n":
                r[6] = -r[6]
            del r[4]
        c["rules"] = rules
        ports, bports = [], []
        nreq = nbid = 0
        pex = s.pick([0.0, 0.2, 0.5])
        for step in range(c["dur"]):
            for ty in (["M", "P"] if s.bool(0.4) else [s.pick(["M", "M", "P"])]):
                stepreqs = []
                for t in range(nt):
                    for _ in range(s.weighted([(3, 0), (4, 1), (1, 2)])):
                        reqs = []
                        for _ in range(s.weighted([(4, 1), (3, 2), (2, 3), (1, 4)])):
                            reqs.append([nreq, s.pick(coms), s.pick(QT), s.real(0.1, 9) if s.bool(0.7) else s.pick([1.0, 2.0]),
                                         int(s.bool(pex)), s.pick([0.0, 0.2])])
                            stepreqs.append((t, reqs[-1]))
                            nreq += 1
                        mut = [[r[0] for r in reqs]] if len(reqs) > 1 and s.bool(0.5) else []
                        if mut and len(reqs) > 2 and s.bool(0.6):
                            # only some are alternatives of each other, or two groups of them
                            k = s.int(2, len(reqs) - 1)
                            mut = [mut[0][:k]] + ([mut[0][k:]] if len(reqs) - k > 1 and s.bool(0.5) else [])
                        con = [[s.pick(QT), s.int(0, 1)] for _ in range(s.weighted([(4, 0), (1, 1), (1, 2)]))]
                        ports.append({"step": step, "ty": ty, "tr": t, "reqs": reqs, "mut": mut, "con": con})
                for t in range(nt):
                    oth = [r for (o, r) in stepreqs if o != t]
                    if not oth:
                        continue
                    for _ in range(s.weighted([(3, 0), (4, 1), (1, 2)])):
                        bids = []
                        shared = s.bool(0.3)
                        q0, u0 = s.pick(QT), s.pick([0.0, 0.25, 0.7])
                        for _ in range(s.int(1, 4)):
                            r = s.pick(oth)
                            if not shared:
                                q0 = r[2] if s.bool(0.4) else s.pick(QT)
                                u0 = s.pick([0.0, 0.25, 0.7])
                            bids.append([nbid, r[0], q0, s.real(0.1, 9) if s.bool(0.75) else "nan", int(s.bool(pex)),
                                         0 if shared else nbid, u0])
                            nbid += 1
                        con = [[s.pick(QT) * s.pick([1, 0.25]), s.int(0, 1)] for _ in range(s.weighted([(2, 0), (3, 1), (1, 2)]))]
                        bports.append({"step": step, "ty": ty, "tr": t, "bids": bids, "con": con})
        c["ports"], c["bports"] = ports, bports
        c["short"] = [[b[0], s.pick([0.5, 0.25])] for p in bports for b in p["bids"] if s.bool(0.05)]
        return c

    def lines(self, c):
        o = ["dur %d" % c["dur"], "solver %s %d" % (c["solver"], c["excl"])]
        o += ["region %d" % i for i in range(c["regs"])]
        o += ["inst %d %d" % (i, r) for i, r in enumerate(c["insts"])]
        o += ["tr %d %d %d" % (i, r[0], r[1]) for i, r in enumerate(c["trs"])]
        for k, ty, com, op, bidder, val in c["rules"]:
            o.append("rule %s %s %s %s %s %d" % (k, ty, hx(com), op, fl(val), bidder))
        for i, p in enumerate(c["ports"]):
            o.append("port %d %d %s %d" % (i, p["step"], p["ty"], p["tr"]))
            for r in p["reqs"]:
                o.append("req %d %d %s %s %s %d %s" % (r[0], i, hx(r[1]), fl(r[2]), fl(r[3]), r[4], fl(r[5])))
            for m in p["mut"]:
                o.append("mut %d %s" % (i, " ".join(map(str, m))))
            for cap, k in p["con"]:
                o.append("pcon %d %s %d" % (i, fl(cap), k))
        for i, p in enumerate(c["bports"]):
            o.append("bport %d %d %s %d" % (i, p["step"], p["ty"], p["tr"]))
            for b in p["bids"]:
                o.append("bid %d %d %d %s %s %d %d %s" % (b[0], i, b[1], fl(b[2]), b[3] if b[3] == "nan" else fl(b[3]), b[4],
                                                          b[5], fl(b[6])))
            for cap, k in p["con"]:
                o.append("bcon %d %s %d" % (i, fl(cap), k))
        for b, f in c["short"]:
            o.append("short %d %s" % (b, fl(f)))
        return o

    def check(self, c, rig):
        obs = rig.run("h_exch", self.lines(c))
        asked, seen, adj, trades, accepts, rows, agent = {}, {}, {}, {}, {}, [], {}
        done = False
        for ln in obs:
            t = ln.split()
            if t[0] == "AGENT":
                agent[int(t[1])] = int(t[2])
            elif t[0] == "ASKR":
                k = (int(t[2]), t[3], int(t[1]))
                asked[k] = asked.get(k, 0) + 1
            elif t[0] == "ASKB":
                k = (int(t[2]), t[3], int(t[1]))
                if k in seen:
                    raise Violation("trader %d is asked twice for bids at %d" % (k[2], k[0]))
                seen[k] = [(unhx(t[i]).decode(), int(t[i + 1]), unfl(t[i + 2]), unfl(t[i + 3])) for i in range(4, len(t), 4)]
            elif t[0] == "ADJ":
                adj.setdefault((int(t[2]), t[3]), []).append(
                    (t[1], {(int(t[i]), int(t[i + 1])): unfl(t[i + 2]) for i in range(4, len(t), 3)}, (len(t) - 4) // 3))
            elif t[0] == "TRADES":
                k = (int(t[2]), t[3], int(t[1]))
                if k in trades:
                    raise Violation("supplier %d is asked twice for its trades at %d" % (k[2], k[0]))
                trades[k] = [(int(t[i]), int(t[i + 1]), unfl(t[i + 2]), int(t[i + 3]), int(t[i + 4])) for i in range(4, len(t), 5)]
            elif t[0] == "ACCEPT":
                k = (int(t[2]), t[3], int(t[1]))
                if k in accepts:
                    raise Violation("requester %d is sent its trades twice at %d" % (k[2], k[0]))
                accepts[k] = [(int(t[i]), int(t[i + 1]), unfl(t[i + 2]), int(t[i + 3]), int(t[i + 4]), unfl(t[i + 5]))
                              for i in range(4, len(t), 6)]
            elif t[0] == "ROW":
                d = {}
                for part in ln.split(" | ")[1:]:
                    p = part.split()
                    d[p[0]] = p[2:]
                rows.append(d)
            elif t[0] == "ERR":
                raise Violation("the exchange fails: %s %s" % (t[1], unhx(t[2])[:200]))
            elif t[0] == "DONE":
                done = True
        if not done:
            raise Violation("the simulation did not finish")
        R = {r[0]: (p, r) for p in c["ports"] for r in p["reqs"]}
        Bd = {b[0]: (p, b) for p in c["bports"] for b in p["bids"]}
        short = dict(map(tuple, c["short"]))
        ntr = 0
        nrow = 0
        labels = set()
        exp_rows = []

        def active(t, step):
            return c["trs"][t][1] < 0 or step <= c["trs"][t][1]
        for step in range(c["dur"]):
            for ty in "MP":
                act = [t for t in range(len(c["trs"])) if active(t, step)]
                for t in range(len(c["trs"])):
                    if asked.get((step, ty, t), 0) != (1 if t in act else 0):
                        raise Violation("trader %d is asked %d times for %s requests at %d" % (t, asked.get((step, ty, t), 0), ty, step))
                ports = [p for p in c["ports"] if p["step"] == step and p["ty"] == ty and p["tr"] in act]
                reqs = sorted((r[1], r[0], r[2], r[3]) for p in ports for r in p["reqs"])
                if reqs:
                    for t in act:
                        if (step, ty, t) not in seen:
                            raise Violation("trader %d is not asked for bids at %d" % (t, step))
                for t in range(len(c["trs"])):
                    if (step, ty, t) in seen:
                        if t not in act:
                            raise Violation("trader %d is asked for bids at %d after it left" % (t, step))
                        if sorted(seen[(step, ty, t)]) != reqs:
                            raise Violation("bidder %d at %d sees requests %s instead of %s" % (t, step, sorted(seen[(step, ty, t)]), reqs))
                rids = set(r[1] for r in reqs)
                bports = [dict(p, bids=[b for b in p["bids"] if b[1] in rids]) for p in c["bports"]
                          if p["step"] == step and p["ty"] == ty and p["tr"] in act]
                # preferences
                pref = {}
                for p in bports:
                    for b in p["bids"]:
                        pref[(b[1], b[0])] = R[b[1]][1][3] if b[3] == "nan" else b[3]
                self.adjust(c, step, ty, [a for a in adj.get((step, ty), []) if a[2]], pref, R, Bd)
                # the graph
                g = self.graph(c, ports, bports, pref, R)
                got = []
                for t in range(len(c["trs"])):
                    for (r, b, amt, res, sid) in trades.get((step, ty, t), []):
                        if b not in Bd or Bd[b][0]["tr"] != t:
                            raise Violation("supplier %d is asked to supply for bid %d, which is not its own" % (t, b))
                        if (r, b) not in pref:
                            raise Violation("trade of bid %d for request %d, which was not offered" % (b, r))
                        if pref[(r, b)] <= 0:
                            raise Violation("trade of bid %d for request %d in spite of preference %r" % (b, r, pref[(r, b)]))
                        got.append((g["arcno"][(r, b)], amt, pref[(r, b)]))
                tol = 1e-9 if c["solver"] == "greedy" else 1e-6
                self.feasible(g, got, tol, c)
                if c["solver"] == "greedy":
                    try:
                        for u in range(len(g["nodes"])):
                            ps = sorted(a["pref"] for a in g["arcs"] if a["u"] == u)
                            if any(G.near(x, y, 1e-12) for x, y in zip(ps, ps[1:])):
                                raise Ambiguous()
                        exp, _ = MODEL.model(g)
                        e, o = sorted(exp), sorted((i, q) for i, q, p in got)
                        if [i for i, q in e] != [i for i, q in o] or any(not G.near(x[1], y[1], 1e-9) for x, y in zip(e, o)):
                            raise Violation("at %d (%s) trades %s, expected %s (bid: amount)" % (
                                step, ty, [(g["arcs"][i]["id"], q) for i, q in o], [(g["arcs"][i]["id"], q) for i, q in e]))
                        if exp:
                            labels.add("trades predicted")
                    except Ambiguous:
                        labels.add("ambiguous")
                # delivery
                sent = {}
                for t in range(len(c["trs"])):
                    for (r, b, amt, res, sid) in trades.get((step, ty, t), []):
                        q = amt * short.get(b, 1.0)
                        sent.setdefault(R[r][0]["tr"], []).append((r, b, amt, res, sid, q))
                        exp_rows.append((agent[t], agent[R[r][0]["tr"]], sid, R[r][1][1], step))
                        ntr += 1
                for t in range(len(c["trs"])):
                    a = sorted(accepts.get((step, ty, t), []))
                    e = sorted(sent.get(t, []))
                    if [x[:5] for x in a] != [x[:5] for x in e] or any(not G.near(x[5], y[5], 1e-9) for x, y in zip(a, e)):
                        raise Violation("requester %d at %d receives %s, was sent %s (request, bid, amount, object, state, quantity)"
                                        % (t, step, a, e))
                if ntr:
                    labels.add("type " + ty)
        got = sorted((int(d["SenderId"][0]), int(d["ReceiverId"][0]), int(d["ResourceId"][0]), unhx(d["Commodity"][0]).decode(),
                      int(d["Time"][0])) for d in rows)
        if got != sorted(exp_rows):
            raise Violation("recorded trades %s, made %s (sender, receiver, resource state, commodity, time)" % (got, sorted(exp_rows)))
        ids = [int(d["TransactionId"][0]) for d in rows]
        if len(set(ids)) != len(ids):
            raise Violation("transaction ids repeat: %s" % ids)
        return Info(ntr >= 2, sorted(labels) + [c["solver"]])

    def adjust(self, c, step, ty, calls, pref, R, Bd):
        """follow the adjustments: requester first, then the agents above it; updates pref"""
        reqers = sorted(set(R[r][0]["tr"] for r, b in pref))
        i = 0
        done = set()
        while i < len(calls):
            key = calls[i][0]
            if key[0] != "T" or int(key[1:]) not in reqers or key in done:
                raise Violation("unexpected preference adjustment by %s at %d" % (key, step))
            done.add(key)
            t = int(key[1:])
            chain = [key]
            if c["trs"][t][0] >= 0:
                chain.append("I%d" % c["trs"][t][0])
                if c["insts"][c["trs"][t][0]] >= 0:
                    chain.append("R%d" % c["insts"][c["trs"][t][0]])
            for k in chain:
                if i >= len(calls) or calls[i][0] != k:
                    raise Violation("preferences of trader %d are adjusted by %s, expected %s" %
                                    (t, calls[i][0] if i < len(calls) else "nobody", k))
                mine = {x: p for x, p in pref.items() if R[x[0]][0]["tr"] == t}
                if calls[i][1] != mine:
                    raise Violation("%s sees preferences %s of trader %d at %d, expected %s" % (k, calls[i][1], t, step, mine))
                for x in mine:
                    for rk, rty, com, op, bidder, val in c["rules"]:
                        if rk == k and rty == ty and com == R[x[0]][1][1] and (bidder < 0 or Bd[x[1]][0]["tr"] == bidder):
                            pref[x] = val if op == "set" else pref[x] * val
                i += 1
        if set("T%d" % t for t in reqers) != done:
            raise Violation("preferences adjusted by %s, requesters with bids are %s" % (sorted(done), reqers))

    def graph(self, c, ports, bports, pref, R):
        nodes, rgs, sgs, arcs = [], [], [], []
        rnode = {}
        coeff = {}
        for gi, p in enumerate(ports):
            ids = []
            q = sum(r[2] for r in p["reqs"])
            for r in p["reqs"]:
                nodes.append({"side": "R", "grp": gi, "qty": r[2], "ex": bool(r[4]), "com": r[1]})
                ids.append(len(nodes) - 1)
                rnode[r[0]] = len(nodes) - 1
                coeff[r[0]] = 1.0
            for m in p["mut"]:
                qs = [R[x][1][2] for x in m]
                avg = sum(qs) / len(qs)
                for x in m:
                    coeff[x] = R[x][1][2] / avg
                q = q - sum(qs) + avg
            rgs.append({"qty": q, "caps": [x[0] for x in p["con"]] + [q], "nodes": ids})
        arcno = {}
        for gi, p in enumerate(bports):
            ids = []
            off = {}
            for b in p["bids"]:
                nodes.append({"side": "S", "grp": gi, "qty": self.offer(p, b)[0], "ex": bool(b[4]), "com": R[b[1]][1][1]})
                v = len(nodes) - 1
                ids.append(v)
                if b[4]:
                    off.setdefault(b[5], []).append(v)
                if pref[(b[1], b[0])] > 0:
                    u = self.offer(p, b)[1]
                    if p["ty"] == "P":
                        u = 0.25 if u > 0 else 0.0
                    rp = R[b[1]][0]
                    arcno[(b[1], b[0])] = len(arcs)
                    arcs.append({"u": rnode[b[1]], "v": v, "pref": pref[(b[1], b[0])], "id": b[0],
                                 "uc": [u if k else 1.0 for cap, k in rp["con"]] + [coeff[b[1]]],
                                 "vc": [u if k else 1.0 for cap, k in p["con"]]})
            sgs.append({"caps": [x[0] for x in p["con"]], "nodes": ids, "ex": list(off.values())})
        return {"rgs": rgs, "sgs": sgs, "nodes": nodes, "arcs": arcs, "excl": c["excl"], "cond": 0, "w": {}, "arcno": arcno}

    @staticmethod
    def offer(p, b):
        """quantity and enrichment of the offered object: that of the first bid using the object"""
        for x in p["bids"]:
            if x[5] == b[5]:
                return x[2], x[6]

    def feasible(self, g, sol, tol, c):
        nodes, arcs = g["nodes"], g["arcs"]
        used = [0.0] * len(nodes)
        if len(set(i for i, q, p in sol)) != len(sol):
            raise Violation("a bid is traded twice")
        integral = c["solver"] == "greedy" or c["excl"]
        for i, q, p in sol:
            used[arcs[i]["u"]] += q
            used[arcs[i]["v"]] += q
            if not (q > 0 and math.isfinite(q)):
                raise Violation("bid %d is traded with amount %r" % (arcs[i]["id"], q))
            e, val = G.excl_info(g, i)
            if integral and e and not G.near(q, val, 1e-5 if c["solver"] != "greedy" else 1e-14):
                raise Violation("exclusive bid %d is traded in part: %r of %r" % (arcs[i]["id"], q, val))
        for n, x in enumerate(used):
            if x > nodes[n]["qty"] * (1 + tol):
                raise Violation("%s of quantity %r is traded for %r" % ("bid" if nodes[n]["side"] == "S" else "request", nodes[n]["qty"], x))
        for gi, r in enumerate(g["rgs"]):
            x = sum(q for i, q, p in sol if nodes[arcs[i]["u"]]["grp"] == gi)
            if c["solver"] == "greedy" and x > r["qty"] * (1 + tol):
                raise Violation("a request portfolio of %r receives %r" % (r["qty"], x))
        for gi, r in enumerate(g["sgs"]):
            for j, cap in enumerate(r["caps"]):
                x = sum(q * arcs[i]["vc"][j] for i, q, p in sol if nodes[arcs[i]["v"]]["grp"] == gi)
                if x > cap * (1 + tol) + (1e-12 if c["solver"] == "greedy" else 1e-6):
                    raise Violation("a bid portfolio uses %r of capacity %r" % (x, cap))
            if integral:
                for e in r["ex"]:
                    if len([1 for i, q, p in sol if arcs[i]["v"] in e]) > 1:
                        raise Violation("one exclusive object is traded twice")


PROP = C07()
