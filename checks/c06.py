"""C06: optimizing solver."""
import math
import numpy as np
from scipy.optimize import milp, LinearConstraint, Bounds
from scipy.sparse import lil_matrix
from pbt import Prop, Info, Violation, HarnessError, hx, fl
import graphlib as G

BIG = G.BIG


class C06(Prop):
    id = "C06"
    harnesses = ("h_graph",)
    quick = 20000
    thorough = 150000
    rule = ("an exchange graph of 1-6 request groups (1-3 requests each), 1-6 supply groups, 0-3 capacities per supply "
            "group and 1-2 demand constraints per request group, unit capacities 0-3, exclusive requests and bids, bids "
            "sharing an exclusive object; solved with exclusive orders on and off; non-trivial: at least two trades and "
            "an offered trade not made or made in part")
    assumptions = ("costs and constraints are compared with a relative tolerance of 1e-6, the solvers' own",)

    def gen(self, s):
        g = G.gen_graph(s, s.pick([2, 3, 6]), s.pick([2, 3, 6]), milp=True)
        g["excl"] = int(s.bool(0.7))
        g["solver"] = s.pick(["cbc", "clp"])
        return g

    def cost(self, g, i, ex):
        a = g["arcs"][i]
        return ex[i][1] / a["pref"] if ex[i][0] else 1.0 / a["pref"]

    def pseudo(self, g, ex):
        pc = 0.0
        for i, a in enumerate(g["arcs"]):
            if ex[i][0]:
                c = (ex[i][1] if ex[i][1] >= 1 else 1.0 if ex[i][1] > 0 else 0.0) / a["pref"]
            else:
                c = 1 / a["pref"]
            pc = max(pc, c)
        return pc * 1.1

    def optimum(self, g, ex):
        arcs, nodes = g["arcs"], g["nodes"]
        n = len(arcs)
        withreq = [gi for gi, r in enumerate(g["rgs"]) if any(a["u"] in r["nodes"] for a in arcs)]
        col = {gi: n + k for k, gi in enumerate(withreq)}
        N = n + len(withreq)
        c = [self.cost(g, i, ex) for i in range(n)] + [self.pseudo(g, ex)] * len(withreq)
        ub = []
        integ = np.zeros(N)
        scale = []
        for i, a in enumerate(arcs):
            if ex[i][0]:
                ub.append(1.0)
                integ[i] = 1
                scale.append(ex[i][1])
            else:
                ub.append(min(nodes[a["u"]]["qty"], nodes[a["v"]]["qty"]))
                scale.append(1.0)
        ub += [np.inf] * len(withreq)
        rows, lo, hi = [], [], []
        for gi, r in enumerate(g["sgs"]):
            for j, cap in enumerate(r["caps"]):
                if cap >= 1e300:
                    continue
                rows.append({i: a["vc"][j] * scale[i] for i, a in enumerate(arcs) if a["v"] in r["nodes"]})
                lo.append(-np.inf)
                hi.append(cap)
            if g["excl"]:
                for e in r["ex"]:
                    rows.append({i: 1.0 for i, a in enumerate(arcs) if a["v"] in e})
                    lo.append(-np.inf)
                    hi.append(1.0)
        for gi in withreq:
            r = g["rgs"][gi]
            for j, cap in enumerate(r["caps"]):
                d = {i: a["uc"][j] * scale[i] for i, a in enumerate(arcs) if a["u"] in r["nodes"]}
                d[col[gi]] = 1.0
                rows.append(d)
                lo.append(cap)
                hi.append(np.inf)
            if g["excl"]:
                for u in r["nodes"]:
                    if nodes[u]["ex"]:
                        rows.append({i: 1.0 for i, a in enumerate(arcs) if a["u"] == u})
                        lo.append(-np.inf)
                        hi.append(1.0)
        for u, nd in enumerate(nodes):
            rows.append({i: scale[i] for i, a in enumerate(arcs) if u in (a["u"], a["v"])})
            lo.append(-np.inf)
            hi.append(nd["qty"])
        kw = {}
        if rows:
            A = lil_matrix((len(rows), N))
            for k, d in enumerate(rows):
                for i, x in d.items():
                    A[k, i] = x
            kw["constraints"] = LinearConstraint(A.tocsr(), lo, hi)
        res = milp(c, integrality=integ, bounds=Bounds(np.zeros(N), ub), options={"mip_rel_gap": 0}, **kw)
        if res.status != 0:
            raise HarnessError("reference optimizer: " + res.message)
        return res.fun

    def check(self, g, rig):
        if not g["arcs"]:
            return Info(False, ["no arcs"])
        obs = rig.run("h_graph", G.lines(g) + ["solve %s %d 2" % (g["solver"], g["excl"])])
        harcs, sols = G.parse(obs)
        if len(sols) != 2:
            raise Violation("unexpected observations")
        arcs, nodes = g["arcs"], g["nodes"]
        ex = [G.excl_info(g, i) if g["excl"] else (False, 0.0) for i in range(len(arcs))]
        opt = self.optimum(g, ex)
        pc = self.pseudo(g, ex)
        tot = sum(min(nodes[a["u"]]["qty"], nodes[a["v"]]["qty"]) for a in arcs)
        tol = 1e-6
        for st, obj, sol in sols:
            if st != "ok":
                raise Violation("solving failed: " + st)
            seen = set()
            for i, q, p in sol:
                if i < 0 or i in seen:
                    raise Violation("arc %d matched twice or unknown" % i)
                seen.add(i)
                a = arcs[i]
                if not (q > 0 and math.isfinite(q)):
                    raise Violation("arc %d has flow %r" % (i, q))
                if p != a["pref"]:
                    raise Violation("the match on arc %d carries preference %r instead of %r" % (i, p, a["pref"]))
                m = min(nodes[a["u"]]["qty"], nodes[a["v"]]["qty"])
                if q > m * (1 + tol):
                    raise Violation("arc %d: flow %r exceeds the quantities %r, %r of its partners" %
                                    (i, q, nodes[a["u"]]["qty"], nodes[a["v"]]["qty"]))
                if ex[i][0] and not G.near(q, ex[i][1], 1e-5):
                    raise Violation("exclusive trade %d is for %r, has to be %r or nothing" % (i, q, ex[i][1]))
            for u, nd in enumerate(nodes):
                x = sum(q for i, q, p in sol if u in (arcs[i]["u"], arcs[i]["v"]))
                if x > nd["qty"] * (1 + tol):
                    raise Violation("node %d (%s) has quantity %r but %r is traded" % (u, nd["side"], nd["qty"], x))
            for gi, r in enumerate(g["sgs"]):
                for j, c in enumerate(r["caps"]):
                    x = sum(q * arcs[i]["vc"][j] for i, q, p in sol if nodes[arcs[i]["v"]]["grp"] == gi)
                    if x > c + tol * max(1, min(c, 1e9), tot):
                        raise Violation("supply group %d uses %r of capacity %r" % (gi, x, c))
                if g["excl"]:
                    for e in r["ex"]:
                        if len([i for i, q, p in sol if arcs[i]["v"] in e]) > 1:
                            raise Violation("more than one trade of an exclusive object, bids %s" % e)
            if g["excl"]:
                for u, n in enumerate(nodes):
                    if n["side"] == "R" and n["ex"] and len([1 for i, q, p in sol if arcs[i]["u"] == u]) > 1:
                        raise Violation("exclusive request %d is served by several trades" % u)
            cost = sum(q / arcs[i]["pref"] for i, q, p in sol)
            for gi, r in enumerate(g["rgs"]):
                if any(a["u"] in r["nodes"] for a in arcs):
                    unmet = 0.0
                    for j, c in enumerate(r["caps"]):
                        unmet = max(unmet, c - sum(q * arcs[i]["uc"][j] for i, q, p in sol if arcs[i]["u"] in r["nodes"]))
                    cost += unmet * pc
            t = 1e-5 * (1 + abs(opt)) + 2e-6 * pc * (1 + len(arcs))
            if abs(cost - opt) > t:
                raise Violation("the flows %s cost %r, the optimum is %r" % (sol, cost, opt))
            if abs(obj - opt) > t:
                raise Violation("reported objective %r, the optimum is %r" % (obj, opt))
        made = {i: q for i, q, p in sols[0][2]}
        held = any(i not in made or made[i] < min(nodes[a["u"]]["qty"], nodes[a["v"]]["qty"]) * (1 - 1e-6)
                   for i, a in enumerate(arcs))
        labels = ["exclusive orders" if g["excl"] else "no exclusive orders"]
        if any(ex[i][0] for i in made):
            labels.append("exclusive trade")
        return Info(len(made) >= 2 and held, labels)


PROP = C06()
