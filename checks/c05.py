"""C05: greedy solver."""
import math
from pbt import Prop, Info, Violation, hx, fl
import graphlib as G

EPS = 1e-6
BIG = G.BIG


def safe(prefs):
    """the sum does not depend on the order of summation"""
    return len(prefs) <= 2 or all((p * 1024).is_integer() and p < 2**20 for p in prefs)


class Ambiguous(Exception):
    pass


def stable_desc(items, key, sig):
    """stable sort by decreasing key; near ties that are not exact ones make the order ambiguous"""
    ks = [key(i) for i in items]
    for a in range(len(items)):
        for b in range(a):
            if G.near(ks[a], ks[b], 1e-12) and not (sig(items[a]) is not None and sig(items[a]) == sig(items[b])):
                raise Ambiguous()
    return [i for i, k in sorted(zip(items, ks), key=lambda t: -t[1])]


class C05(Prop):
    id = "C05"
    harnesses = ("h_graph",)
    quick = 40000
    thorough = 600000
    rule = ("an exchange graph of 1-4 request groups (1-3 requests each), 1-4 supply groups (1-4 bids), 0-3 capacities "
            "per group with unit capacities 0-3, exclusive requests and bids, bids sharing an exclusive object, and "
            "commodity weights; nodes allocated in random order; non-trivial: at least two trades, or one trade and a "
            "trade held back by a constraint")
    assumptions = ("preferences are positive and every arc has one unit capacity per capacity of its group, as the exchange "
                   "translation guarantees",
                   "where averages of preferences tie within round-off the order is not checked, only feasibility")

    def gen(self, s):
        g = G.gen_graph(s, 5 if s.bool(0.2) else 3, 5 if s.bool(0.2) else 3)
        g["excl"] = int(s.bool(0.7))
        g["cond"] = s.weighted([(4, 0), (2, 1), (2, 2), (1, 3)])
        g["w"] = {}
        if g["cond"] in (1, 2):
            for c in G.COMS:
                if s.bool(0.85):
                    g["w"][c] = s.pick([1.0, 2.0, 0.5, 5.0, 0.0])
        return g

    def model(self, g):
        """-> (list of (arc, qty), objective)"""
        nodes, arcs = g["nodes"], g["arcs"]
        prefs = {i: [a["pref"] for a in arcs if a["u"] == i] for i in range(len(nodes))}
        avg = {i: (sum(p) / len(p) if p else 0.0) for i, p in prefs.items()}
        w = dict(g["w"])
        if g["cond"] == 2 and w:
            lo, hi = min(w.values()), max(w.values())
            w = {k: hi + lo - x for k, x in w.items()}

        def nw(i):
            cw = w.get(nodes[i]["com"], 0.0) if w else 1.0
            return cw * (1 + avg[i] / (1 + avg[i]))

        def psig(i):
            return tuple(sorted(prefs[i])) if safe(prefs[i]) else None

        def nsig(i):
            p = psig(i)
            return None if p is None else (p, w.get(nodes[i]["com"], 0.0) if w else 1.0)

        def zero_ok(sig, key):
            # products with a weight of zero are exactly zero
            return lambda i: "zero" if key(i) == 0 else sig(i)
        groups = [(gi, list(r["nodes"])) for gi, r in enumerate(g["rgs"])]
        if g["cond"] != 3:
            groups = [(gi, stable_desc(ns, nw, zero_ok(nsig, nw))) for gi, ns in groups]

            def gw(t):
                return sum(nw(i) for i in t[1]) / len(t[1])

            def gsig(t):
                x = [zero_ok(nsig, nw)(i) for i in t[1]]
                return None if None in x else tuple(x)
            groups = stable_desc(groups, gw, zero_ok(gsig, gw))
        left = [[c for c in r["caps"]] for r in g["sgs"]]
        rleft = [[c for c in r["caps"]] for r in g["rgs"]]
        used = [0.0] * len(nodes)
        ex = [G.excl_info(g, i) for i in range(len(arcs))]
        out = []
        obj = 0.0
        unmet = 0.0
        for gi, ns in groups:
            target = g["rgs"][gi]["qty"]
            match = 0.0
            for u in stable_desc(ns, lambda i: avg[i], psig):
                mine = [i for i, a in enumerate(arcs) if a["u"] == u]
                for i in sorted(mine, key=lambda i: -arcs[i]["pref"]):
                    a = arcs[i]
                    v = a["v"]
                    if match > target:
                        break

                    def room(caps, ucs):
                        return [BIG if c == BIG or uc == 0 else c / uc for c, uc in zip(caps, ucs)]
                    x = min(target - match, nodes[u]["qty"] - used[u], nodes[v]["qty"] - used[v])
                    r = room(rleft[gi], a["uc"])
                    if r:
                        x = min(x, max(r))
                    sgi = nodes[v]["grp"]
                    r = room(left[sgi], a["vc"])
                    if r:
                        x = min(x, min(r))
                    if ex[i][0]:
                        e = ex[i][1]
                        if x != e and G.near(x, e, 1e-12):
                            raise Ambiguous()
                        if any(used[m] > 0 for m in self.mates(g, v)):
                            x = 0.0
                        x = e if x >= e else 0.0
                    if abs(x - EPS) < 1e-9:
                        raise Ambiguous()
                    if x > EPS:
                        out.append((i, x))
                        used[u] += x
                        used[v] += x
                        match += x
                        obj += x / a["pref"]
                        for caps, ucs in ((rleft[gi], a["uc"]), (left[sgi], a["vc"])):
                            for j in range(len(caps)):
                                if caps[j] != BIG:
                                    caps[j] -= x * ucs[j]
            unmet += target - match
        pc = 0.0
        for i, a in enumerate(arcs):
            c = 1 / a["pref"]
            if ex[i][0] and g["excl"]:
                c = (ex[i][1] if ex[i][1] >= 1 else 1.0 if ex[i][1] > 0 else 0.0) / a["pref"]
            pc = max(pc, c)
        return out, obj + unmet * pc * 1.1

    @staticmethod
    def mates(g, v):
        for e in g["sgs"][g["nodes"][v]["grp"]]["ex"]:
            if v in e:
                return e
        return []

    def feasible(self, g, sol):
        nodes, arcs = g["nodes"], g["arcs"]
        seen = set()
        used = [0.0] * len(nodes)
        tol = 1e-9
        for i, q, p in sol:
            if i < 0:
                raise Violation("a match is on an arc that is not in the graph")
            if i in seen:
                raise Violation("arc %d is matched twice" % i)
            seen.add(i)
            if not (q > 0 and math.isfinite(q)):
                raise Violation("arc %d has flow %r" % (i, q))
            if p != arcs[i]["pref"]:
                raise Violation("the match on arc %d carries preference %r instead of %r" % (i, p, arcs[i]["pref"]))
            a = arcs[i]
            used[a["u"]] += q
            used[a["v"]] += q
            e, val = G.excl_info(g, i)
            if e and not (val > 0 and G.near(q, val, 1e-14)):
                raise Violation("the exclusive trade %d is for %r, has to be %r or nothing" % (i, q, val))
        for n, x in enumerate(used):
            if x > nodes[n]["qty"] * (1 + tol):
                raise Violation("node %d (%s) has quantity %r but %r is traded" % (n, nodes[n]["side"], nodes[n]["qty"], x))
        for gi, r in enumerate(g["rgs"]):
            x = sum(q for i, q, p in sol if nodes[arcs[i]["u"]]["grp"] == gi)
            if x > r["qty"] * (1 + tol):
                raise Violation("request group %d gets %r of %r" % (gi, x, r["qty"]))
        for gi, r in enumerate(g["sgs"]):
            for j, c in enumerate(r["caps"]):
                x = sum(q * arcs[i]["vc"][j] for i, q, p in sol if nodes[arcs[i]["v"]]["grp"] == gi)
                if x > c * (1 + tol) + 1e-12:
                    raise Violation("supply group %d uses %r of capacity %r" % (gi, x, c))
            for e in r["ex"]:
                m = [i for i, q, p in sol if arcs[i]["v"] in e]
                if len(m) > 1:
                    raise Violation("bids %s offer one exclusive object, trades %s are both made" % (e, m))

    def check(self, g, rig):
        w = " ".join("%s %s" % (hx(k), fl(x)) for k, x in sorted(g["w"].items()))
        obs = rig.run("h_graph", G.lines(g) + ["solve greedy %d %d 2 %s" % (g["excl"], g["cond"], w)])
        harcs, sols = G.parse(obs)
        if len(sols) != 2 or len(harcs) != len(g["arcs"]):
            raise Violation("unexpected observations")
        for i, (e, val) in enumerate(harcs):
            me, mval = G.excl_info(g, i)
            if bool(e) != me or (me and not (val == mval or G.near(val, mval, 1e-14))):
                raise Violation("arc %d: exclusive %s with %r, expected %s with %r" % (i, e, val, me, mval))
        for st, obj, sol in sols:
            if st != "ok":
                raise Violation("solving failed: " + st)
            self.feasible(g, sol)
        labels = []
        try:
            out, obj = self.model(g)
        except Ambiguous:
            return Info(len(sols[0][2]) >= 2, ["ambiguous order"])
        for k, (st, o, sol) in enumerate(sols):
            got = sorted((i, q) for i, q, p in sol)
            exp = sorted(out)
            if [i for i, q in got] != [i for i, q in exp] or any(not G.near(a[1], b[1], 1e-9) for a, b in zip(got, exp)):
                raise Violation("solve %d: flows %s, serving greedily by preference gives %s" % (k, got, exp))
            if not (G.near(o, obj, 1e-9) or abs(o - obj) < 1e-9):
                raise Violation("solve %d: objective %r, expected %r" % (k, o, obj))
        part = any(0 < q < min(g["nodes"][g["arcs"][i]["u"]]["qty"], g["nodes"][g["arcs"][i]["v"]]["qty"]) * (1 - 1e-9)
                   for i, q in out)
        if any(G.excl_info(g, i)[0] for i, q in out):
            labels.append("exclusive trade")
        if part:
            labels.append("partial trade")
        if len(out) < len(g["arcs"]):
            labels.append("trade not made")
        labels.append("cond %d" % g["cond"])
        return Info(len(out) >= 2 or (len(out) == 1 and (part or len(g["arcs"]) > 1)), labels)


PROP = C05()
