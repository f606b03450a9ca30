"""Generated exchange graphs, shared by the two solver checks."""
from pbt import hx, fl, unfl, Violation

PREFS = [1.0, 2.0, 0.5, 4.0, 0.25, 8.0, 3.0, 10.0, 0.1, 1.5, 100.0]
QTYS = [1.0, 2.0, 3.0, 5.0, 10.0, 0.5, 7.5, 4.0, 100.0, 0.1]
BIG = 1.7976931348623157e308
COMS = ["a", "b", "c"]


def gen_graph(s, maxr=4, maxs=4, milp=False):
    """a graph as data: request groups (qty, caps, nodes), supply groups (caps, nodes, excl sets), arcs"""
    fancy = s.bool(0.5)       # unit capacities other than one

    size = s.weighted([(6, 1.0), (1, 1000.0), (1, 65536.0)])

    def qty():
        return size * qty1()

    def qty1():
        k = s.weighted([(5, "n"), (2, "r"), (1, "sum")])
        if k == "n":
            return s.pick(QTYS)
        if k == "r":
            return s.real(0.1, 20)
        return s.pick(QTYS) + s.pick(QTYS)

    def pref():
        return s.pick(PREFS) if s.bool(0.8) else s.real(0.05, 20)

    pexcl = s.pick([0.0, 0.0, 0.3, 0.7])
    rgs = []
    nodes = []
    nr = s.int(1, maxr)
    for gi in range(nr):
        nn = s.weighted([(4, 1), (3, 2), (1, 3)])
        ids = []
        for _ in range(nn):
            nodes.append({"side": "R", "grp": gi, "qty": qty(), "ex": s.bool(pexcl), "com": s.pick(COMS)})
            ids.append(len(nodes) - 1)
        k = s.weighted([(4, "avg"), (2, "sum"), (2, "max"), (1, "free")])
        qs = [nodes[i]["qty"] for i in ids]
        q = sum(qs) / len(qs) if k == "avg" else sum(qs) if k == "sum" else max(qs) if k == "max" else qty()
        ncap = s.weighted([(1, 0), (5, 1), (2, 2)]) if not milp else s.weighted([(5, 1), (2, 2)])
        caps = []
        for c in range(ncap):
            caps.append(q if c == 0 and s.bool(0.8) else qty() * s.pick([1, 1, 0.5, 2]))
        rgs.append({"qty": q, "caps": caps, "nodes": ids})
    rnodes = list(range(len(nodes)))
    sgs = []
    arcs = []
    ns = s.int(1, maxs)
    for gi in range(ns):
        ids = []
        exsets = []
        ncap = s.weighted([(2, 0), (4, 1), (2, 2), (1, 3)])
        mode = s.weighted([(5, "bids"), (1, "shared")])
        mine = []
        if mode == "bids":
            # one bid node per offered trade, as the exchange translation makes them
            for _ in range(s.int(1, 4)):
                u = s.pick(rnodes)
                nodes.append({"side": "S", "grp": gi, "qty": nodes[u]["qty"] if s.bool(0.45) else qty(),
                              "ex": s.bool(pexcl), "com": nodes[u]["com"]})
                ids.append(len(nodes) - 1)
                mine.append((u, len(nodes) - 1))
        else:
            nodes.append({"side": "S", "grp": gi, "qty": qty(), "ex": s.bool(pexcl), "com": "a"})
            v = len(nodes) - 1
            ids.append(v)
            for u in s.subset(rnodes, 0.6):
                mine.append((u, v))
        caps = []
        for c in range(ncap):
            kk = s.weighted([(5, "q"), (1, "zero"), (1, "big"), (2, "tight")])
            if kk == "q":
                caps.append(qty() * s.pick([1, 1, 0.5, 2]))
            elif kk == "zero":
                caps.append(0.0)
            elif kk == "big":
                caps.append(BIG)
            else:
                caps.append(sum(nodes[v]["qty"] for v in ids) * s.pick([1.0, 0.5, 0.75]))
        ex = [v for v in ids if nodes[v]["ex"]]
        if len(ex) > 0:
            # exclusive bids either on objects of their own or sharing one
            if s.bool(0.5) and len(ex) > 1:
                exsets = [ex]
            else:
                exsets = [[v] for v in ex]
        sgs.append({"caps": caps, "nodes": ids, "ex": exsets})

        for u, v in mine:
            def ucap():
                return s.weighted([(3, 1.0), (1, 0.5), (1, 2.0), (1, 0.0), (1, 0.007), (1, 3.0)]) if fancy else 1.0
            arcs.append({"u": u, "v": v, "pref": pref(),
                         "uc": [ucap() if i else s.weighted([(8, 1.0), (1, 0.5)]) if fancy else 1.0
                                for i in range(len(rgs[nodes[u]["grp"]]["caps"]))],
                         "vc": [ucap() for _ in caps]})
    order = list(range(len(nodes)))
    s.shuffle(order)
    return {"rgs": rgs, "sgs": sgs, "nodes": nodes, "arcs": arcs, "order": order}


def lines(g):
    out = ["order " + " ".join(map(str, g["order"]))]
    for r in g["rgs"]:
        out.append("rgrp %s %d %s" % (fl(r["qty"]), len(r["caps"]), " ".join(map(fl, r["caps"]))))
    for r in g["sgs"]:
        out.append("sgrp %d %s" % (len(r["caps"]), " ".join(map(fl, r["caps"]))))
    for i, n in enumerate(g["nodes"]):
        out.append("node %d %s %d %s %d %s" % (i, n["side"], n["grp"], fl(n["qty"]), n["ex"], hx(n["com"])))
    for i, r in enumerate(g["sgs"]):
        for e in r["ex"]:
            out.append("excl %d %s" % (i, " ".join(map(str, e))))
    for a in g["arcs"]:
        out.append("arc %d %d %s %d %s %d %s" % (a["u"], a["v"], fl(a["pref"]), len(a["uc"]), " ".join(map(fl, a["uc"])),
                                                 len(a["vc"]), " ".join(map(fl, a["vc"]))))
    out.append("add")
    return out


def parse(obs):
    """-> ([(excl, val)...], [ (status, obj, [(arc, qty, pref)...]) ... ])"""
    arcs, sols = [], []
    for ln in obs:
        t = ln.split()
        if t[0] == "ARC":
            arcs.append((int(t[2]), unfl(t[3])))
        elif t[0] == "SOLVE":
            sols.append((t[1], unfl(t[2]) if t[1] == "ok" else None, []))
        elif t[0] == "MATCH":
            sols[-1][2].append((int(t[1]), unfl(t[2]), unfl(t[3])))
    return arcs, sols


def near(a, b, r=1e-12):
    return abs(a - b) <= r * max(abs(a), abs(b))


def excl_info(g, i):
    """-> (exclusive, the quantity an exclusive trade has to have, 0 if impossible)"""
    a = g["arcs"][i]
    u, v = g["nodes"][a["u"]], g["nodes"][a["v"]]
    if not (u["ex"] or v["ex"]):
        return False, 0.0
    eq = near(u["qty"], v["qty"], 1e-15)
    if u["ex"] and v["ex"]:
        return True, u["qty"] if eq else 0.0
    if u["ex"]:
        return True, u["qty"] if (u["qty"] <= v["qty"] or eq) else 0.0
    return True, v["qty"] if (v["qty"] <= u["qty"] or eq) else 0.0
