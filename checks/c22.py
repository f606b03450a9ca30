"""C22: enrichment, material queries and positions."""
import math
import re

import c17 as M
from pbt import Prop, Info, Violation, fl, unfl

R = 6372.8
NAMES = {922350000: ["U235", "92235", "u-235"], 922380000: ["U238", "922380000"], 10010000: ["H1"], 942390000: ["Pu239", "PU-239"], 80160000: ["O16"]}


def g_deg(s, lim):
    return s.weighted([(3, float(s.int(-lim, lim))), (3, s.real(-lim, lim)), (2, s.int(-lim * 36000, lim * 36000) / 36000.0),
                       (1, s.pick([0.0, float(lim), -float(lim), 0.1 / 3600, -0.1 / 3600, 0.3 / 3600, 1e-9])), (0.4, s.pick([lim + 0.5, -lim - 1e-6, 1e5]))])


class C22(Prop):
    id = "C22"
    harnesses = ("h_chem",)
    quick = 12000
    thorough = 150000
    rule = "a material of 2 or more nuclides is queried, or an enrichment with distinct assays, or two distinct positions are compared"
    assumptions = ("materials have a positive quantity and compositions a positive total",)

    def gen(self, s):
        k = s.weighted([(3, "mat"), (2, "enr"), (2, "pos")])
        if k == "mat":
            ns = list(dict.fromkeys([922350000, 922380000][:s.int(0, 2)] + [s.pick(M.GOOD) for _ in range(s.int(1, 5) if s.bool(0.9) else s.int(6, 16))]))
            c = {"kind": k, "q": s.pick([1.0, 2.5, 1e-3, 1e6, 0.1]), "q2": s.pick([1.0, 7.0]),
                 "m": [[n, s.pick([1.0, 0.5, 0.1, 3.0, 1e-6, 0.0])] for n in ns], "by": s.pick(["mass", "atom"]), "by2": s.pick(["mass", "atom"])}
            if sum(v for _, v in c["m"]) == 0:
                c["m"][0][1] = 1.0
            o = [[n, v * s.pick([1.0, 1.0, 0.5, 1 + 1e-7, 2.0, 0.0])] for n, v in s.subset(c["m"])]
            if s.bool(0.3):
                n = s.pick(M.GOOD)
                if n not in [x for x, _ in o]:
                    o.append([n, s.pick([0.0, 1.0])])
            if s.bool(0.2):
                o = [[n, v * 2.0] for n, v in c["m"]]
            if not o or sum(v for _, v in o) == 0:
                o = [[922350000, 1.0]]
            c["o"] = o
            c["ask"] = [s.weighted([(3, s.pick(ns)), (1, s.pick(M.GOOD))]) for _ in range(s.int(1, 3))]
            c["set"] = list(dict.fromkeys(s.weighted([(3, s.pick(ns)), (1, s.pick(M.GOOD))]) for _ in range(s.int(0, 4) if s.bool(0.85) else s.int(5, 12))))
            c["thr"] = s.pick([1e-9, 1e-5, 0.1])
            return c
        if k == "enr":
            a = [s.weighted([(4, s.real(1e-4, 0.999)), (1, s.pick([0.00711, 0.002, 0.003, 0.04, 0.2, 0.5, 0.9]))]) for _ in range(3)]
            a.sort()
            if s.bool(0.1):
                a[2] = a[1]
            f = [s.weighted([(3, s.real(0, 1)), (1, s.pick([-1e-9, 1.0, 1.5, -3.0, 0.5, 0.999999]))])]
            return {"kind": k, "p": s.pick([1.0, 0.0, 10.0, 123.4, 1e-3]), "tails": a[0], "feed": a[1], "product": a[2], "frac": f[0]}
        c = {"kind": k, "p": [[g_deg(s, 90), g_deg(s, 180)] for _ in range(s.int(1, 3))], "how": [s.int(0, 2) for _ in range(3)]}
        if s.bool(0.25):
            la, lo = c["p"][0]
            c["p"].append([-la, lo - 180 if lo > 0 else lo + 180])
        if s.bool(0.15):
            c["p"].append(list(c["p"][0]))
        c["how"] = [s.int(0, 2) for _ in c["p"]]
        return c

    def check(self, c, rig):
        return getattr(self, c["kind"])(c, rig)

    def mat(self, c, rig):
        used = sorted({n for n, _ in c["m"]} | {n for n, _ in c["o"]} | set(c["ask"]) | set(c["set"]))
        L = ["am %d" % n for n in used]
        L += ["map a %s" % M.enc(c["m"]), "map b %s" % M.enc(c["o"]), "comp a a %s" % c["by"], "comp b b %s" % c["by2"],
              "mat m %s a" % fl(c["q"]), "mat o %s b" % fl(c["q2"])]
        k = len(L)
        Q = [("qty",), ("uassay",), ("uassay0",), ("uassaym",), ("uqty",), ("eq",), ("amount",), ("mfracs",), ("afracs",)]
        for n in c["ask"]:
            for w in ("mass", "moles", "mfrac", "afrac"):
                Q.append((w, n, str(n)))
                for x in NAMES.get(n, []):
                    Q.append((w, n, "n" + x))
        for q in Q:
            if q[0] == "eq":
                L.append("q m eq o %s" % fl(c["thr"]))
            elif q[0] == "amount":
                L.append("q m amount b")
            elif q[0] in ("mfracs", "afracs"):
                L.append("q m %s %s" % (q[0], " ".join(map(str, c["set"]))))
            else:
                L.append("q m %s" % " ".join(str(x) for x in (q[0], *q[2:])))
        out = rig.run("h_chem", "\n".join(L))
        am = {n: unfl(out[i].split()[1]) for i, n in enumerate(used)}

        def fracs(m, by):
            ms = {n: v * (am[n] if by == "atom" else 1) for n, v in m}
            at = {n: v / (am[n] if by == "mass" else 1) for n, v in m}
            return {n: v / sum(ms.values()) for n, v in ms.items()}, {n: v / sum(at.values()) for n, v in at.items()}
        mf, af = fracs(c["m"], c["by"])
        of, _ = fracs(c["o"], c["by2"])
        u5, u8 = 922350000, 922380000

        def ratio(f):
            a, b = f.get(u5, 0), f.get(u8, 0)
            return a / (a + b) if a + b > 0 else 0
        for q, l in zip(Q, out[k:]):
            t = l.split()
            if t[0] == "ERR":
                raise Violation("query %s fails: %s" % (q, l))
            if q[0] == "eq":
                w, edge = sorted(mf) == sorted(of), False
                if w:
                    for n in mf:
                        d, x = abs(mf[n] - of[n]), min(mf[n], of[n]) * c["thr"]
                        if abs(d - x) <= 1e-3 * max(d, x) or max(d, x) < 1e-13 * max(mf[n], of[n]):
                            edge = edge or d > x * 0.99
                        elif d > x:
                            w = False
                if t[1] != str(int(w)) and not (w and edge):
                    raise Violation("AlmostEq(%s) of fractions %s and %s gives %s" % (c["thr"], mf, of, t[1]))
                continue
            got = unfl(t[1])
            n = q[1] if len(q) > 1 else None
            if q[0] == "qty":
                w = c["q"]
            elif q[0] in ("uassay", "uassay0"):
                w = ratio(af)
            elif q[0] == "uassaym":
                w = ratio(mf)
            elif q[0] == "uqty":
                w = c["q"] * (mf.get(u5, 0) + mf.get(u8, 0))
            elif q[0] == "amount":
                w = c["q"] * min(mf.get(x, 0) / v for x, v in of.items() if v > 0)
            elif q[0] == "mfracs":
                w = sum(mf.get(x, 0) for x in c["set"])
            elif q[0] == "afracs":
                w = sum(af.get(x, 0) for x in c["set"])
            elif q[0] == "mass":
                w = c["q"] * mf.get(n, 0)
            elif q[0] == "moles":
                w = c["q"] * mf.get(n, 0) * 1000 / am[n]
            elif q[0] == "mfrac":
                w = mf.get(n, 0)
            else:
                w = af.get(n, 0)
            if not M.close(got, w, 1e-10):
                raise Violation("%s of %s kg of mass fractions %s gives %r, expected %r (other: %s)" % (" ".join(map(str, q)), c["q"], mf, got, w, of))
        return Info(len(c["m"]) > 1, ["material", "by:" + c["by"]])

    def enr(self, c, rig):
        f, p, t = c["feed"], c["product"], c["tails"]
        q = c["p"]
        a = " ".join(map(fl, (q, f, p, t)))
        out = rig.run("h_chem", "\n".join(["enr " + a, "swu " + a, "value " + fl(c["frac"])] + ["value " + fl(x) for x in (f, p, t)]
                                           + ["value " + fl(1 - c["frac"])]))
        if f - t < 1e-6:
            return Info(False, ["degenerate"])
        e = [unfl(x) for x in out[0].split()[1:]]
        if e[:3] != [f, p, t]:
            raise Violation("assays feed, product, tails %s come back as %s" % ([f, p, t], e[:3]))
        feed, tails = e[3:]
        tol = 1e-9 * max(abs(feed), abs(q)) / min(1.0, (f - t))
        if abs(feed - q - tails) > tol or abs(feed * f - q * p - tails * t) > tol:
            raise Violation("product %r at %r, feed %r at %r, tails %r at %r: does not balance" % (q, p, feed, f, tails, t))
        if q and (feed < q * (1 - 1e-9) or tails < -tol):
            raise Violation("product %r needs feed %r and gives tails %r" % (q, feed, tails))

        def V(x):
            return (2 * x - 1) * math.log(x / (1 - x))
        for x, l in zip((f, p, t), out[3:6]):
            if not M.close(unfl(l.split()[1]), V(x), 1e-9) and abs(unfl(l.split()[1]) - V(x)) > 1e-12:
                raise Violation("the value function at %r is %r, should be %r" % (x, unfl(l.split()[1]), V(x)))
        w = q * V(p) + tails * V(t) - feed * V(f)
        sc = abs(q * V(p)) + abs(tails * V(t)) + abs(feed * V(f))
        s = unfl(out[1].split()[1])
        if abs(s - w) > 1e-9 * sc + 1e-15 or s < -1e-9 * sc:
            raise Violation("separative work %r for product %r at %r from %r with tails %r, should be %r" % (s, q, p, f, t, w))
        x = c["frac"]
        if (x < 0 or x >= 1) != (out[2].split() == ["ERR", "ValueError"]):
            raise Violation("the value function at %r gives %s" % (x, out[2]))
        if 0.001 < x < 0.999:
            if abs(unfl(out[2].split()[1]) - V(x)) > 1e-9 * abs(V(x)) + 1e-12:
                raise Violation("the value function at %r is %s, should be %r" % (x, out[2], V(x)))
        return Info(f < p, ["enrichment"])

    def pos(self, c, rig):
        L, exp = [], []
        for i, ((la, lo), h) in enumerate(zip(c["p"], c["how"])):
            if h == 0:
                L.append("place p%d %s %s" % (i, fl(la), fl(lo)))
            elif h == 1:
                L += ["place p%d 0x0p+0 0x0p+0" % i, "setpos p%d %s %s" % (i, fl(la), fl(lo))]
            else:
                L += ["place p%d 0x0p+0 0x0p+0" % i, "setlat p%d %s" % (i, fl(la)), "setlon p%d %s" % (i, fl(lo))]
            okla, oklo = abs(la) <= 90, abs(lo) <= 180
            good = okla and oklo
            if h == 0:
                exp.append((len(L) - 1, good))
            elif h == 1:
                exp.append((len(L) - 1, good))
            else:
                exp += [(len(L) - 2, okla), (len(L) - 1, oklo)]
        k = len(L)
        n = len(c["p"])
        L += ["where p%d" % i for i in range(n)]
        L += ["text p%d %s" % (i, f) for i in range(n) for f in ("D", "DM", "DMS")]
        k2 = len(L)
        pairs = [(i, j) for i in range(n) for j in range(n)]
        L += ["dist p%d p%d" % x for x in pairs]
        out = rig.run("h_chem", "\n".join(L))
        labels = ["position"]
        for i, ok in exp:
            if out[i].split() != (["OK"] if ok else ["ERR", "ValueError"]):
                raise Violation("%s gives %s" % (L[i], out[i]))
            if not ok:
                labels.append("refused")
        at = []
        for i, ((la, lo), h) in enumerate(zip(c["p"], c["how"])):
            g = [unfl(x) for x in out[k + i].split()[1:]]
            okla, oklo = abs(la) <= 90, abs(lo) <= 180
            if h < 2 and not (okla and oklo):
                la, lo = 0.0, 0.0
            if h == 2:
                la, lo = la if okla else 0.0, lo if oklo else 0.0
            if abs(g[0] - la) > 0.051 / 3600 + 1e-6 or abs(g[1] - lo) > 0.051 / 3600 + 1e-6:
                raise Violation("the position %s is kept as %s" % ([la, lo], g))
            at.append(g)
            for j, f in enumerate(("D", "DM", "DMS")):
                tx = out[k + n + 3 * i + j][2:]
                m = re.fullmatch(r"([+-])([0-9.]+)([+-])([0-9.]+)/", tx)
                if not m:
                    raise Violation("the position %s is written as %s" % (g, tx))
                for sg, num, v, w in ((m[1], m[2], g[0], 2), (m[3], m[4], g[1], 3)):
                    if f == "D":
                        x, tol, il = float(num), 6e-5, len(num.split(".")[0])
                        if il != w:
                            raise Violation("the position %s is written as %s" % (g, tx))
                    elif f == "DM":
                        x, tol = int(num[:w]) + float(num[w:]) / 60, 6e-3 / 60
                        if len(num.split(".")[0]) != w + 2:
                            raise Violation("the position %s is written as %s" % (g, tx))
                    else:
                        x, tol = int(num[:w]) + int(num[w:w + 2]) / 60 + float(num[w + 2:]) / 3600, 0.06 / 3600
                        if len(num.split(".")[0]) != w + 4 or len(num.split(".")[-1]) != 1:
                            raise Violation("the position %s is written as %s" % (g, tx))
                    if abs(x - abs(v)) > tol or (sg == "-") != (v < 0):
                        raise Violation("the position %s is written as %s" % (g, tx))
        d = {}
        for (i, j), l in zip(pairs, out[k2:]):
            d[i, j] = unfl(l.split()[1])
            a1, o1, a2, o2 = [math.radians(x) for x in at[i] + at[j]]
            v1 = (math.cos(a1) * math.cos(o1), math.cos(a1) * math.sin(o1), math.sin(a1))
            v2 = (math.cos(a2) * math.cos(o2), math.cos(a2) * math.sin(o2), math.sin(a2))
            cr = (v1[1] * v2[2] - v1[2] * v2[1], v1[2] * v2[0] - v1[0] * v2[2], v1[0] * v2[1] - v1[1] * v2[0])
            w = R * math.atan2(math.sqrt(sum(x * x for x in cr)), sum(x * y for x, y in zip(v1, v2)))
            if not abs(d[i, j] - w) <= 0.02 + 1e-3 * w:
                raise Violation("the distance of %s and %s is %r km, should be %r" % (at[i], at[j], d[i, j], w))
        for i, j in pairs:
            if abs(d[i, j] - d[j, i]) > 1e-6:
                raise Violation("distance %s %s is %r, back %r" % (at[i], at[j], d[i, j], d[j, i]))
        return Info(len({tuple(x) for x in at}) > 1, labels)


PROP = C22()
