"""C19: symbolic functions, producers' bookkeeping and build decisions, as histories against a model."""
import math

from pbt import Prop, Info, Violation, hx, unhx, fl, unfl

COM = ["power", "fuel", "ore"]
LIMIT = 1e10


def close(a, b, tol=1e-9):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b), 1e-12)


class Piece:
    def __init__(self):
        self.f = []

    def value(self, x):
        r = 0.0
        for x0, f, y0 in self.f:
            if x >= x0:
                r = f(x - x0) + y0
        return r


def least(items, demand):
    """least cost of whole numbers of (capacity, cost) that cover the demand, None if impossible"""
    items = [(c, k) for c, k in items if c > 0]
    if not items:
        return None
    import numpy as np
    from scipy.optimize import milp, LinearConstraint, Bounds
    c = np.array([k for _, k in items])
    A = np.array([[x for x, _ in items]])
    best = None
    # greedy bound on the numbers keeps the search small; scaled so that the tolerances are relative
    r = milp(c / max(c.max(), 1e-300), constraints=LinearConstraint(A / demand, lb=1 - 1e-9), integrality=np.ones(len(c)),
             bounds=Bounds(0, [math.ceil(demand / x) for x, _ in items]), options={"mip_rel_gap": 0})
    if r.x is None:
        return None
    n = [round(v) for v in r.x]
    return sum(a * b for a, b in zip(n, c))


class C19(Prop):
    id = "C19"
    harnesses = ("h_plan",)
    quick = 8000
    thorough = 200000
    rule = "at least 8 operations with a function evaluated, a total asked for or a build decision with a choice"
    assumptions = ("at least one producer with positive capacity when demand is positive; costs are positive; capacities and demands within a factor 1e4",)

    def gen(self, s):
        c = {"ops": []}
        nf = np_ = 0
        pieces = {}
        kind = s.pick(["fn", "plan", "all"])
        if kind == "plan" and s.bool(0.12):      # many producers of one commodity
            for b in range(3):
                c["ops"].append(["bmreg", "b%d" % b])
            for _ in range(s.int(4, 9)):
                c["ops"] += [["prod", "p%d" % np_, None], ["padd", "p%d" % np_, COM[0], [s.int(1, 80) / s.pick([1.0, 2.0]), s.int(1, 80) / 2.0]],
                             ["breg", "b%d" % s.int(0, 2), "p%d" % np_]]
                np_ += 1
            c["ops"] += [["decide", s.weighted([(3, float(s.int(1, 120))), (2, s.real(0.1, 300))]), COM[0]] for _ in range(s.int(1, 4))]
        for _ in range(s.int(3, 26)):
            k = s.weighted([(4, "fn"), (4, "piece"), (1, "endpiece"), (5, "val")] if kind == "fn" else
                           [(4, "prod"), (4, "padd"), (1, "prm"), (1, "pcap"), (1, "pcost"), (1, "pcopy"), (1, "pshow"), (1, "produces"), (4, "breg"),
                            (0.5, "bunreg"), (3, "bmreg"), (0.3, "bmunreg"), (4, "decide")] if kind == "plan" else
                           [(2, "fn"), (1, "val"), (3, "prod"), (4, "padd"), (1, "prm"), (1, "pcap"), (1, "pshow"), (4, "mreg"), (1, "munreg"), (3, "total"),
                            (3, "sreg"), (0.7, "sunreg"), (3, "scom"), (1, "manages"), (3, "demand"), (4, "supply")])
            num = lambda: s.weighted([(3, float(s.int(-5, 9))), (2, s.real(-50, 50)), (1, s.pick([0.0, 1.0, 0.25]))])
            cap = lambda: s.weighted([(4, float(s.int(1, 40))), (2, s.int(1, 100) / 8.0), (1, s.pick([0.1, 0.3, 0.7, 1e3, 33.3]))])
            if k == "fn":
                t = s.pick(["lin", "linear", "exp", "exponential"])
                p = [num(), num()]
                if t.startswith("exp"):
                    p[1] = s.pick([0.0, 0.1, -0.2, 1.0, 0.05])
                    if s.bool():
                        p.append(num())
                c["ops"].append(["fn", "f%d" % nf, t, p, s.pick([" ", "  ", "\t"]), s.bool(0.2)])
                nf += 1
                if s.bool(0.04):
                    c["ops"].append(["fn", "f%d" % nf, s.pick(["sin", "", "LIN", "quad"]), p, " ", False])
            elif k == "piece" and nf:
                w = "w%d" % s.int(0, 1)
                x = pieces.get(w, -3.0) + s.pick([1.0, 0.5, 4.25, 2.0])
                if s.bool(0.12):
                    x = pieces.get(w, 0.0) - s.pick([0.0, 1.0])
                c["ops"].append(["piece", w, "f%d" % s.int(0, nf - 1), x, s.pick(["0", "1", "1", "def"])])
                pieces[w] = max(x, pieces.get(w, x))
            elif k == "endpiece":
                c["ops"].append(["endpiece", "w%d" % s.int(0, 1), s.bool(0.1)])
            elif k == "val" and nf:
                n = s.weighted([(2, "f%d" % s.int(0, nf - 1)), (4, "w%d" % s.int(0, 1))])
                x = s.weighted([(2, num()), (3, pieces.get(n, 1.0) + s.pick([-1e-9, 0.0, 1e-9, 0.5, -0.5, 3.0])), (1, -10.0)])
                c["ops"].append(["val", n, x])
            elif k == "prod":
                c["ops"].append(["prod", "p%d" % np_, s.pick([None, [cap(), cap()]])])
                np_ += 1
            elif k in ("padd", "prm", "pcap", "pcost", "pcopy", "pshow", "produces", "breg", "bunreg", "mreg", "munreg"):
                if not np_:
                    continue
                p = "p%d" % s.int(0, np_ - 1)
                co = s.weighted([(3, COM[0]), (1, s.pick(COM))])
                if k == "padd":
                    c["ops"].append([k, p, co, s.weighted([(4, [cap(), cap()]), (1, None)])])
                elif k in ("pcap", "pcost"):
                    c["ops"].append([k, p, co, cap()])
                elif k == "pcopy":
                    c["ops"].append([k, p, "p%d" % s.int(0, np_ - 1)])
                elif k == "pshow":
                    c["ops"].append([k, p])
                elif k in ("prm", "produces"):
                    c["ops"].append([k, p, co])
                else:
                    c["ops"].append([k, ("b" if k[0] == "b" else "m") + str(s.int(0, 2)), p])
            elif k in ("bmreg", "bmunreg"):
                c["ops"].append([k, "b%d" % s.int(0, 2)])
            elif k in ("sreg", "sunreg"):
                c["ops"].append([k, "m%d" % s.int(0, 2)])
            elif k == "total":
                c["ops"].append([k, "m%d" % s.int(0, 2), s.pick(COM)])
            elif k == "scom" and nf:
                c["ops"].append([k, "f%d" % s.int(0, nf - 1), s.pick(COM)])
            elif k in ("manages", "supply"):
                c["ops"].append([k, "-", s.weighted([(3, COM[0]), (1, s.pick(COM))])])
            elif k == "demand":
                c["ops"].append([k, s.int(-2, 60), s.pick(COM)])
            elif k == "decide":
                d = s.weighted([(3, float(s.int(1, 120))), (2, s.real(0.1, 300)), (1, s.pick([0.0, -5.0, 0.3, 1.1, 99.9]))])
                c["ops"].append([k, d, s.weighted([(4, COM[0]), (1, s.pick(COM))])])
        return c

    def check(self, c, rig):
        L, M = [], []
        fn, pw, prod, cpm, bld = {}, {}, {}, {}, {}
        sd, bmr, dem = set(), set(), {}
        labels = set()

        def ask(line, *want):
            L.append(line)
            M.append(want)
        for o in c["ops"]:
            k = o[0]
            if k == "fn":
                par = o[4].join(repr(x) for x in o[3]) + (" " if o[5] else "")
                a = o[3] + [0.0]
                if o[2] not in ("lin", "linear", "exp", "exponential"):
                    if o[2]:
                        ask("fn %s %s %s" % (o[1], o[2], hx(par)), "err", "Error")
                    continue
                if o[2].startswith("lin"):
                    fn[o[1]] = lambda x, a=a: a[0] * x + a[1]
                else:
                    fn[o[1]] = lambda x, a=a: a[0] * math.exp(a[1] * x) + a[2]
                ask("fn %s %s %s" % (o[1], o[2], hx(par)), "ok")
            elif k == "piece":
                if o[2] not in fn:
                    continue
                P = pw.setdefault(o[1], Piece())
                if P.f and o[3] <= P.f[-1][0]:
                    ask("piece %s %s %s %s" % (o[1], o[2], fl(o[3]), o[4]), "err", "Error")
                    labels.add("refused piece")
                    continue
                y = 0.0 if o[4] == "0" else P.value(o[3]) - fn[o[2]](0.0)
                P.f.append((o[3], fn[o[2]], y))
                ask("piece %s %s %s %s" % (o[1], o[2], fl(o[3]), o[4]), "ok")
            elif k == "endpiece":
                if o[2]:
                    ask("endpiece %s %s" % (o[1], hx("1 2")), "err", "Error")
                pw.setdefault(o[1], Piece())
                ask("endpiece %s" % o[1], "ok")
            elif k == "val":
                if o[1][0] == "w":
                    if o[1] not in pw:
                        continue
                    ask("endpiece %s" % o[1], "ok")
                    x0 = [f[0] for f in pw[o[1]].f]
                    ask("val %s %s" % (o[1], fl(o[2])), "num", pw[o[1]].value(o[2]), 1e-9, o)
                    labels.add("piecewise" if len(x0) > 1 else "function")
                elif o[1] in fn:
                    ask("val %s %s" % (o[1], fl(o[2])), "num", fn[o[1]](o[2]), 1e-9, o)
                    labels.add("function")
            elif k == "prod":
                d = o[2] or [0.0, LIMIT]
                prod[o[1]] = ({}, d)
                ask("prod %s%s" % (o[1], "" if o[2] is None else " %s %s" % (fl(d[0]), fl(d[1]))), "ok")
            elif k == "padd":
                com, d = prod[o[1]]
                if o[2] not in com:
                    com[o[2]] = list(o[3] or d)
                ask("padd %s %s%s" % (o[1], o[2], "" if o[3] is None else " %s %s" % (fl(o[3][0]), fl(o[3][1]))), "ok")
            elif k == "prm":
                prod[o[1]][0].pop(o[2], None)
                ask("prm %s %s" % (o[1], o[2]), "ok")
            elif k in ("pcap", "pcost"):
                if o[2] not in prod[o[1]][0]:
                    continue
                prod[o[1]][0][o[2]][0 if k == "pcap" else 1] = o[3]
                ask("%s %s %s %s" % (k, o[1], o[2], fl(o[3])), "ok")
            elif k == "pcopy":
                if o[1] == o[2]:
                    continue
                for x, v in prod[o[2]][0].items():
                    prod[o[1]][0][x] = list(v)
                ask("pcopy %s %s" % (o[1], o[2]), "ok")
            elif k == "pshow":
                ask("pshow %s" % o[1], "prod", {x: list(v) for x, v in prod[o[1]][0].items()}, o[1])
            elif k == "produces":
                ask("produces %s %s" % (o[1], o[2]), "bool", o[2] in prod[o[1]][0], o)
            elif k in ("mreg", "breg"):
                (cpm if k == "mreg" else bld).setdefault(o[1], set()).add(o[2])
                ask("%s %s %s" % (k, o[1], o[2]), "ok")
            elif k in ("munreg", "bunreg"):
                (cpm if k == "munreg" else bld).setdefault(o[1], set()).discard(o[2])
                ask("%s %s %s" % (k, o[1], o[2]), "ok")
            elif k == "total":
                w = sum(prod[p][0][o[2]][0] for p in cpm.get(o[1], ()) if o[2] in prod[p][0])
                ask("total %s %s" % (o[1], o[2]), "num", w, 1e-12, o)
                labels.add("total")
            elif k in ("sreg", "sunreg"):
                (sd.add if k == "sreg" else sd.discard)(o[1])
                ask("%s %s" % (k, o[1]), "ok")
            elif k == "scom":
                if o[1] in fn:
                    dem.setdefault(o[2], fn[o[1]])
                    ask("scom %s %s" % (o[1], o[2]), "ok")
            elif k == "manages":
                ask("manages - %s" % o[2], "bool", o[2] in dem, o)
            elif k == "demand":
                if o[2] in dem:
                    try:
                        w = dem[o[2]](o[1])
                    except OverflowError:
                        continue
                    ask("demand %d %s" % (o[1], o[2]), "num", w, 1e-9, o)
                    labels.add("demand")
            elif k == "supply":
                w = sum(prod[p][0][o[2]][0] for m in sd for p in cpm.get(m, ()) if o[2] in prod[p][0])
                ask("supply - %s" % o[2], "num", w, 1e-12, o)
                labels.add("supply")
            elif k in ("bmreg", "bmunreg"):
                (bmr.add if k == "bmreg" else bmr.discard)(o[1])
                ask("%s %s" % (k, o[1]), "ok")
            elif k == "decide":
                can = {}
                for b in bmr:
                    for p in bld.get(b, ()):
                        if o[2] in prod[p][0]:
                            can.setdefault(p, set()).add(b)
                it = {p: prod[p][0][o[2]] for p in can}
                if o[1] > 0 and not any(v[0] > 0 for v in it.values()):
                    continue
                ask("decide %s %s" % (fl(o[1]), o[2]), "orders", o[1], {p: list(v) for p, v in it.items()}, can)
        out = rig.run("h_plan", "\n".join(L))
        if len(out) != len(L):
            raise Violation("%d answers to %d requests" % (len(out), len(L)))
        for l, w, a in zip(L, M, out):
            t = a.split()
            hist = "\n" + "\n".join(L[:L.index(l) + 1])[-1200:]
            if w[0] == "ok":
                if t != ["OK"]:
                    raise Violation("%s fails: %s%s" % (l, a, hist))
            elif w[0] == "err":
                if t[0] != "ERR":
                    raise Violation("%s should be refused, gives %s%s" % (l, a, hist))
            elif w[0] == "num":
                if t[0] != "D" or not close(unfl(t[1]), w[1], w[2]) and abs(unfl(t[1]) - w[1]) > 1e-9 * (1 + abs(w[1])):
                    raise Violation("%s gives %s, expected %r%s" % (w[3], unfl(t[1]) if t[0] == "D" else a, w[1], hist))
            elif w[0] == "bool":
                if t != ["B", str(int(w[1]))]:
                    raise Violation("%s gives %s%s" % (w[2], a, hist))
            elif w[0] == "prod":
                got = {t[i]: [unfl(t[i + 2]), unfl(t[i + 3])] for i in range(1, len(t), 4)}
                if got != w[1] or any(t[i + 1] != "1" for i in range(1, len(t), 4)):
                    raise Violation("producer %s is %s, expected %s%s" % (w[2], a, w[1], hist))
            else:
                if t[0] != "O":
                    raise Violation("%s fails: %s%s" % (l, a, hist))
                dm, it, can = w[1:]
                got = [(int(t[i]), t[i + 1], t[i + 2]) for i in range(1, len(t), 3)]
                if dm <= 0:
                    if got:
                        raise Violation("a demand of %s orders %s" % (dm, got))
                    continue
                for n, b, p in got:
                    if n < 1 or p not in it or b not in can[p]:
                        raise Violation("the order %s of %s at %s is impossible: producers %s, builders %s%s" % (n, p, b, it, can, hist))
                cov = sum(n * it[p][0] for n, b, p in got)
                cost = sum(n * it[p][1] for n, b, p in got)
                if cov < dm * (1 - 1e-6):
                    raise Violation("orders %s of producers (capacity, cost) %s cover %r of the demand %r%s" % (got, it, cov, dm, hist))
                best = least(list(it.values()), dm)
                if best is not None and cost > best * (1 + 1e-5) + 1e-9:
                    raise Violation("orders %s of producers (capacity, cost) %s cost %r for demand %r, %r would do%s" % (got, it, cost, dm, best, hist))
                labels.add("orders:%d" % min(2, len(it)))
        return Info(len(c["ops"]) >= 8 and bool(labels & {"piecewise", "supply", "total", "orders:2"}), sorted(labels))


PROP = C19()
