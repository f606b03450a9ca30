"""C17: nuclide maps and compositions."""
from fractions import Fraction

from pbt import Prop, Info, Violation, fl, unfl

NUCS = {10010000: 1.00782503, 10030000: 3.01604928, 20040000: 4.00260325, 60120000: 12.0, 80160000: 15.99491462, 260560000: 55.9349363,
        380900000: 89.907738, 551370000: 136.9070895, 922330000: 233.0396352, 922350000: 235.0439299, 922380000: 238.0507882,
        932370000: 237.0481734, 942380000: 238.0495599, 942390000: 239.0521634, 942400000: 240.0538135, 942410000: 241.0568515,
        952410000: 241.0568291, 952420001: 242.05955, 471100001: 109.906107, 962440000: 244.0627526, 501191: None}
GOOD = [n for n in NUCS if n > 1000000]
BAD = [0, -1, 7, 2000000000]


def g_qty(s):
    return s.weighted([(4, s.pick([1.0, 2.0, 0.5, 0.25, 3.0, 0.1, 0.7])), (2, s.real(0, 100)), (1, 0.0), (1, s.pick([1e-12, 1e12, 1e-100, 1e-5]))])


def enc(m):
    return " ".join("%d %s" % (n, fl(v)) for n, v in m)


def pmap(t):
    if t[0] != "MAP":
        raise Violation("expected a nuclide map, got %s" % t)
    return {int(t[i]): unfl(t[i + 1]) for i in range(2, len(t), 2)}


def close(a, b, tol):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b))


class C17(Prop):
    id = "C17"
    harnesses = ("h_chem",)
    quick = 12000
    thorough = 150000
    rule = "at least 4 operations on maps of 2 or more nuclides"
    assumptions = ("atomic masses come from the table compiled into the code; sums of amounts stay finite",)

    def gen(self, s):
        c = {"maps": [], "ops": []}
        for _ in range(s.int(1, 4)):
            ns = s.subset(GOOD) if s.bool(0.5) else [s.pick(GOOD[:8]) for _ in range(s.int(0, 5))]
            ns = list(dict.fromkeys(ns))[:12]
            m = [[n, g_qty(s)] for n in ns]
            if m and s.bool(0.15):
                m[0][1] = -m[0][1]
            if s.bool(0.08):
                m.append([s.pick(BAD), 1.0])
            if c["maps"] and s.bool(0.3):      # like another one
                m = [list(x) for x in s.pick(c["maps"])]
                if m:
                    i = s.int(0, len(m) - 1)
                    m[i][1] *= s.pick([1.0, 1 + 1e-9, 1.001, 1.1, 2.0, 0.0])
                    if s.bool(0.3):
                        m = s.shuffle(m)
            c["maps"].append(m)
        n = len(c["maps"])
        nc = 0
        for _ in range(s.int(1, 14)):
            k = s.weighted([(3, "add"), (3, "sub"), (2, "sum"), (2, "thr"), (3, "norm"), (1, "valid"), (1, "pos"), (3, "eq"), (1, "kahan"), (4, "comp"), (4, "look")])
            if k in ("add", "sub"):
                c["ops"].append([k, s.int(0, n), s.int(0, n - 1), s.int(0, n - 1)])
                n = max(n, c["ops"][-1][1] + 1)
            elif k in ("sum", "valid", "pos"):
                c["ops"].append([k, s.int(0, n - 1)])
            elif k == "thr":
                c["ops"].append([k, s.int(0, n - 1), s.weighted([(4, s.pick([0.0, 1e-6, 0.3, 0.6, 1.5, 50.0])), (1, -1.0)])])
            elif k == "norm":
                c["ops"].append([k, s.int(0, n - 1), s.pick([None, 1.0, 100.0, 0.5, 3.0, 1e-5])])
            elif k == "eq":
                c["ops"].append([k, s.int(0, n - 1), s.int(0, n - 1), s.weighted([(5, s.pick([0.0, 1e-6, 0.01, 0.4])), (1, -0.5)])])
            elif k == "kahan":
                c["ops"].append([k, [s.pick([1, -1]) * g_qty(s) for _ in range(s.int(0, 8))]])
            elif k == "comp":
                c["ops"].append([k, nc, s.int(0, n - 1), s.pick(["atom", "mass"])])
                nc += 1
            elif k == "look" and nc:
                c["ops"].append(["look", s.int(0, nc - 1), s.pick(["atom", "mass", "cid"])])
        return c

    def check(self, c, rig):
        L = ["map m%d %s" % (i, enc(m)) for i, m in enumerate(c["maps"])]
        used = sorted({n for m in c["maps"] for n, _ in m if n in GOOD})
        L += ["am %d" % n for n in used]
        k0 = len(L)
        for o in c["ops"]:
            if o[0] in ("add", "sub"):
                L.append("%s m%d m%d m%d" % tuple(o))
            elif o[0] in ("sum", "valid", "pos"):
                L.append("%s m%d" % tuple(o))
            elif o[0] == "thr":
                L.append("thr m%d %s" % (o[1], fl(o[2])))
            elif o[0] == "norm":
                L.append("norm m%d%s" % (o[1], "" if o[2] is None else " " + fl(o[2])))
            elif o[0] == "eq":
                L.append("eq m%d m%d %s" % (o[1], o[2], fl(o[3])))
            elif o[0] == "kahan":
                L.append("kahan %s" % " ".join(fl(x) for x in o[1]))
            elif o[0] == "comp":
                L.append("comp c%d m%d %s" % tuple(o[1:]))
            else:
                L.append("%s c%d" % (o[2], o[1]))
        nm = max([len(c["maps"])] + [o[1] + 1 for o in c["ops"] if o[0] in ("add", "sub")])
        L += ["show m%d" % i for i in range(nm)]
        comps = {}
        model = {i: dict((n, v) for n, v in m) for i, m in enumerate(c["maps"])}
        out = rig.run("h_chem", "\n".join(L))
        ops = c["ops"]
        if len(out) != len(L):
            raise Violation("%d answers to %d requests" % (len(out), len(L)))
        am = {}
        for i, n in enumerate(used):
            v = unfl(out[len(c["maps"]) + i].split()[1])
            am[n] = v
            if abs(v - NUCS[n]) > 2e-4:
                raise Violation("the atomic mass of %d is %r, should be %r" % (n, v, NUCS[n]))
        ids = set()
        big = 0
        labels = set()

        def bad(o, got, want):
            raise Violation("%s gives %s, expected %s\nmaps %s" % (o, got, want, {k: model[k] for k in model}))

        def same(o, got, want, tol=0.0):
            if sorted(got) != sorted(want) or any(not close(got[n], want[n], tol) for n in want):
                bad(o, got, want)
        for o, l in zip(ops, out[k0:]):
            t = l.split()
            labels.add(o[0])
            if o[0] in ("add", "sub"):
                a, b = model.get(o[2], {}), model.get(o[3], {})
                big += len(a) + len(b) > 3
                w = dict(a)
                for n, v in b.items():
                    w[n] = w.get(n, 0.0) + (v if o[0] == "add" else -v)
                got = pmap(t)
                same(o, got, w)
                model[o[1]] = w
            elif o[0] == "sum":
                m = model.get(o[1], {})
                big += len(m) > 1
                w = sum(Fraction(v) for v in m.values())
                e = sum(abs(Fraction(v)) for v in m.values())
                if abs(Fraction(unfl(t[1])) - w) > Fraction(1, 10**14) * e:
                    bad(o, unfl(t[1]), float(w))
            elif o[0] == "kahan":
                w = sum(Fraction(v) for v in o[1])
                e = sum(abs(Fraction(v)) for v in o[1])
                if abs(Fraction(unfl(t[1])) - w) > Fraction(1, 10**14) * e:
                    bad(o, unfl(t[1]), float(w))
            elif o[0] == "thr":
                m = model.get(o[1], {})
                if o[2] < 0:
                    if t != ["ERR", "ValueError"]:
                        bad(o, t, "a ValueError")
                    continue
                got = pmap(t)
                w = {n: v for n, v in m.items() if abs(v) > o[2] or abs(v) == o[2] and n in got}
                same(o, got, w)
                model[o[1]] = w
            elif o[0] == "norm":
                m = model.get(o[1], {})
                big += len(m) > 1
                val = 1.0 if o[2] is None else o[2]
                sm = sum(Fraction(v) for v in m.values())
                ab = sum(abs(Fraction(v)) for v in m.values())
                got = pmap(t)
                if sm == 0 or abs(sm) < ab * Fraction(1, 10**12):
                    if sm == 0 and all(v >= 0 for v in m.values()):
                        same(o, got, m)
                    model[o[1]] = got
                    continue
                w = {n: float(Fraction(v) * Fraction(val) / sm) for n, v in m.items()}
                same(o, got, w, 1e-13 * float(ab / abs(sm)) + 1e-13)
                model[o[1]] = got
            elif o[0] == "valid":
                if t != ["B", str(int(all(n in GOOD for n in model.get(o[1], {}))))]:
                    bad(o, t, "validity")
            elif o[0] == "pos":
                if t != ["B", str(int(all(v >= 0 for v in model.get(o[1], {}).values())))]:
                    bad(o, t, "sign")
            elif o[0] == "eq":
                if o[3] < 0:
                    if t != ["ERR", "ValueError"]:
                        bad(o, t, "a ValueError")
                    continue
                a, b = model.get(o[1], {}), model.get(o[2], {})
                w, edge = sorted(a) == sorted(b), False
                if w:
                    for n in a:
                        d, x = abs(a[n] - b[n]), min(abs(a[n]), abs(b[n])) * o[3]
                        if d and abs(d - x) <= 1e-9 * max(d, x):
                            edge = True
                        elif d > x:
                            w = False
                big += len(a) > 1
                labels.add("eq:%d" % w)
                if t != ["B", str(int(w))] and not (edge and w):
                    bad(o, t, w)
            elif o[0] == "comp":
                m = model.get(o[2], {})
                if any(n not in GOOD for n in m) or any(v < 0 for v in m.values()):
                    labels.add("refused")
                    if t != ["ERR", "ValueError"]:
                        bad(o, t, "a ValueError")
                    continue
                if t[0] != "ID" or int(t[1]) in ids:
                    bad(o, t, "a new id, not of %s" % sorted(ids))
                ids.add(int(t[1]))
                for n in m:
                    if n not in am:
                        raise Violation("nuclide %s appears in a map" % n)
                if o[3] == "mass":
                    comps[o[1]] = (m, {n: v / am[n] for n, v in m.items()}, int(t[1]))
                else:
                    comps[o[1]] = ({n: v * am[n] for n, v in m.items()}, m, int(t[1]))
            elif o[1] not in comps:
                if t != ["NOCOMP"]:
                    bad(o, t, "no composition")
            else:
                k = comps[o[1]]
                if o[2] == "cid":
                    if int(t[1]) != k[2]:
                        bad(o, t, "id %d" % k[2])
                else:
                    big += len(k[0]) > 1
                    same(o, pmap(t), k[0] if o[2] == "mass" else k[1], 1e-13)
        for i in range(nm):
            got = pmap(out[len(L) - nm + i].split())
            same(["show", i], got, model.get(i, {}))
        return Info(len(ops) >= 4 and big >= 2, sorted(labels))


PROP = C17()
