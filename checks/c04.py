"""C04: package fills and transport units."""
import math
from pbt import Prop, Info, Violation, hx, unhx, fl, unfl

EPS = 1e-6
DMAX = 1.7976931348623157e308
IMAX = 2147483647


def gen_limits(s):
    k = s.weighted([(4, "nice"), (3, "rand"), (2, "nomin"), (1, "nomax"), (1, "eqlim"), (0.3, "bad"), (0.3, "default")])
    if k == "nice":
        lo = s.pick([1.0, 2.0, 3.0, 0.5, 0.1, 10.0])
        return lo, lo * s.pick([1.5, 2.0, 1.25, 1.1, 4.0 / 3, 5.0])
    if k == "rand":
        lo = s.real(0.01, 20)
        return lo, lo + s.real(0, 20)
    if k == "nomin":
        return 0.0, s.pick([1.0, 2.5, 4.0, s.real(0.1, 20)])
    if k == "nomax":
        return s.pick([0.0, 1.0, 3.0]), DMAX
    if k == "eqlim":
        x = s.pick([1.0, 0.1, 0.3, 2.5])
        return x, x
    if k == "default":
        return 0.0, DMAX
    return s.pick([(-1.0, 2.0), (3.0, 2.0), (1.0, -1.0)])


def gen_qty(s, lo, hi):
    k = s.weighted([(4, "mult"), (3, "rand"), (2, "multlo"), (1, "zero"), (1, "tiny")])
    top = hi if hi < 1e6 else 50.0
    if k == "mult":
        q = top * s.int(0, 12)
    elif k == "multlo":
        q = (lo if lo > 0 else top) * s.int(0, 12)
    elif k == "rand":
        q = s.real(0, 12) * top
    elif k == "zero":
        q = 0.0
    else:
        q = s.pick([1e-7, 1e-6, 5e-7, 2e-6])
    d = s.weighted([(6, 0.0), (1, 5e-7), (1, -5e-7), (1, 2e-6), (1, -2e-6), (1, 1e-9), (1, -1e-9), (1, 0.3), (1, -0.3)])
    return max(0.0, q + d)


class C04(Prop):
    id = "C04"
    harnesses = ("h_pkg",)
    quick = 12000
    thorough = 400000
    rule = ("a package type (limits: round, random, none, equal, invalid; four strategies, unknown ones) with 1-8 "
            "quantities at and around multiples of the limits, packaged as numbers and as material and product, "
            "repackaged between two types; a transport-unit type with 1-12 package counts; non-trivial: a split into "
            "two or more packages or a positive number of shippable units")
    assumptions = ("the number of packages is bounded (at most a few hundred) to keep cases small",
                   "for the equal strategy, quantities within 1e-9 (relative) of a multiple of a limit may be split either way")

    def gen(self, s):
        ops = [["seed", s.int(1, 10**6)]]
        lo, hi = gen_limits(s)
        st = s.weighted([(3, "first"), (4, "equal"), (2, "uniform"), (2, "normal"), (0.2, "last")])
        if hi == DMAX and st in ("uniform", "normal"):
            hi = max(1.0, lo) * 4
        ops.append(["pkg", "p0", lo, hi, st])
        lo2, hi2 = gen_limits(s)
        ops.append(["pkg", s.weighted([(8, "p1"), (0.5, "p0"), (0.3, "unpackaged")]), lo2, hi2, "first"])
        for _ in range(s.int(1, 6)):
            q = gen_qty(s, max(lo, 0), max(hi, 0.1))
            k = s.weighted([(5, "fill"), (2, "res"), (2, "chg")])
            if k == "fill":
                ops.append(["fill", "p0", q])
            elif k == "res":
                ops.append(["res", s.pick(["M", "P"]), q, "p0"])
            else:
                if s.bool(0.5):
                    q = gen_qty(s, max(lo2, 0), max(hi2, 0.1))
                ops.append(["chg", s.pick(["M", "P"]), q] + [s.weighted([(4, "p0"), (4, "p1"), (1, "unpackaged"), (0.5, "nope")])
                                                         for _ in range(s.int(1, 3))])
        if st in ("uniform", "normal") and 0 <= lo < hi and s.bool(0.15):
            ops.append(["fill", "p0", (lo + hi) / 2 * 400])
        a = s.pick([0, 1, 2, 3, 4, 5, 8, 12])
        b = s.weighted([(6, "r"), (1, IMAX), (0.3, "bad"), (0.3, 0)])
        if b == "r":
            b = a + s.int(0, 8)
        elif b == "bad":
            b = a - 1
        elif b == 0:
            a = 0
        ts = s.weighted([(3, "first"), (3, "equal"), (5, "hybrid"), (0.2, "last")])
        ops.append(["tu", "t0", a, b, ts])
        for _ in range(s.int(1, 10)):
            ops.append(["ship", s.weighted([(9, "t0"), (0.5, "unrestricted")]), s.int(0, 60) if s.bool(0.95) else s.int(60, 100000)])
        return {"ops": ops}

    def lines(self, case):
        out = []
        for op in case["ops"]:
            n = op[0]
            if n == "seed":
                out.append("seed %d" % op[1])
            elif n == "pkg":
                out.append("pkg %s %s %s %s" % (hx(op[1]), fl(op[2]), fl(op[3]), hx(op[4])))
            elif n == "tu":
                out.append("tu %s %d %d %s" % (hx(op[1]), op[2], op[3], hx(op[4])))
            elif n == "fill":
                out.append("fill %s %s" % (hx(op[1]), fl(op[2])))
            elif n == "res":
                out.append("res %s %s %s" % (op[1], fl(op[2]), hx(op[3])))
            elif n == "chg":
                out.append("chg %s %s %s" % (op[1], fl(op[2]), " ".join(hx(x) for x in op[3:])))
            elif n == "ship":
                out.append("ship %s %d" % (hx(op[1]), op[2]))
        return out

    def check(self, case, rig):
        obs = rig.run("h_pkg", self.lines(case))
        steps = {}
        for ln in obs:
            t = ln.split()
            if t[0] == "OP":
                cur = steps.setdefault(int(t[1]), [])
            else:
                cur.append(t)
        pk = {"unpackaged": (0.0, DMAX, "first")}
        tu = {"unrestricted": (0, IMAX, "first")}
        nt = False
        labels = set()
        for i, op in enumerate(case["ops"]):
            if i not in steps:
                continue
            st = steps[i]
            ok = st[-1][0] == "OK"
            where = "op %d %r: " % (i, op)
            n = op[0]
            labels.add(n if ok else "err:" + n)
            if n == "pkg":
                valid = 0 <= op[2] <= op[3] and op[4] in ("first", "equal", "uniform", "normal") and \
                    op[1] not in pk
                if ok != valid and not (op[1] == "unpackaged"):
                    raise Violation(where + ("accepted" if ok else "refused"))
                if ok and op[1] not in pk:
                    pk[op[1]] = (op[2], op[3], op[4])
                    t = st[0]
                    if (unhx(t[1]).decode(), unfl(t[2]), unfl(t[3]), unhx(t[4]).decode()) != tuple(op[1:]):
                        raise Violation(where + "defined as %r" % t)
            elif n == "tu":
                valid = 0 <= op[2] <= op[3] and op[4] in ("first", "equal", "hybrid")
                if ok != valid:
                    raise Violation(where + ("accepted" if ok else "refused"))
                if ok:
                    tu[op[1]] = tuple(op[2:5])
                    t = st[0]
                    if (unhx(t[1]).decode(), int(t[2]), int(t[3]), unhx(t[4]).decode()) != tuple(op[1:]):
                        raise Violation(where + "defined as %r" % t)
            elif n == "fill":
                if op[1] not in pk:
                    continue
                if not ok:
                    if pk[op[1]][1] > 0:
                        raise Violation(where + "raised %r" % st[-1])
                    continue
                f = [unfl(x) for x in st[0][1:]]
                self.fills(pk[op[1]], op[2], f, where)
                nt = nt or len(f) > 1
                if len(f) > 1:
                    labels.add("split:" + pk[op[1]][2])
            elif n == "res":
                if op[3] not in pk:
                    continue
                if not ok:
                    if pk[op[3]][1] > 0:
                        raise Violation(where + "raised %r" % st[-1])
                    continue
                rest = unfl(st[0][1])
                f = [unfl(t[1]) for t in st[1:-1]]
                for t in st[1:-1]:
                    if unhx(t[2]).decode() != op[3]:
                        raise Violation(where + "item in package %r" % unhx(t[2]).decode())
                self.fills(pk[op[3]], op[2], f, where)
                if abs(rest + math.fsum(f) - op[2]) > 1e-9 * max(1, op[2]):
                    raise Violation(where + "%r packaged, %r left of %r" % (math.fsum(f), rest, op[2]))
                nt = nt or len(f) > 1
            elif n == "chg":
                cur = "unpackaged"
                for nm, t in zip(op[3:], st[:-1]):
                    got = unhx(t[2]).decode()
                    if unfl(t[3]) != op[2]:
                        raise Violation(where + "quantity changed to %r" % unfl(t[3]))
                    if nm in pk and pk[nm][0] <= op[2] <= pk[nm][1]:
                        if t[1] != "ok" or got != nm:
                            raise Violation(where + "%s: %r, package is %r" % (nm, t[1], got))
                        cur = nm
                    elif nm == cur and nm in pk:
                        cur = got      # giving a package it already has: may be accepted or refused
                    else:
                        if t[1] == "ok" or got != cur:
                            raise Violation(where + "outside the limits of %s or unknown, but %r and package %r (was %r)" %
                                            (nm, t[1], got, cur))
            elif n == "ship":
                if op[1] not in tu:
                    continue
                if not ok:
                    raise Violation(where + "raised %r" % st[-1])
                k, unit = int(st[0][1]), int(st[0][2])
                self.ship(op[1], tu[op[1]], op[2], k, unit, where)
                if k > 0:
                    nt = True
                    labels.add("ship:" + tu[op[1]][2])
        return Info(nt, sorted(labels))

    def fills(self, p, qty, f, where):
        lo, hi, st = p
        tol = 1e-9 * max(1.0, qty)
        tot = math.fsum(f)
        where += "fills %r: " % (f[:6],)
        if tot > qty + tol:
            raise Violation(where + "sum %r exceeds the quantity" % tot)
        for x in f:
            if not (x > 0) and lo > 0:
                raise Violation(where + "empty package")
            if x > hi + tol or x < lo - EPS - tol:
                raise Violation(where + "%r is outside the limits" % x)
        left = qty - tot
        if left >= max(EPS, lo) + tol and not (lo > 0 and abs(left - lo) <= tol):
            raise Violation(where + "left %r unpackaged" % left)
        if st == "first":
            if any(abs(x - hi) > tol for x in f[:-1]):
                raise Violation(where + "a package before the last is not full")
        elif st == "equal" and qty > EPS and hi > 0:
            a = qty / lo if lo > 0 else math.inf
            b = qty / hi
            nb = max(1, math.ceil(b))
            amb = (math.isfinite(a) and abs(a - round(a)) < 1e-6) or abs(b - round(b)) < 1e-6
            if not amb and math.floor(min(a, 1e18)) >= nb:
                if len(f) != nb or any(abs(x - qty / nb) > tol for x in f):
                    raise Violation(where + "%d equal packages of %r hold everything" % (nb, qty / nb))
            elif not amb:
                if any(abs(x - hi) > tol for x in f[:-1]):
                    raise Violation(where + "a package before the last is not full")
        elif st in ("uniform", "normal"):
            rem = qty
            draws = []
            for i, x in enumerate(f):
                if rem < hi - tol:
                    if i != len(f) - 1 or abs(x - rem) > tol:
                        raise Violation(where + "less than a full package was split again")
                elif rem > hi + tol:
                    if not (lo - tol <= x <= hi + tol):
                        raise Violation(where + "%r is outside the limits" % x)
                    draws.append(x)
                rem -= x
            if hi - lo > 1e-3 and len(draws) >= 3 and len(set(draws)) == 1:
                raise Violation(where + "%d draws are all equal" % len(draws))
            if len(draws) >= 300:
                m = math.fsum(draws) / len(draws)
                sd = math.sqrt(math.fsum((x - m) ** 2 for x in draws) / len(draws))
                u = (sd / (hi - lo), (m - lo) / (hi - lo))
                if not 0.4 < u[1] < 0.6:
                    raise Violation(where + "mean of %d draws at %r of the range" % (len(draws), u[1]))
                if st == "uniform" and not 0.23 < u[0] < 0.35 or st == "normal" and not 0.11 < u[0] < 0.23:
                    raise Violation(where + "spread of %d %s draws is %r of the range" % (len(draws), st, u[0]))

    def ship(self, name, t, n, k, unit, where):
        lo, hi, st = t
        if k < 0 or k > n:
            raise Violation(where + "%d shippable of %d" % (k, n))
        if name == "unrestricted":
            if k != n:
                raise Violation(where + "%d shippable of %d without restriction" % (k, n))
            return

        def rep(x):
            return x == 0 or (hi > 0 and (lo == 0 or -(-x // hi) <= x // lo))
        if not rep(k):
            raise Violation(where + "%d packages do not divide into units of %d to %d" % (k, lo, hi))
        if unit and not lo <= unit <= hi:
            raise Violation(where + "unit of %d" % unit)
        if st == "hybrid":
            best = n
            while not rep(best):
                best -= 1
            if k != best:
                raise Violation(where + "%d shippable, %d would divide into units" % (k, best))
        elif st == "first" and hi > 0 and n >= lo:
            if k != n // hi * hi:
                raise Violation(where + "%d shippable in full units of %d" % (k, hi))
        elif st == "equal" and hi > 0 and n >= lo and n - k >= hi:
            raise Violation(where + "%d shippable, a whole unit left" % k)


PROP = C04()
