"""C15: random numbers are reproducible and keep to their distributions.

A case is a history of draws and of distribution objects between reseedings.  The raw, [0,1) and
uniform draws are compared with a model of the generator (MT19937), the whole history is repeated
in another process and after other draws, and samples of every distribution are compared with its
stated law (range, and Kolmogorov-Smirnov distance at a level that no sample reaches by chance)."""
import math

from pbt import Prop, Info, Violation, fl, unfl


class MT:
    def __init__(self, seed):
        m = [seed & 0xffffffff]
        for i in range(1, 624):
            m.append((1812433253 * (m[-1] ^ (m[-1] >> 30)) + i) & 0xffffffff)
        self.m, self.i = m, 624

    def raw(self):
        if self.i == 624:
            m = self.m
            for k in range(624):
                y = (m[k] & 0x80000000) | (m[(k + 1) % 624] & 0x7fffffff)
                m[k] = m[(k + 397) % 624] ^ (y >> 1) ^ (0x9908b0df if y & 1 else 0)
            self.i = 0
        y = self.m[self.i]
        self.i += 1
        y ^= y >> 11
        y ^= (y << 7) & 0x9d2c5680
        y ^= (y << 15) & 0xefc60000
        return y ^ (y >> 18)

    def u01(self):
        return self.raw() / 4294967296.0

    def ur(self, lo, hi):
        if lo == hi:
            return lo
        while True:
            r = self.raw() / 4294967296.0 * (hi - lo) + lo
            if r < hi:
                return r

    def ui(self, lo, hi):
        rg = hi - lo
        if rg == 0:
            return lo
        b = 0xffffffff
        if rg == b:
            return lo + self.raw()
        size = b // (rg + 1)
        if b % (rg + 1) == rg:
            size += 1
        while True:
            r = self.raw() // size
            if r <= rg:
                return lo + r


def ncdf(x, m, s):
    return 0.5 * math.erfc(-(x - m) / (s * math.sqrt(2)))


def law(kind, p):
    """-> (lo, hi, cdf or None for fixed values, discrete?) or None when the parameters are invalid"""
    import scipy.stats as st
    if kind in ("FixedD", "FixedI"):
        return p[0], p[0], None, True
    if kind == "UniformD":
        if p[0] > p[1]:
            return None
        if p[0] == p[1]:
            return p[0], p[0], None, True
        return p[0], p[1], (lambda x: min(1.0, max(0.0, (x - p[0]) / (p[1] - p[0])))), False
    if kind == "UniformI":
        if p[0] > p[1]:
            return None
        n = p[1] - p[0] + 1
        return p[0], p[1], (lambda x: min(1.0, max(0.0, (math.floor(x) - p[0] + 1) / n))), True
    if kind in ("NormalD", "NormalI"):
        m, s = p[0], p[1]
        lo, hi = (p[2], p[3]) if len(p) > 2 else (0, 1)
        if lo >= hi:
            return None
        a, b = ncdf(lo, m, s), ncdf(hi, m, s)
        if kind == "NormalD":
            return lo, hi, (lambda x: (ncdf(min(max(x, lo), hi), m, s) - a) / (b - a)), False
        return lo, hi, (lambda x: (ncdf(min(max(math.floor(x) + 0.5, lo), hi), m, s) - a) / (b - a)), True
    if kind in ("PoissonD", "PoissonI"):
        if p[0] < 0:
            return None
        if p[0] == 0:
            return 0, 0, None, True
        d = st.poisson(p[0])
        return 0, math.inf, d.cdf, True
    if kind in ("ExponentialD", "ExponentialI"):
        if p[0] <= 0:
            return None
        if kind == "ExponentialD":
            return 0, math.inf, (lambda x: 1 - math.exp(-p[0] * x) if x > 0 else 0.0), False
        return 0, math.inf, (lambda x: 1 - math.exp(-p[0] * (math.floor(x) + 1)) if x >= 0 else 0.0), True
    if kind in ("BinaryD", "BinaryI"):
        q, a, b = p
        if q < 0 or q > 1:
            return None
        if a == b or q == 1:
            return a, a, None, True
        if q == 0:
            return b, b, None, True
        lo, hi, pl = (a, b, q) if a < b else (b, a, 1 - q)
        return lo, hi, (lambda x: 0.0 if x < lo else pl if x < hi else 1.0), True
    if kind == "BinomialI":
        n, q = p
        if n < 1 or q < 0 or q > 1:
            return None
        if q in (0, 1):
            return n * q, n * q, None, True
        return 0, n, st.binom(n, q).cdf, True
    if kind == "NegBinomialI":
        k, q = p
        if k < 1 or q < 0 or q > 1:
            return None
        # failures before the k-th success, which the repository's tests rely on (the header says trials)
        if q == 1:
            return 0, 0, None, True
        d = st.nbinom(k, q)
        return 0, math.inf, d.cdf, True
    raise AssertionError(kind)


def ks(xs, cdf, discrete):
    """largest distance of the empirical distribution"""
    xs = sorted(xs)
    n = len(xs)
    d = 0.0
    i = 0
    while i < n:
        j = i
        while j < n and xs[j] == xs[i]:
            j += 1
        f = cdf(xs[i])
        g = cdf(xs[i] - 1) if discrete and xs[i] == math.floor(xs[i]) else None
        d = max(d, abs(j / n - f))
        if not discrete:
            d = max(d, abs(i / n - f))
        elif g is not None:
            d = max(d, abs(i / n - g))
        i = j
    return d


def g_dist(s):
    k = s.pick(["FixedD", "UniformD", "NormalD", "NormalD", "PoissonD", "ExponentialD", "BinaryD", "FixedI", "UniformI", "NormalI", "NormalI",
                "BinomialI", "NegBinomialI", "PoissonI", "ExponentialI", "BinaryI"])
    bad = s.bool(0.12)
    num = lambda: s.pick([0.0, 1.0, -1.0, 2.5, 10.0, 1e-3, -7.25, 1e6])
    inum = lambda: s.weighted([(3, s.int(-5, 12)), (1, s.pick([0, 1, -100, 1000, 2147483647, -2147483648]))])
    prob = lambda: s.pick([0.0, 1.0, 0.5, 0.1, 0.9, 0.25, 0.6])
    if k == "FixedD":
        p = [num()]
    elif k == "FixedI":
        p = [inum()]
    elif k == "UniformD":
        a, b = num(), num()
        p = [max(a, b), min(a, b)] if bad else [min(a, b), max(a, b)]
    elif k == "UniformI":
        a, b = inum(), inum()
        p = [max(a, b), min(a, b)] if bad else [min(a, b), max(a, b)]
    elif k in ("NormalD", "NormalI"):
        m, sd = s.pick([0.0, 0.5, 5.0, -3.0, 2.75]), s.pick([0.5, 1.0, 3.0, 10.0])
        if s.bool(0.1) and abs(m - 0.5) < 2 * sd:
            p = [m, sd]
        else:
            w = s.pick([1, 2, 5])
            lo = s.pick([m - sd, m, m - 2 * sd, m - 10 * sd])
            hi = s.pick([lo + w, lo + w * sd, lo + 20 * sd])
            if k == "NormalI":
                lo = math.floor(lo)
                hi = lo + max(1, math.floor(hi - lo))
            if bad:
                lo, hi = s.pick([(hi, lo), (lo, lo)])
            p = [m, sd, lo, hi]
            if not bad and ncdf(hi, m, sd) - ncdf(lo, m, sd) < 0.02:
                p = [m, sd, m - 3 * sd if k == "NormalD" else math.floor(m - 3 * sd), math.ceil(m + 3 * sd)]
    elif k in ("PoissonD", "PoissonI"):
        p = [-1.5 if bad else s.pick([0.0, 0.1, 1.0, 3.5, 9.9, 10.0, 40.0])]
    elif k in ("ExponentialD", "ExponentialI"):
        p = [s.pick([-1.0, 0.0]) if bad else s.pick([0.05, 0.3, 1.0, 4.0])]
    elif k == "BinaryD":
        p = [s.pick([-0.5, 1.5]) if bad else prob(), num(), num()]
    elif k == "BinaryI":
        p = [s.pick([-0.5, 1.5]) if bad else prob(), inum(), inum()]
    elif k == "BinomialI":
        p = s.pick([[0, 0.5], [3, 1.5], [3, -0.5], [-2, 0.5]]) if bad else [s.pick([1, 2, 10, 30, 100]), prob()]
    else:
        p = s.pick([[0, 0.5], [3, 1.5], [3, -0.5]]) if bad else [s.pick([1, 2, 5, 12]), s.pick([1.0, 0.5, 0.1, 0.9, 0.25, 0.6])]
    return [k, p]


N = 1500


class C15(Prop):
    id = "C15"
    harnesses = ("h_rng",)
    quick = 2400
    thorough = 12000
    rule = "at least 3 draws of the model's kinds and one distribution sampled"
    assumptions = ("truncated normal distributions keep at least 2% of their mass, failure probabilities of the negative binomial are not 1",)

    def gen(self, s):
        c = {"seed": s.weighted([(3, s.int(0, 100)), (2, s.int(0, 2147483647)), (1, s.pick([20160212, 4294967295, 1 << 40]))]), "ops": []}
        nd = 0
        for _ in range(s.weighted([(3, s.int(2, 14)), (1, s.int(5, 40))])):
            k = s.weighted([(3, "raw"), (3, "u01"), (3, "ui"), (3, "ur"), (1, "nr"), (1, "ni"), (2, "new"), (3, "samp"), (1, "skip"), (0.4, "seed")])
            if k in ("raw", "u01"):
                c["ops"].append([k])
            elif k == "skip":
                c["ops"].append(["skip", s.weighted([(3, s.int(1, 10)), (1, s.int(600, 700))])])
            elif k == "ui":
                a, b = [s.weighted([(3, s.int(-10, 10)), (2, s.int(-2147483648, 2147483647)), (1, s.pick([-2147483648, 2147483647]))]) for _ in "ab"]
                if a > b and not s.bool(0.05):
                    a, b = b, a
                if s.bool(0.1):
                    b = a
                c["ops"].append(["ui", a, b])
            elif k == "ur":
                a, b = [s.weighted([(3, float(s.int(-10, 10))), (2, s.real(-1e6, 1e6)), (1, s.pick([1e-300, -1e300, 1e300, 0.0]))]) for _ in "ab"]
                if a > b and not s.bool(0.05):
                    a, b = b, a
                if s.bool(0.1):
                    b = a
                c["ops"].append(["ur", fl(a), fl(b)])
            elif k in ("nr", "ni"):
                while True:
                    d = g_dist(s)
                    if d[0] == ("NormalD" if k == "nr" else "NormalI"):
                        break
                    if s.bool(0.2):
                        d = ["x", [5.0, 2.0, 0, 10]]
                        break
                p = d[1]
                if len(p) == 2:
                    p = [abs(p[0]), p[1]]
                c["ops"].append([k, s.int(1, 4), p])
            elif k == "new":
                c["ops"].append(["new", nd, g_dist(s)])
                nd += 1
            elif k == "samp" and nd:
                c["ops"].append(["samp", s.int(0, nd - 1), s.int(1, 4)])
            elif k == "seed":
                c["ops"].append(["seed", s.pick([c["seed"], s.int(0, 100)])])
        c["law"] = g_dist(s)
        c["lawctx"] = s.bool(0.3)
        c["before"] = s.int(0, 700)
        return c

    def lines(self, c, extra=False):
        L = ["seed %d" % c["seed"]]
        for o in c["ops"]:
            if o[0] in ("raw", "u01"):
                L.append(o[0])
            elif o[0] == "skip":
                L += ["raw"] * o[1]
            elif o[0] in ("ui", "ur"):
                L.append("%s %s %s" % tuple(o))
            elif o[0] in ("nr", "ni"):
                L.append("%s %d %s" % (o[0], o[1], " ".join(fl(float(x)) if o[0] == "nr" or i < 2 else str(int(x)) for i, x in enumerate(o[2]))))
            elif o[0] == "new":
                L.append("new d%d %s %s" % (o[1], o[2][0], " ".join(fl(float(x)) for x in o[2][1])))
            elif o[0] == "samp":
                L.append("samp d%d %d" % (o[1], o[2]))
            elif o[0] == "seed":
                L.append("seed %d" % o[1])
            if extra:
                L.append("new zz%d UniformD 0x0p+0 0x1p+0" % len(L))
                L.append("max zz%d" % (len(L) - 1))
        return L

    def check(self, c, rig):
        L = self.lines(c)
        out = rig.run("h_rng", "\n".join(L))
        if len(out) != len(L):
            raise Violation("%d answers to %d requests" % (len(out), len(L)))
        # model
        g = MT(c["seed"])          # None once the model has lost track of the stream
        if c["seed"] >= 1 << 32:
            g = None
        dists = {}
        labels = set()
        drawn = sampled = 0
        k = 0

        def exact(what, want, got):
            if want != got:
                raise Violation("after seed %d, draw %s gives %s, the generator's sequence gives %s\n%s" % (c["seed"], what, got, want, "\n".join(L[:k + 1])[-1500:]))
        for o in [["seed0"]] + c["ops"]:
            if o[0] == "seed0" or o[0] == "seed":
                sd = c["seed"] if o[0] == "seed0" else o[1]
                if out[k].split() != ["SEED", str(sd)]:
                    raise Violation("the seed is %s, should be %d" % (out[k], sd))
                g = MT(sd) if sd < 1 << 32 else None
                k += 1
                continue
            n = o[1] if o[0] == "skip" else 1
            for _ in range(n):
                t = out[k].split()
                if o[0] in ("raw", "skip"):
                    v = int(t[1])
                    if not 0 <= v < 1 << 32:
                        raise Violation("raw draw %s out of range" % v)
                    if g:
                        exact("raw", g.raw(), v)
                    drawn += 1
                elif o[0] == "u01":
                    v = unfl(t[1])
                    if not 0 <= v < 1:
                        raise Violation("random_01 gives %s" % v)
                    if g:
                        exact("random_01", g.u01(), v)
                    drawn += 1
                elif o[0] == "ui":
                    if o[1] > o[2]:
                        self.refused(t, "random_uniform_int(%d, %d)" % (o[1], o[2]))
                        labels.add("refused")
                    else:
                        if t[0] != "I" or not o[1] <= int(t[1]) <= o[2]:
                            raise Violation("random_uniform_int(%d, %d) gives %s" % (o[1], o[2], t))
                        if g:
                            exact("uniform int %d %d" % (o[1], o[2]), g.ui(o[1], o[2]), int(t[1]))
                        drawn += 1
                elif o[0] == "ur":
                    lo, hi = unfl(o[1]), unfl(o[2])
                    if lo > hi:
                        self.refused(t, "random_uniform_real(%r, %r)" % (lo, hi))
                        labels.add("refused")
                    else:
                        v = unfl(t[1])
                        if not (lo <= v < hi or lo == v == hi):
                            raise Violation("random_uniform_real(%r, %r) gives %r" % (lo, hi, v))
                        if g:
                            if hi - lo < 1e300:
                                exact("uniform real %r %r" % (lo, hi), g.ur(lo, hi), v)
                            else:
                                g = None
                        drawn += 1
                elif o[0] in ("nr", "ni"):
                    p = o[2]
                    lo, hi = (p[2], p[3]) if len(p) > 2 else (0, math.inf)
                    if lo >= hi:
                        self.refused(t, "normal draw %s" % p)
                        labels.add("refused")
                    else:
                        for x in t[1:]:
                            v = unfl(x) if o[0] == "nr" else int(x)
                            if not lo <= v <= hi:
                                raise Violation("%s %s gives %s" % (o[0], p, v))
                        g = None
                elif o[0] == "new":
                    w = law(*o[2])
                    if w is None:
                        self.refused(t, "%s %s" % tuple(o[2]))
                        labels.add("refused")
                    else:
                        if t != ["NEW", "ok"]:
                            raise Violation("%s%s is refused: %s" % (o[2][0], o[2][1], t))
                        dists[o[1]] = (o[2], w)
                        labels.add(o[2][0])
                elif o[0] == "samp":
                    if o[1] not in dists:
                        if t != ["NODIST"]:
                            raise Violation("no distribution to sample, got %s" % t)
                    else:
                        (kd, p), w = dists[o[1]]
                        for x in t[1:]:
                            v = unfl(x) if t[0] == "DS" else int(x)
                            if not w[0] <= v <= w[1]:
                                raise Violation("%s%s gives %s" % (kd, p, v))
                            if g and kd == "UniformD":
                                exact("%s%s" % (kd, p), g.ur(p[0], p[1]), v)
                            elif g and kd == "UniformI":
                                exact("%s%s" % (kd, p), g.ui(p[0], p[1]), v)
                            elif g and w[0] == w[1] and kd in ("FixedD", "FixedI"):
                                pass
                            else:
                                g = None
                        sampled += 1
                k += 1
        # the same again: other draws before, and distributions made in between, change nothing
        other = ["seed %d" % (c["seed"] ^ 5)] + ["raw"] * c["before"] + ["nr 3 0x0p+0 0x1p+0 -0x1p+3 0x1p+3"]
        M = self.lines(c, True)
        out2 = rig.run("h_rng", "\n".join(other + M))[len(other):]
        out2 = [out2[0]] + [o for i, o in enumerate(out2[1:]) if not (M[i + 1].startswith("new zz") or M[i + 1].startswith("max zz"))]
        if out2 != out:
            j = [i for i in range(min(len(out), len(out2))) if out[i] != out2[i]]
            raise Violation("the draws after seed %d depend on something else: request %d (%s) gave %s, then %s" % (
                c["seed"], j[0] if j else -1, L[j[0]] if j else "", out[j[0]] if j else len(out), out2[j[0]] if j else len(out2)))
        # a law
        kd, p = c["law"]
        w = law(kd, p)
        if w is not None:
            ctxlaw = c["lawctx"] and kd in ("NormalD", "NormalI", "UniformD", "UniformI") and len(p) != 3
            if ctxlaw:
                nm = {"NormalD": "nr", "NormalI": "ni"}.get(kd)
                if nm:
                    q = list(p)
                    if len(q) == 2:
                        q += [0, 1]
                    ask = ["%s %d %s" % (nm, N, " ".join(fl(float(x)) if nm == "nr" or i < 2 else str(int(x)) for i, x in enumerate(q)))]
                else:
                    ask = ["%s %s %s" % ("ur" if kd == "UniformD" else "ui", *(fl(float(x)) if kd == "UniformD" else str(x) for x in p))] * N
            else:
                ask = ["new d %s %s" % (kd, " ".join(fl(float(x)) for x in p)), "samp d %d" % N]
            o = rig.run("h_rng", "\n".join(["seed %d" % c["seed"]] + ask))
            t = [y for l in o[1:] for y in l.split()[1:]] if ctxlaw else o[-1].split()[1:]
            xs = [unfl(x) if "0x" in x or "." in x or "inf" in x or "nan" in x else int(x) for x in t]
            if len(xs) != N:
                raise Violation("sampling %s%s fails: %s" % (kd, p, o[-1][:300]))
            bad = [x for x in xs if not w[0] <= x <= w[1]]
            if bad:
                raise Violation("%s%s gives %s, outside [%s, %s]" % (kd, p, bad[:3], w[0], w[1]))
            if w[2] is not None:
                if kd == "BinaryD":      # two values: count them
                    d = abs(sum(1 for x in xs if x == w[0]) / N - w[2](w[0]))
                    bad = [x for x in xs if x not in (w[0], w[1])]
                    if bad:
                        raise Violation("%s%s gives %s" % (kd, p, bad[:3]))
                else:
                    d = ks(xs, w[2], w[3])
                if d * math.sqrt(N) > 3.6:
                    raise Violation("%d draws of %s%s do not follow it: distance %.3f from its distribution function, mean %.4g" % (
                        N, kd, p, d, sum(xs) / N))
            elif any(x != w[0] for x in xs):
                raise Violation("%s%s gives %s, only %s is possible" % (kd, p, sorted(set(xs))[:3], w[0]))
            labels.add("law:" + kd)
        return Info(drawn >= 3 and (sampled > 0 or w is not None), sorted(labels))

    def refused(self, t, what):
        if t[0] != "ERR" or t[1] != "ValueError":
            raise Violation("%s should be refused with a ValueError, got %s" % (what, " ".join(t)[:200]))


PROP = C15()
