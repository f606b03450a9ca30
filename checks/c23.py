"""C23: matrix arithmetic and the matrix exponential."""
from fractions import Fraction as Q

from pbt import Prop, Info, Violation, fl, unfl

NAMES = ["A", "B", "C", "D"]


def g_el(s):
    return s.weighted([(2, 0.0), (5, s.int(-40, 40) / 8.0), (1, float(s.int(-1000, 1000))), (0.5, s.real(-3, 3))])


def g_decay(s):
    """a chain: every column loses what other rows gain, or more"""
    n = s.int(1, 7)
    a = [[0.0] * n for _ in range(n)]
    for j in range(n):
        lam = s.weighted([(2, 0.0), (4, s.int(1, 64) / 64.0), (2, s.real(1e-6, 20.0)), (0.5, s.pick([1e-12, 1e-9, 50.0]))])
        a[j][j] = -lam
        left = 1.0
        for i in s.shuffle(list(range(n))):
            if i != j and s.bool(0.4):
                b = left if s.bool(0.5) else left * s.int(1, 7) / 8.0
                a[i][j] = lam * b
                left -= b
                if left <= 0:
                    break
    return a


class C23(Prop):
    id = "C23"
    harnesses = ("h_math",)
    quick = 10000
    thorough = 200000
    rule = ("3-18 operations on up to 4 matrices of 1-6 rows and columns (sums, differences, products, scalings, powers, added rows, also with "
            "themselves and of dimensions that do not fit) and exponentials of decay matrices of up to 7 nuclides; non-trivial: a product "
            "of matrices with more than one element, or an exponential that changes a vector of 2 or more")
    assumptions = ("powers are at least one", "the matrix of an exponential has no negative element outside its diagonal and no column with a "
                   "positive sum (decay), amounts are not negative")

    def gen(self, s):
        ops = []
        dim = [s.int(1, 4), s.int(1, 6)]
        names = NAMES[:s.int(2, 4)]

        def mat(n):
            r, c = (s.pick(dim), s.pick(dim)) if s.bool(0.85) else (s.int(1, 6), s.int(1, 6))
            ops.append(["mat", n, r, c, [fl(g_el(s)) for _ in range(r * c)]])
        for n in names:
            mat(n)
        for _ in range(s.int(1, 14)):
            k = s.weighted([(1, "mat"), (0.3, "one"), (0.5, "id"), (1, "row"), (4, "bin"), (4, "upd"), (1.5, "scal"), (1, "pow"), (3, "exp")])
            n = s.pick(names)
            if k == "mat":
                mat(n)
            elif k == "one":
                ops.append([k, n])
            elif k == "id":
                ops.append([k, n, s.pick(dim)])
            elif k == "row":
                ops.append([k, n, [fl(g_el(s)) for _ in range(s.pick(dim))]])
            elif k == "bin":
                ops.append([k, n, s.pick(["+", "-", "*", "*"]), s.pick(names), s.pick(names)])
            elif k == "upd":
                ops.append([k, n, s.pick(["+", "-", "*", "*", "="]), s.pick(names)])
            elif k == "scal":
                ops.append([k, n, s.pick(names), fl(g_el(s)), s.pick(["l", "r"])])
            elif k == "pow":
                ops.append([k, n, s.pick(names), s.int(1, 4)])
            else:
                a = g_decay(s)
                x = [s.weighted([(1, 0.0), (4, s.int(1, 80) / 8.0), (1, s.pick([1e-9, 1e6, 1e24]))]) for _ in a]
                if s.bool(0.06):
                    x = x + [1.0] if s.bool() else x[:-1] or [1.0, 2.0]
                t = s.weighted([(1, 0.0), (4, s.int(1, 64) / 8.0), (2, s.real(0.01, 60.0)), (0.2, 1e6)])
                ops.append([k, [[fl(v) for v in r] for r in a], [fl(v) for v in x], fl(t)])
        return {"ops": ops}

    def check(self, c, rig):
        L, want = [], []
        M = {}                        # name -> (values, magnitudes)
        labels = set()

        def ask(line, *w):
            L.append(line)
            want.append(w)

        def dims(a):
            return len(a[0]), len(a[0][0])

        def add(a, b, f):
            if dims(a) != dims(b):
                return a
            return ([[u + f * v for u, v in zip(p, q)] for p, q in zip(a[0], b[0])],
                    [[u + v for u, v in zip(p, q)] for p, q in zip(a[1], b[1])])

        def mul(a, b):
            if dims(a)[1] != dims(b)[0]:
                return a
            if dims(a)[1] > 1:
                labels.add("product" if dims(a)[0] == dims(a)[1] else "product of a rectangle")

            def p(x, y):
                return [[sum(x[i][k] * y[k][j] for k in range(len(y))) for j in range(len(y[0]))] for i in range(len(x))]
            return p(a[0], b[0]), p(a[1], b[1])
        for o in c["ops"]:
            k, n = o[0], o[1]
            if k == "exp":
                a, x = o[1], o[2]
                ask("mat _A %d %d %s" % (len(a), len(a), " ".join(v for r in a for v in r)), None)
                ask("mat _X %d 1 %s" % (len(x), " ".join(x)), None)
                ask("exp _R _A _X %s" % o[3], "exp", [[unfl(v) for v in r] for r in a], [unfl(v) for v in x], unfl(o[3]))
                continue
            if k == "mat":
                v = [Q(unfl(x)) for x in o[4]]
                v = [v[i * o[3]:(i + 1) * o[3]] for i in range(o[2])]
                M[n] = (v, [[abs(x) for x in r] for r in v])
                ask("mat %s %d %d %s" % (n, o[2], o[3], " ".join(o[4])), n, M[n])
                continue
            if k == "one":
                M[n] = ([[Q(0)]], [[Q(0)]])
                line = "one " + n
            elif k == "id":
                M[n] = tuple([[Q(int(i == j)) for j in range(o[2])] for i in range(o[2])] for _ in range(2))
                line = "id %s %d" % (n, o[2])
            elif k == "row":
                v = [Q(unfl(x)) for x in o[2]]
                if len(v) == dims(M[n])[1]:
                    M[n] = (M[n][0] + [v], M[n][1] + [[abs(x) for x in v]])
                line = "row %s %s" % (n, " ".join(o[2]))
            elif k in ("bin", "upd"):
                a, b = (M[o[3]], M[o[4]]) if k == "bin" else (M[n], M[o[3]])
                M[n] = {"+": lambda: add(a, b, 1), "-": lambda: add(a, b, -1), "*": lambda: mul(a, b), "=": lambda: b}[o[2]]()
                line = " ".join([k, n] + o[2:])
            elif k == "scal":
                f = Q(unfl(o[3]))
                a = M[o[2]]
                M[n] = ([[f * x for x in r] for r in a[0]], [[abs(f) * x for x in r] for r in a[1]])
                line = " ".join(o)
            else:
                a = r = M[o[2]]
                if dims(a)[0] == dims(a)[1]:
                    for _ in range(o[3] - 1):
                        r = mul(r, a)
                M[n] = r
                line = "pow %s %s %d" % (n, o[2], o[3])
            ask(line, n, M[n])
            if max(max(r) for r in M[n][1]) > Q(10) ** 200:
                M[n] = ([[Q(1)]], [[Q(1)]])
                ask("mat %s 1 1 %s" % (n, fl(1.0)), n, M[n])
        out = rig.run("h_math", "\n".join(L))
        if len(out) != len(L):
            raise Violation("%d answers to %d requests" % (len(out), len(L)))
        for l, w, a in zip(L, want, out):
            t = a.split()
            if w[0] is None:
                continue
            if w[0] == "exp":
                self.check_exp(w[1:], t, labels)
                continue
            hist = "\n" + "\n".join(L[:L.index(l) + 1])[-900:]
            v, g = w[1]
            if t[0] != "M" or [int(t[1]), int(t[2])] != [len(v), len(v[0])]:
                raise Violation("%s gives %s, expected %d x %d%s" % (l, a[:80], len(v), len(v[0]), hist))
            got = [unfl(x) for x in t[3:]]
            for x, e, mag in zip(got, (e for r in v for e in r), (e for r in g for e in r)):
                if abs(Q(x) - e) > mag * Q(1, 10 ** 12):
                    raise Violation("%s gives %s, expected %s%s" % (l, got, [[float(e) for e in r] for r in v], hist))
        return Info(bool(labels), sorted(labels))

    def check_exp(self, w, t, labels):
        a, x, tm = w
        n = len(a)
        what = "exp(%r * %r) %r" % (a, tm, x)
        if len(x) != n:
            if t[0] != "ERR":
                raise Violation("%s is not refused" % what)
            return
        at = max(-a[i][i] for i in range(n)) * tm
        if t[0] == "ERR":
            if at < 700:
                raise Violation("%s fails: %s" % (what, t))
            labels.add("out of range")
            return
        if t[:3] != ["M", str(n), "1"]:
            raise Violation("%s gives %s" % (what, t[:3]))
        if at > 700:
            # only a promise where doubles reach
            return
        import numpy as np
        from scipy.linalg import expm
        e = expm(np.array(a) * tm) @ np.array(x)
        got = [unfl(v) for v in t[3:]]
        tot = sum(x)
        tol = 1e-9 * tot
        if any(g > r + tol or g < -tol for g, r in zip(got, e)) or sum(e) - sum(got) > 1e-3 * tot + tol:
            raise Violation("%s gives %s, exact is %s" % (what, got, list(e)))
        if n > 1 and tot and at > 1e-6:
            labels.add("exponential")


PROP = C23()
