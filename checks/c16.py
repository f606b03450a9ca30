"""C16: buying and selling policies in generated markets, step by step against a model of their limits."""
import math

import c04
from pbt import Prop, Info, Violation, hx, fl, unfl
from pbt import unhx as _unhx

def unhx(x):
    return _unhx(x).decode("utf-8", "replace")


COM = ["fuel", "ore", "waste"]
EPS = 1e-6
BIG = 1.7976931348623157e308
US = [0.0, 0.05, 0.25, 0.5, 1.0]


def tol(*x):
    return 1e-9 * max([1.0] + [abs(v) for v in x if abs(v) < 1e200])


def lohi(d, default):
    if d == "-":
        return default, default
    v = [float(x) for x in d[2:].split(":")]
    return v[0], v[-1]


def fits(q, p):
    """q makes exactly one package"""
    return p[0] <= q <= p[1]


class Buy:
    def __init__(self, c, o):
        self.buf, self.trk, self.mode, a = o[4], o[5], o[6], o[7:]
        cap = c["cap"][o[4]]
        self.thr, self.q, self.fill, self.at, self.cum, self.total = BIG, -1, BIG, BIG, -1, 0.0
        self.act, self.dor, self.size = "-", "-", "-"
        self.on = True
        m = self.mode
        if m in ("thr", "dist", "quant", "inv", "cum"):
            self.thr = a[0]
        if m == "dist":
            self.act, self.dor, self.size = a[1:4]
        elif m == "quant":
            self.q = a[1]
        elif m in ("inv", "inv0"):
            k, f, r = a[-3:]
            self.at = min(r, cap)
            if k.lower() == "ss":
                self.fill = min(f, cap)
            else:
                self.q = f
                self.fill = min(r + f, cap)
        elif m == "cum":
            self.cum = min(a[1], cap)
            self.dor = a[2]

    def first(self, t, rows, where):
        self.alo, self.ahi = lohi(self.act, 1)
        self.dlo, self.dhi = lohi(self.dor, -1)
        rows = list(rows)
        self.start = t
        self.aend = t + self.row(rows, t, "CumulativeCap" if self.cum > 0 else "Active", self.alo, self.ahi, where)
        self.dstart, self.dend = None, -1
        if self.dlo >= 0 and self.cum <= 0:
            self.sleep(rows, max(self.aend, 1), where)
        if rows:
            raise Violation(where + "further periods recorded: %r" % (rows,))

    def sleep(self, rows, t, where):
        self.dstart = t
        self.dend = t + self.row(rows, t, "Dormant", self.dlo, self.dhi, where)

    def row(self, rows, t, typ, lo, hi, where):
        if not rows:
            raise Violation(where + "no %s period recorded from %d" % (typ, t))
        r = rows.pop(0)
        if r[0] != t or r[1] != typ or not lo <= r[2] <= hi:
            raise Violation(where + "recorded the period %r instead of %s from %d lasting %g to %g" % (r, typ, t, lo, hi))
        return r[2]


class C16(Prop):
    id = "C16"
    harnesses = ("h_pol",)
    quick = 4000
    thorough = 60000
    rule = "material was both requested and received or shipped by a policy in at least 2 steps"
    assumptions = ("quantized buying has a finite limit; one buying policy per buffer, periods of at least one active step; an inventory total shared by several buying policies is not divided among them",)

    def gen(self, s):
        c = {"dur": s.int(3, 14), "seed": s.int(1, 9999), "excl": s.bool(), "cap": {}, "bulk": {}, "trk": {}, "pkg": {}, "tu": {}, "ops": [], "req": [], "off": []}
        grid = lambda lo, hi: s.weighted([(4, float(s.int(max(1, int(lo)), int(hi)))), (2, s.int(1, int(hi) * 4) / 4.0), (1, round(s.real(0.05, hi), 3)), (0.6, s.int(1, int(hi) * 10) / 10.0),
                                   (0.5, s.int(max(1, int(lo)), int(hi)) + s.pick([-1, 1]) * s.pick([2e-4, 1e-5])), (0.1, s.int(1, 99) / 1e5)])
        coarse = lambda lo, hi: max(0.25, grid(lo, hi))
        for i in range(s.int(0, 2)):
            lo = s.pick([0.0, 0.5, 1.0, 2.0])
            c["pkg"]["k%d" % i] = [lo, lo + s.pick([0.0, 1.0, 2.5, 4.0]) if lo > 0 else s.pick([1.0, 3.0, 7.5]), s.pick(["first", "equal", "first", "equal", "uniform", "normal"])]
        for i in range(s.int(0, 2)):
            lo = s.int(0, 3)
            c["tu"]["u%d" % i] = [lo, max(1, lo) + s.int(0, 3), s.pick(["first", "equal", "hybrid"])]
        na = s.int(1, 2)
        c["agents"] = na
        nb = 0
        buys, sells = [], []
        for a in range(na):
            mine = []
            for _ in range(s.int(1, 2)):
                b = "b%d" % nb
                nb += 1
                mine.append(b)
                c["cap"][b] = s.weighted([(4, grid(1, 40)), (1, BIG)])
                c["bulk"][b] = s.bool(0.25)
                c.setdefault("own", {})[b] = a
            ks = ["-"]
            for _ in range(s.int(0, 2)):
                k = "t%d" % len(c["trk"])
                c["trk"][k] = [a, s.weighted([(3, grid(1, 50)), (1, BIG)]), s.subset(mine) or mine[:1]]
                ks.append(k)
            for b in mine:
                good = [k for k in ks if k == "-" or b in c["trk"][k][2]]
                bad = [k for k in ks if k not in good]
                if s.bool(0.75):
                    p = "p%d" % len(buys)
                    buys.append((a, p, b, good))
                    if bad and s.bool(0.06):
                        good = bad
                    self.g_buy(s, c, -1, a, p, b, good, grid)
                    for k in s.subset(COM) or [COM[0]]:
                        self.g_set(s, c, -1, a, p, k)
                if s.bool(0.7):
                    p = "s%d" % len(sells)
                    sells.append((a, p, b))
                    th = s.weighted([(3, grid(1, 30)), (1, BIG), (0.2, 0.0)])
                    m = s.weighted([(1, ["plain"]), (2, ["thr", th]), (1, ["ign", s.bool()]), (1, ["thrign", th, s.bool()]), (3, ["quant", th, s.bool(), coarse(1, 6)]),
                                    (5, ["full", th, s.bool(0.3), s.weighted([(2, 0.0), (1, coarse(1, 6))]), s.pick(list(c["pkg"]) + ["unpackaged"]), s.pick(list(c["tu"]) + ["unrestricted"])])])
                    c["ops"].append([-1, a, "sell", p, b] + m)
                    for k in s.subset(COM) or [COM[0]]:
                        c["ops"].append([-1, a, "sset", p, k])
                if s.bool(0.6):
                    c["ops"].append([-1, a, "add", b, grid(1, 30), s.pick(US)])
        for _ in range(s.int(0, 10)):
            t = s.int(0, c["dur"] - 1)
            k = s.weighted([(6, "add"), (4, "take"), (1, "bset"), (1, "bunset"), (1, "bstop"), (1.5, "bstart"), (0.7, "sstop"), (0.7, "sstart"), (1.2, "buy")])
            if k in ("add", "take"):
                b = "b%d" % s.int(0, nb - 1)
                c["ops"].append([t, c["own"][b], k, b, grid(1, 20)] + ([s.pick(US)] if k == "add" else []))
            elif k[0] == "b" and buys:
                a, p, b, good = s.pick(buys)
                if k == "bset":
                    self.g_set(s, c, t, a, p, s.pick(COM))
                elif k == "bunset":
                    c["ops"].append([t, a, k, p, s.pick(COM)])
                elif k == "buy":
                    self.g_buy(s, c, t, a, p, b, good, grid)
                else:
                    c["ops"].append([t, a, k, p])
            elif k[0] == "s" and sells:
                a, p, b = s.pick(sells)
                c["ops"].append([t, a, k, p])
        c["ops"].sort(key=lambda o: o[0])
        for t in range(c["dur"]):
            for _ in range(s.weighted([(1, 0), (3, 1), (2, 2), (1, 4)]) if sells else 0):
                c["req"].append([t, s.pick(COM), grid(1, 20), s.pick(US), s.bool(0.25)])
            for _ in range(s.weighted([(1, 0), (3, 1), (2, 2)]) if buys else 0):
                c["off"].append([t, s.pick(COM), s.weighted([(3, grid(1, 30)), (1, 1000.0)]), s.pick(US), s.bool(0.2)])
        return c

    def g_set(self, s, c, t, a, p, k):
        u = s.weighted([(1, None), (3, s.pick(US))])
        c["ops"].append([t, a, "bset", p, k, u, None if u is None else s.weighted([(1, None), (2, s.pick([0.5, 1.0, 2.0, 10.0]))])])

    def g_buy(self, s, c, t, a, p, b, ks, grid):
        th = s.weighted([(3, grid(1, 30)), (1, BIG), (0.2, 0.0)])
        idist = lambda lo: s.weighted([(3, "f:%d" % s.int(lo, 4)), (2, "u:%d:%d" % (lo, lo + s.int(0, 3))), (0.7, "-")])
        m = s.weighted([(1, ["plain"]), (1, ["thr", th]), (2, ["quant", min(th, 40.0), max(0.25, grid(1, 6))]),
                        (4, ["dist", th, idist(1), s.weighted([(4, idist(0)), (1, "f:-1")]), s.pick(["-", "-", "f:0.5", "u:0.2:0.9", "f:1", "f:0.25"])]),
                        (3, ["inv", th, s.pick(["sS", "SS", "ss", "RQ", "rq", "QR"]), grid(1, 12), s.weighted([(3, grid(1, 10)), (1, 0.0)])]),
                        (2, ["inv0", s.pick(["sS", "RQ", "qr"]), grid(1, 12), s.weighted([(3, grid(1, 10)), (1, 0.0)])]),
                        (3, ["cum", th, grid(1, 40), s.weighted([(3, "f:%d" % s.int(0, 4)), (1, "u:1:3")])]),
                        (0.1, ["inv0", "Ss1", 1.0, 1.0]), (0.1, ["dist", th, "-", "-", "f:1.5"])])
        c["ops"].append([t, a, "buy", p, b, s.pick(ks)] + m)

    def lines(self, c):
        L = ["dur %d %d" % (c["dur"], c["seed"]), "excl %d" % c["excl"]]
        L += ["pkg %s %s %s %s" % (n, fl(p[0]), fl(p[1]), p[2]) for n, p in c["pkg"].items()]
        L += ["tu %s %d %d %s" % (n, *p) for n, p in c["tu"].items()]
        L += ["agent %d" % i for i in range(c["agents"])]
        L += ["buf %d %s %s %d" % (c["own"][b], b, fl(v), c["bulk"][b]) for b, v in c["cap"].items()]
        L += ["tracker %d %s %s %s" % (v[0], k, fl(v[1]), " ".join(v[2])) for k, v in c["trk"].items()]
        for o in c["ops"]:
            x = o[3:]
            if o[2] in ("bset", "bunset", "sset"):
                x = [x[0], hx(x[1])] + x[2:]
            L.append("op %d %d %s " % (o[0], o[1], o[2]) + " ".join("-" if v is None else str(int(v)) if isinstance(v, bool) else fl(v) if isinstance(v, float) else str(v) for v in x))
        L += ["%s %d %s %s %s %d" % (k, r[0], hx(r[1]), fl(r[2]), fl(r[3]), r[4]) for k in ("req", "off") for r in c[k]]
        return L

    def check(self, c, rig):
        out = rig.run("h_pol", "\n".join(self.lines(c)))
        ops = [o for o in c["ops"] if o[0] < 0] + [o for t in range(c["dur"]) for a in range(c["agents"]) for o in c["ops"] if o[0] == t and o[1] == a]
        # agents may tick in any order: the operations of a step are matched agent by agent below
        buys, sells, det, sel = {}, {}, {}, {}
        labels, steps = set(), set()
        now = 0
        i, n = 0, 0
        ev = [ln.split() for ln in out]
        opq = list(ops)
        asked = {}
        done = False

        def rows_from(j):
            r = []
            while j < len(ev) and ev[j][0] == "ROW":
                d = {}
                f = []
                for tk in ev[j][2:] + ["|"]:
                    if tk == "|":
                        if f:
                            d[f[0]] = f
                        f = []
                    else:
                        f.append(tk)
                r.append((int(d["Time"][2]), unhx(d["Type"][2]), int(d["Length"][2])))
                j += 1
            return r, j
        while i < len(ev):
            e = ev[i]
            where = "step %s: " % now
            if e[0] == "BEG":
                rows, i = rows_from(i + 1)
                e = ev[i] if i < len(ev) else ["gone"]
                i += 1
                if e[0] == "OP":
                    self.op(c, opq.pop(0), now, e[2], rows, buys, det, sells, sel, labels)
                elif e[0] == "ACC":
                    self.acc(c, e, rows, buys, asked, steps, labels)
                else:
                    raise Violation(where + "ended within an operation %r: %s" % (opq[:1], e))
            elif e[0] == "STEP":
                now = int(e[1])
                i += 1
            elif e[0] == "REQ":
                rows, i = rows_from(i + 1)
                rp = []
                while i < len(ev) and ev[i][0] == "RP":
                    rp.append(ev[i][1:])
                    i += 1
                self.req(c, e, rows, rp, buys, det, asked, labels)
            elif e[0] == "ASK":
                j = i + 1
                while j < len(ev) and ev[j][0] in ("SEEN", "BP", "BID"):
                    j += 1
                self.bids(c, ev[i:j], sells, sel, labels)
                i = j
            elif e[0] == "SHIP":
                j = i + 1
                while j < len(ev) and ev[j][0] in ("TRADE", "SENT", "LEFT"):
                    j += 1
                self.ship(c, ev[i:j], sells, steps, labels)
                i = j
            elif e[0] == "BUF":
                if unfl(e[4]) > c["cap"][e[3]] + 1e-5 * (1 + n):
                    raise Violation(where + "buffer %s holds %r, its capacity is %r" % (e[3], unfl(e[4]), c["cap"][e[3]]))
                i += 1
            elif e[0] == "RC":
                b = buys.get(e[2])
                if b and b.on and asked.get(e[2], (None,))[0] == now:
                    k = e.index("=")
                    want = b.got if getattr(b, "gott", None) == now else []
                    if [unhx(x) if x != "?" else None for x in e[3:k]] != want or int(e[k + 1]) != len(want):
                        raise Violation(where + "policy %s remembers the commodities %r of what it received as %r" % (e[2], want, e[3:]))
                i += 1
            elif e[0] == "DONE":
                done = True
                i += 1
            elif e[0] == "ERR":
                raise Violation(where + "%s: %s" % (e[1], unhx(e[2])))
            elif e[0] == "RUN":
                i += 1
            else:
                raise Violation(where + "unexpected %r" % (e,))
        if not done:
            raise Violation("the run did not end")
        return Info(len(steps) >= 2, sorted(labels))

    def op(self, c, o, now, r, rows, buys, det, sells, sel, labels):
        k, where = o[2], "step %d, %r: " % (now, o)
        if o[0] >= 0 and o[0] != now:
            raise Violation(where + "not the operation of this step")
        want = "ok"
        if k == "buy":
            bad = o[5] != "-" and o[4] not in c["trk"][o[5]][2] or o[6:8] == ["inv0", "Ss1"] or o[6] == "dist" and lohi(o[10], 1)[1] > 1
            if bad:
                want = "ValueError"
            else:
                b = Buy(c, o)
                if r == "ok":
                    b.first(now, rows, where)
                buys[o[3]] = b
                labels.add("buy:" + b.mode)
                if now > 0:
                    labels.add("changed behaviour")
            if bad and r == want:
                # a refused configuration leaves nothing to rely on
                buys[o[3]] = None
        elif k == "bset":
            det.setdefault(o[3], {})[o[4]] = (o[5], 1.0 if o[6] is None else o[6])
        elif k == "bunset":
            det.setdefault(o[3], {}).pop(o[4], None)
        elif k in ("bstop", "bstart"):
            if buys.get(o[3]):
                buys[o[3]].on = k == "bstart"
        elif k == "sell":
            m, a = o[5], o[6:]
            d = {"buf": o[4], "thr": BIG, "ign": False, "q": 0.0, "pkg": "unpackaged", "tu": "unrestricted", "on": True}
            if m in ("thr", "thrign", "quant", "full"):
                d["thr"] = a[0]
            if m == "ign":
                d["ign"] = a[0]
            if m in ("thrign", "quant", "full"):
                d["ign"] = a[1]
            if m in ("quant", "full"):
                d["q"] = a[2]
            if m == "full":
                d["pkg"], d["tu"] = a[3], a[4]
            if d["q"] > 0 and d["pkg"] != "unpackaged":
                p = c["pkg"][d["pkg"]]
                if p[2] in ("uniform", "normal") or not fits(d["q"], p):
                    want = "ValueError"
            if d["q"] > 0 and d["tu"] != "unrestricted" and want == "ok":
                u = c["tu"][d["tu"]]
                if not (u[1] == 1 if u[2] == "first" else u[0] <= 1):
                    want = "ValueError"
            sells[o[3]] = d if want == "ok" else None
            labels.add("sell:" + m if want == "ok" else "refused seller")
        elif k == "sset":
            sel.setdefault(o[3], set()).add(o[4])
        elif k in ("sstop", "sstart"):
            if sells.get(o[3]):
                sells[o[3]]["on"] = k == "sstart"
        if r != want:
            raise Violation(where + "%s instead of %s" % (r, want))

    def req(self, c, e, rows, rp, buys, det, asked, labels):
        t, p = int(e[1]), e[2]
        b = buys.get(p)
        if b is None:
            return
        where = "step %d, buying policy %s (%s): " % (t, p, b.mode)
        if not b.on:
            raise Violation(where + "asked while stopped")
        q, sp, tq, ts = [unfl(x) for x in e[3:7]]
        where += "holding %g of %g: " % (q, c["cap"][b.buf])
        # what the harness read agrees with the configuration
        dormant = b.dstart is not None and b.dstart <= t < b.dend
        avail = min(b.thr, b.fill - q, sp, ts)
        slo, shi = lohi(b.size, 1.0)
        lo, hi = avail * slo, avail * shi
        if b.cum > 0:
            room = b.cum - b.total
            lo, hi = min(lo, room), min(hi, room)
        amb = abs(tq - b.at) < tol(tq) and tq != b.at
        go = tq <= b.at and not dormant
        if not go:
            lo = hi = 0.0
        elif amb:
            lo = 0.0
        if hi < EPS - tol():
            if rp and not amb:
                raise Violation(where + "requested %r%s" % ([unfl(x[0]) for x in rp], " in a dormant period" if dormant else ""))
        n = len(rp)
        nset = det.get(p, {})
        if b.q > 0:
            nl, nh = math.floor(lo / b.q - 1e-9 * max(1.0, lo / b.q)), math.floor(hi / b.q + 1e-9 * max(1.0, hi / b.q))
            if lo < EPS:
                nl = 0
            if not max(0, nl) <= n <= max(0, nh):
                raise Violation(where + "%d requests of %g, could take %r" % (n, b.q, hi))
        else:
            if n > 1 or n == 0 and lo > EPS + tol(lo):
                raise Violation(where + "%d requests, could take %r" % (n, hi))
        tot = 0.0
        for x in rp:
            w = unfl(x[0])
            v = [x[1 + 6 * j:7 + 6 * j] for j in range(len(x) // 6)]
            if sorted(unhx(y[0]) for y in v) != sorted(nset):
                raise Violation(where + "asked for %r, set up for %r" % ([unhx(y[0]) for y in v], sorted(nset)))
            amt = None
            for y in v:
                u, pref = nset[unhx(y[0])]
                amt = unfl(y[1])
                if u is None and y[2] != "h" or u is not None and (y[2] in ("h", "other") or abs(unfl(y[2]) - u) > 1e-9):
                    raise Violation(where + "asked for composition %s of %s instead of %s" % (y[2], unhx(y[0]), u))
                if unfl(y[3]) != pref:
                    raise Violation(where + "preference %r for %s instead of %r" % (unfl(y[3]), unhx(y[0]), pref))
                if int(y[4]) != (b.q > 0) or y[5] != "1":
                    raise Violation(where + "exclusive %s, own %s" % (y[4], y[5]))
                if b.q > 0 and abs(amt - b.q) > tol(b.q) or b.q <= 0 and not lo - tol(lo) <= amt <= hi + tol(hi):
                    raise Violation(where + "asked for %r of %s, could take %r to %r" % (amt, unhx(y[0]), lo, hi))
            if amt is not None:
                if amt < 1e200 and abs(w - amt) > tol(amt):
                    raise Violation(where + "portfolio of %r with requests of %r" % (w, amt))
                tot += amt
        asked[p] = (t, tot, q)
        if dormant:
            labels.add("dormant")
        if n > 1:
            labels.add("several requests")
        if b.trk != "-" and ts < sp and n:
            labels.add("limited by the total")
        # the next period
        rows = list(rows)
        if b.dend >= 0 and t >= b.dend:
            if b.cum > 0:
                b.dstart, b.dend = None, -1
            else:
                b.aend = t + b.row(rows, t, "Active", b.alo, b.ahi, where)
                b.sleep(rows, b.aend, where)
                labels.add("second cycle")
        if rows:
            raise Violation(where + "recorded the periods %r" % (rows,))

    def acc(self, c, e, rows, buys, asked, steps, labels):
        t, p = int(e[1]), e[2]
        b = buys.get(p)
        if b is None:
            return
        k = e.index("=")
        before, after = unfl(e[3]), unfl(e[k + 1])
        v = e[4:k]
        got = [(unhx(v[j]), unfl(v[j + 1]), unfl(v[j + 2])) for j in range(0, len(v), 3)]
        tot = math.fsum(x[2] for x in got)
        where = "step %d, buying policy %s (%s): " % (t, p, b.mode)
        if abs(after - before - tot) > 1e-6 + tol(after):
            raise Violation(where + "received %r, its buffer went from %r to %r" % (tot, before, after))
        ask = asked.get(p, (None, 0.0))
        if ask[0] != t or tot > ask[1] + 1e-5:
            raise Violation(where + "received %r having asked for %r" % (tot, ask[1] if ask[0] == t else 0))
        b.got, b.gott = [x[0] for x in got], t
        if tot > EPS:
            steps.add(t)
        rows = list(rows)
        if b.cum > 0:
            b.total += tot
            if b.cum - b.total < EPS:
                if abs(b.cum - b.total - EPS) > 1e-9 or rows:
                    b.sleep(rows, t + 1, where)
                    b.total = 0.0
                    labels.add("cycle filled")
        if rows:
            raise Violation(where + "recorded the periods %r" % (rows,))

    def bids(self, c, ev, sells, sel, labels):
        e = ev[0]
        t, p = int(e[1]), e[2]
        d = sells.get(p)
        if d is None:
            return
        where = "step %d, selling policy %s: " % (t, p)
        if not d["on"]:
            raise Violation(where + "asked while stopped")
        q, u0 = unfl(e[3]), e[4]
        seen, bids, cons, np_ = {}, {}, None, 0
        for x in ev[1:]:
            if x[0] == "SEEN":
                seen[int(x[1])] = (unhx(x[2]), unfl(x[3]), x[4])
            elif x[0] == "BP":
                np_ += 1
                cons = [unfl(y) for y in x[1:]]
            else:
                bids.setdefault(int(x[1]), []).append((unfl(x[2]), x[3], x[4] == "1", x[5] == "1"))
        d["seen"] = seen
        d["bids"] = bids
        Q = d["q"]
        lim = min(d["thr"], Q * math.floor(q / Q + 1e-9) if Q > 0 else q)
        low = min(d["thr"], Q * math.floor(q / Q - 1e-9) if Q > 0 else q)
        d["lim"] = lim
        if lim < EPS - 1e-12:
            if bids:
                raise Violation(where + "offers %r, can ship %r" % (bids, lim))
            return
        if np_ > 1 or bids and (len(cons) != 1 or not low - tol(lim) <= cons[0] <= lim + tol(lim)):
            raise Violation(where + "holding %r, limits what it ships to %r instead of %r" % (q, cons, lim))
        for n, (com, rq, ru) in seen.items():
            f = sorted((x[0] for x in bids.get(n, [])), reverse=True)
            w = where + "holding %r, asked for %r of %s: " % (q, rq, com)
            if com not in sel.get(p, ()):
                if f:
                    raise Violation(w + "offers a commodity it does not sell")
                continue
            amt, aml = min(rq, lim), min(rq, low)
            if low < EPS + 1e-9:
                aml = 0.0
            for x in bids.get(n, []):
                if x[2] != (Q > 0) or not x[3]:
                    raise Violation(w + "exclusive %s own %s" % x[2:])
                wc = ru if d["ign"] else u0
                if x[1] != wc and (x[1] in ("h", "other") or wc in ("h", "other") or abs(unfl(x[1]) - unfl(wc)) > 1e-9):
                    raise Violation(w + "offers composition %s instead of %s" % (x[1], wc))
            if Q > 0:
                if any(abs(x - Q) > tol(Q) for x in f):
                    raise Violation(w + "offers %r with a quantum of %r" % (f, Q))
                nl, nh = math.floor(aml / Q - 1e-9), math.floor(amt / Q + 1e-9)
                if d["tu"] == "unrestricted":
                    if not max(nl, 0) <= len(f) <= nh:
                        raise Violation(w + "%d offers of %r" % (len(f), Q))
                elif nl == nh:
                    c04.PROP.ship(d["tu"], c["tu"][d["tu"]], nh, len(f), 0, w)
                continue
            if d["pkg"] == "unpackaged":
                if len(f) > 1 or f and abs(f[0] - amt) > tol(amt):
                    raise Violation(w + "offers %r" % (f,))
                ex = 1
            else:
                P = c["pkg"][d["pkg"]]
                labels.add("packages:" + P[2])
                if math.fsum(f) > amt + tol(amt) or any(not P[0] - EPS - tol(x) <= x <= P[1] + tol(x) for x in f):
                    raise Violation(w + "offers %r in packages of %g to %g" % (f, P[0], P[1]))
                if P[2] in ("uniform", "normal"):
                    ex = None
                    if d["tu"] == "unrestricted" and amt - math.fsum(f) >= max(P[0], EPS) + tol(amt):
                        raise Violation(w + "offers %r only" % (f,))
                else:
                    ex = self.count(amt, P)
                    if d["tu"] == "unrestricted":
                        c04.PROP.fills(P, amt, f, w)
            if d["tu"] == "unrestricted":
                if ex is not None and len(f) != ex:
                    raise Violation(w + "offers %r" % (f,))
            elif ex is not None:
                c04.PROP.ship(d["tu"], c["tu"][d["tu"]], ex, len(f), 0, w)
                if len(f) < ex:
                    labels.add("transport limited")

    def count(self, q, P):
        """number of packages, None if rounding decides"""
        lo, hi, st = P
        for x in ([lo] if lo > 0 else []) + [hi]:
            r = q / x
            if abs(r - round(r)) < 1e-9 * max(1, r) and r != round(r):
                return None
        if q < lo or q < EPS:
            return 0
        if st == "equal":
            nx = math.ceil(q / hi)
            if lo == 0 or math.floor(q / lo) >= nx:
                return None if abs(q / nx * nx - q) > 0 else nx
        n = math.floor(q / hi)
        left = q - n * hi
        if abs(left - max(EPS, lo)) < 1e-9 and left != lo:
            return None
        if n == 0:
            return 1
        return n + (left >= max(EPS, lo))

    def ship(self, c, ev, sells, steps, labels):
        e = ev[0]
        t, p = int(e[1]), e[2]
        d = sells.get(p)
        if d is None:
            return
        where = "step %d, selling policy %s: " % (t, p)
        q, u = unfl(e[3]), unfl(e[4])
        tr = [(int(x[1]), unfl(x[2]), x[3]) for x in ev if x[0] == "TRADE"]
        sent = [(int(x[1]), unfl(x[2]), unfl(x[3]), x[4], unhx(x[5]), int(x[6]), unfl(x[7])) for x in ev if x[0] == "SENT"]
        left = [x for x in ev if x[0] == "LEFT"]
        if not left:
            raise Violation(where + "no answer to its trades")
        ql, ul = unfl(left[0][1]), unfl(left[0][2])
        tot = math.fsum(x[2] for x in sent)
        ut = math.fsum(x[6] for x in sent)
        slack = 1e-6 * (1 + len(sent)) + tol(q)
        where += "holding %r, trades %r, sent %r, left %r: " % (q, [x[1] for x in tr], [x[2] for x in sent], ql)
        if abs(q - ql - tot) > slack:
            raise Violation(where + "what it sent is not what left the buffer")
        if not d["ign"] and abs(u - ul - ut) > slack:
            raise Violation(where + "U235 %r left the buffer, sent %r" % (u - ul, ut))
        if tot > d["lim"] + 1e-5:
            raise Violation(where + "sent more than %r" % d["lim"])
        P = c["pkg"].get(d["pkg"])
        real = [x for x in sent if x[2] > EPS]
        fails = [x for x in tr if P and (x[1] < P[0] + 1e-9 or x[1] > P[1] - 1e-9)]
        if len(set(x[5] for x in real)) != len(real):
            raise Violation(where + "the same resource sent twice")
        for x in sent:
            if x[2] <= EPS:
                if not P or P[2] in ("first", "equal") and P[0] + 1e-9 < x[1] < P[1] - 1e-9 and x[1] > 2 * EPS:
                    raise Violation(where + "nothing sent for a trade of %r" % x[1])
                continue
            if x[4] != d["pkg"]:
                raise Violation(where + "sent in package %r instead of %r" % (x[4], d["pkg"]))
            if P and not P[0] - EPS - tol(x[2]) <= x[2] <= P[1] + tol(x[2]):
                raise Violation(where + "sent %r in a package of %g to %g" % (x[2], P[0], P[1]))
            if (not P or P[2] in ("first", "equal")) and abs(x[1] - x[2]) > EPS + tol(x[1]):
                raise Violation(where + "sent %r for a trade of %r" % (x[2], x[1]))
            if d["ign"]:
                ru = [y[2] for y in tr if y[0] == x[0]]
                if not ru:
                    raise Violation(where + "sent for a request it was not matched with")
                if x[3] != ru[0] and (x[3] in ("h", "other") or ru[0] in ("h", "other") or abs(unfl(x[3]) - unfl(ru[0])) > 1e-9):
                    raise Violation(where + "ignoring compositions, sent %s for a request of %s" % (x[3], ru[0]))
                labels.add("composition ignored")
            if P:
                labels.add("shipped packages")
        if tot > EPS:
            steps.add(t)
        if d["tu"] == "unrestricted":
            if len(sent) != len(tr):
                raise Violation(where + "%d trades, %d answered" % (len(tr), len(sent)))
        elif not fails:
            c04.PROP.ship(d["tu"], c["tu"][d["tu"]], len(tr), len(sent), 0, where)
            labels.add("shipped in units")


PROP = C16()
