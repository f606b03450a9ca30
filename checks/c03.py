"""C03: resource buffers, keyed buffers and inventory trackers against a list model."""
import math
from pbt import Prop, Info, Violation, HarnessError
import reslib as L
from reslib import S

EPS = L.EPS
QS = [1.0, 2.0, 5.0, 0.1, 0.3, 10.0, 1.0 / 3, 100.0, 7.25, 1e-7, 0.7]


def gen_case(s):
    ops = [["opt", "agents", 1]]
    ncomp = s.int(1, 2)
    for k in range(ncomp):
        ops.append(["comp", k, "mass"] + [y for x in L.gen_comp(s, L.NUCS[3:6]) for y in x])
    ops.append(["pkg", S("pa"), 0.0, 1000.0, "first"])
    nbuf = s.int(1, 3)
    bufs = {}
    for k in range(nbuf):
        kind = s.weighted([(5, "M"), (2, "P"), (2, "R")])
        bulk = kind != "R" and s.bool(0.3)
        keep = (not bulk) and s.bool(0.4)
        cap = s.weighted([(4, None), (4, "r"), (0.2, 0.0)])
        if cap == "r":
            cap = s.pick([10.0, 30.0, 100.0, 1.0, 3.3, 12.0])
        ops.append(["buf", k, kind, "none" if cap is None else cap, 1 if bulk else 0, 1 if keep else 0])
        # a buffer of both kinds cannot merge them into one resource
        only = s.pick(["M", "P", "MP"]) if kind == "R" else kind
        bufs[k] = {"kind": kind, "bulk": bulk, "rs": [], "cap": math.inf if cap is None else cap, "only": only}
    mats = [k for k in bufs if bufs[k]["kind"] == "M"]
    trk = 0
    if mats and s.bool(0.6):
        for _ in range(s.int(1, 2)):
            mx = s.weighted([(2, "none"), (3, 10.0), (2, 50.0), (1, 1e6)])
            ops.append(["trk", trk, mx] + (s.subset(mats) or mats[:1]))
            trk += 1
    usemap = s.bool(0.25)
    if usemap:
        ops.append(["map", 0])
    free = {}     # handle -> [type, qty]
    mapped = {}
    n = 0

    def tot(b):
        return sum(q for _, q in b["rs"])

    while n < 36 and (n < 10 or s.more(0.93)):
        n += 1
        base = len(ops) * 1000
        ch = [(4 if len(free) < 3 else 1, "new")]
        if free:
            ch += [(7, "push"), (6, "pushv")]
        if any(b["rs"] for b in bufs.values()) or s.bool(0.1):
          ch += [(2, "pop"), (2, "popv"), (1, "popeps"), (2, "popn"), (2, "pop1"), (1, "popback"), (0.7, "peek"),
               (0.7, "cap"), (0.3, "keep")]
        if trk:
            ch += [(0.5, "trkcap")]
        if usemap:
            ch += [(1.5, "mput"), (0.8, "mpop"), (0.5, "merase"), (0.1, "mclear"), (0.5, "mvals")]
        op = s.weighted(ch)
        if op == "new":
            q = s.pick(QS) if s.bool(0.7) else round(s.real(0, 20), 3)
            if s.bool(0.75):
                o = ["mat", 0, q, s.int(0, ncomp - 1)]
                if s.bool(0.3):
                    o.append(S("pa"))
                ops.append(o)
                free[base] = ["M", q]
            else:
                ops.append(["prod", 0, q, S("q0")])
                free[base] = ["P", q]
            continue
        full = [k for k in bufs if bufs[k]["rs"]]
        k = s.pick(full) if op[:3] == "pop" and full and s.bool(0.9) else s.pick(list(bufs))
        b = bufs[k]

        def ok_type(t):
            return t in b["only"]

        if op == "push":
            fits = [h for h in free if ok_type(free[h][0])]
            inside = [h for h, _ in b["rs"]]
            if inside and s.bool(0.08):
                ops.append(["push", k, s.pick(inside)])       # duplicate
                continue
            wrong = [h for h in free if b["kind"] in "MP" and free[h][0] != b["kind"]]
            if wrong and s.bool(0.08):
                ops.append(["push", k, s.pick(wrong)])
                continue
            if not fits:
                continue
            h = s.pick(fits)
            ops.append(["push", k, h])
            if tot(b) + free[h][1] <= b["cap"] + EPS / 2:
                q = free.pop(h)[1]
                if b["bulk"] and b["rs"]:
                    b["rs"][0][1] += q
                else:
                    b["rs"].append([h, q])
        elif op == "pushv":
            fits = s.shuffle([h for h in free if ok_type(free[h][0])])[:s.int(1, 4)]
            if not fits:
                continue
            hs = list(fits)
            if s.bool(0.06):
                hs = hs + [s.pick(hs)]
            elif b["rs"] and s.bool(0.06):
                hs.insert(s.int(0, len(hs)), b["rs"][0][0])
            elif s.bool(0.06):
                wrong = [h for h in free if b["kind"] in "MP" and free[h][0] != b["kind"]]
                if wrong:
                    hs.insert(s.int(0, len(hs)), s.pick(wrong))
            ops.append([s.pick(["pushv", "pushvt"]) if hs == fits else "pushv", k] + hs)
            if hs == fits and tot(b) + sum(free[h][1] for h in hs) <= b["cap"] + EPS / 2:
                for h in hs:
                    q = free.pop(h)[1]
                    if b["bulk"] and b["rs"]:
                        b["rs"][0][1] += q
                    else:
                        b["rs"].append([h, q])
        elif op in ("pop", "popv", "popeps"):
            if b["only"] == "MP" and op in ("pop", "popeps"):
                continue
            q = self_part(s, b["rs"])
            if op == "pop" and q <= 0:
                continue
            if op == "popeps":
                e = s.pick([0.0, 1e-6, 1e-3])
                q = q if s.bool(0.5) else max(0.0, tot(b) + s.pick([e / 2, -e / 2, 2 * e, 0.0]))
                if q <= 0 or not b["rs"]:
                    continue
                ops.append(["popeps", k, q, e])
            else:
                ops.append([op, k, q])
            t = tot(b)
            if op == "popeps" and q <= t + e and q >= t:
                q = t
            if q > t or (abs(q - t) < 1e-9 and q != t):
                # uncertain or refused: do not follow
                if abs(q - t) < 1e-9:
                    b["rs"] = []
                continue
            left = q
            popped = []
            while left > 0 and b["rs"]:
                h, hq = b["rs"][0]
                if hq > left:
                    b["rs"][0][1] -= left
                    popped.append([base, left])
                else:
                    b["rs"].pop(0)
                    popped.append([h, hq])
                left -= hq
            # only certain handles are reused
            if op == "popv":
                for h, hq in popped:
                    free[h] = [None, hq]
            elif popped:
                free[popped[0][0]] = [None, sum(x for _, x in popped)]
            for h in list(free):
                if free[h][0] is None:
                    free[h][0] = b["only"]
                    if b["only"] == "MP":
                        del free[h]
        elif op == "popn":
            m = s.int(0, len(b["rs"])) if s.bool(0.8) else s.pick([-1, len(b["rs"]) + 1])
            ops.append([s.pick(["popn", "popnres"]), k, m])
            if 0 <= m <= len(b["rs"]):
                for h, q in b["rs"][:m]:
                    if b["only"] != "MP":
                        free[h] = [b["only"], q]
                b["rs"] = b["rs"][m:]
        elif op in ("pop1", "popback"):
            ops.append([op, k])
            if b["rs"]:
                h, q = b["rs"].pop(0 if op == "pop1" else -1)
                if b["only"] != "MP":
                    free[h] = [b["only"], q]
        elif op == "peek":
            ops.append(["peek", k])
        elif op == "cap":
            t = tot(b)
            c = s.pick([t, t + 1.0, t - 1.0, t + 1e-7, t - 1e-7, t - 1e-5, t * 2, 100.0, 0.0, -1.0, 1e-3])
            ops.append(["cap", k, float(c)])
            if c >= 0 and t - c <= EPS:
                b["cap"] = c
        elif op == "keep":
            ops.append(["keep", k, s.pick([1, 0])])
        elif op == "trkcap":
            ops.append(["trkcap", s.int(0, trk - 1), s.pick([1.0, 5.0, 30.0, 1e9])])
        elif op == "mput":
            fm = [h for h in free if free[h][0] == "M"]
            if not fm:
                continue
            h = s.pick(fm)
            key = s.pick(["a", "b", "c", "dd"])
            ops.append(["mput", 0, S(key), h])
            mapped[key] = free.pop(h)
        elif op in ("mpop", "merase"):
            ops.append([op, 0, S(s.pick(["a", "b", "c", "dd"]))])
        elif op == "mclear":
            ops.append(["mclear", 0])
        elif op == "mvals":
            ops.append(["mvals", 0])
    return {"ops": ops}


def self_part(s, rs):
    """an amount related to the contents"""
    t = sum(q for _, q in rs)
    k = s.weighted([(3, "frac"), (3, "prefix"), (2, "all"), (1, "over"), (1, "zero"), (1, "near")])
    if k == "frac":
        return t * s.real(0, 1)
    if k == "prefix" and rs:
        return sum(q for _, q in rs[:s.int(1, len(rs))])
    if k == "over":
        return t + s.pick([1.0, 1e-3, 1e-5])
    if k == "zero":
        return 0.0
    if k == "near" and t > 0:
        return math.nextafter(t, 0.0)
    return t


class C03(Prop):
    id = "C03"
    harnesses = ("h_res",)
    quick = 10000
    thorough = 150000
    rule = ("random histories (10-36 operations) of pushes (single and vector, duplicates, wrong type, beyond "
            "capacity), pops (by quantity, count, newest, with tolerance), capacity changes on 1-3 buffers "
            "(material, product, mixed; bulk, discrete; keeping packages or not), inventory trackers over them and "
            "a keyed buffer; non-trivial: two successful pops from a buffer that held at least two resources "
            "or a split")
    assumptions = ("buffers that merge resources (bulk, or popped as one) hold resources of one kind and quality",
                   "resources inside a buffer are not changed from outside")

    def gen(self, s):
        return gen_case(s)

    def check(self, case, rig):
        obs = rig.run("h_res", L.lines_of(case))
        agents, steps, comps, cend, drain = L.parse(obs)
        B, T, M = {}, {}, {}
        prev = {}
        active = 0
        labels = set()
        scale = 1.0
        for i, op in enumerate(case["ops"]):
            if i not in steps:
                continue
            st = steps[i]
            where = "op %d %r: " % (i, op)
            post = st.res
            n = op[0]
            if st.skip:
                self.observe(B, T, M, st, post, where, scale)
                continue
            k = op[1] if len(op) > 1 else None
            scale = max([scale] + [abs(r["qty"]) for r in post.values()])
            slack = 1e-9 * scale
            if n in ("push", "pushv", "pushvt", "mput"):
                held = set(h for x, b in B.items() if x != k or n == "mput" for h in b["rs"])
                held |= set(h for m in M.values() for h in m.values()) if n != "mput" else set()
                if held & set(op[2:] if n != "mput" else op[3:]):
                    # one resource in two places: outside the assumptions, the rest is not judged
                    return Info(False, ["cut"])
            if st.ok:
                labels.add(n)
            else:
                labels.add("err:" + n)
                for h in prev:
                    for f in ("qty", "qual", "pkg", "sid"):
                        if prev[h][f] != post[h][f]:
                            raise Violation(where + "refused (%s) but resource %d changed %s: %r -> %r" %
                                            (st.err, h, f, prev[h][f], post[h][f]))
            if n == "buf":
                B[k] = {"kind": op[2], "rs": [], "cap": math.inf if op[3] == "none" else op[3],
                        "bulk": op[4] == 1, "keep": op[5] == 1}
            elif n == "trk":
                if not st.ok:
                    raise Violation(where + "raised " + st.err)
                T[k] = {"max": op[2], "bufs": op[3:]}
            elif n == "trkcap":
                q = math.fsum(self.tot(B[b], prev) for b in set(T[k]["bufs"]))
                if st.ok:
                    if q - op[2] > EPS + slack:
                        raise Violation(where + "limit set below the inventory %r" % q)
                    T[k]["max"] = op[2]
                elif q - op[2] < EPS - slack:
                    raise Violation(where + "limit refused with inventory %r" % q)
            elif n == "map":
                M[k] = {}
            elif n[0] == "m" and n != "mat":
                self.map_op(M, op, st, where)
            elif n in ("push", "pushv", "pushvt"):
                self.push(B[k], op, prev, post, st, where, slack)
            elif n == "cap":
                q = self.tot(B[k], prev)
                if st.ok:
                    if op[2] < 0 or q - op[2] > EPS + slack:
                        raise Violation(where + "capacity accepted with contents of %r" % q)
                    B[k]["cap"] = op[2]
                elif op[2] >= 0 and q - op[2] < EPS - slack:
                    raise Violation(where + "capacity refused with contents of %r" % q)
            elif n == "keep":
                if st.ok:
                    if B[k]["bulk"] and op[2] == 1:
                        raise Violation(where + "bulk buffer accepted to keep packaging")
                    B[k]["keep"] = op[2] == 1
                elif not (B[k]["bulk"] and op[2] == 1):
                    raise Violation(where + "refused")
            elif n in ("pop", "popv", "popeps", "popn", "popnres", "pop1", "popback", "peek"):
                active += self.pop(B[k], op, prev, post, st, where, slack)
            # nothing is made or lost by a buffer
            if n not in ("mat", "prod", "comp", "pkg"):
                a = self.world(prev, comps)
                b = self.world(post, comps)
                for x in set(a) | set(b):
                    if abs(a.get(x, 0) - b.get(x, 0)) > slack:
                        raise Violation(where + "total of %s changed from %r to %r" % (x, a.get(x, 0), b.get(x, 0)))
            self.observe(B, T, M, st, post, where, scale)
            prev = post
        for k, hs in drain.items():
            if hs != B[k]["rs"]:
                raise Violation("buffer %d holds %r at the end, expected %r" % (k, hs, B[k]["rs"]))
        return Info(active >= 2, sorted(labels))

    @staticmethod
    def world(res, comps):
        out = {}
        for h, r in res.items():
            m = {r["quality"]: r["qty"]} if r["type"] == "P" else L.nucmass(r["qty"], comps[r["qual"]])
            for k, v in (m or {}).items():
                out[k] = out.get(k, 0.0) + v
        return out

    @staticmethod
    def tot(b, res):
        return math.fsum(res[h]["qty"] for h in b["rs"])

    def push(self, b, op, prev, post, st, where, slack):
        hs = op[2:]
        space = max(0.0, b["cap"] - self.tot(b, prev))
        q = math.fsum(prev[h]["qty"] for h in hs)
        typed = all(b["kind"] == "R" or prev[h]["type"] == b["kind"] for h in hs)
        dup = len(set(hs)) != len(hs) or any(h in b["rs"] for h in hs)
        if not st.ok:
            if typed and not dup and q - space < EPS - slack:
                raise Violation(where + "refused (%s) with space %r for %r" % (st.err, space, q))
            return
        if not typed:
            raise Violation(where + "accepted a resource of another type")
        if dup:
            raise Violation(where + "accepted a resource twice")
        if q - space > EPS + slack:
            raise Violation(where + "accepted %r with space %r" % (q, space))
        for h in hs:
            if b["bulk"] and b["rs"]:
                f = b["rs"][0]
                if post[h]["qty"] != 0:
                    raise Violation(where + "bulk contents were not merged")
            else:
                b["rs"].append(h)
                want = prev[h]["pkg"] if b["keep"] else L.UNPK
                if post[h]["pkg"] != want:
                    raise Violation(where + "package is %r, expected %r" % (post[h]["pkg"], want))
                if not b["bulk"] and prev[h]["qty"] != post[h]["qty"]:
                    raise Violation(where + "pushing changed the quantity")

    def pop(self, b, op, prev, post, st, where, slack):
        n = op[0]
        rs = b["rs"]
        t = self.tot(b, prev)
        if n == "peek":
            if st.ok:
                if not rs or st.ret != [rs[0]]:
                    raise Violation(where + "peeked %r of %r" % (st.ret, rs))
            elif rs:
                raise Violation(where + "refused")
            return 0
        if n in ("pop1", "popback"):
            if st.ok:
                want = rs[:1] if n == "pop1" else rs[-1:]
                if st.ret != want:
                    raise Violation(where + "popped %r, expected %r" % (st.ret, want))
                if n == "pop1":
                    rs.pop(0)
                else:
                    rs.pop()
                return 1 if rs else 0
            if rs:
                raise Violation(where + "refused")
            return 0
        if n in ("popn", "popnres"):
            m = op[2]
            if st.ok:
                if m < 0 or m > len(rs):
                    raise Violation(where + "accepted with %d resources" % len(rs))
                if st.ret != rs[:m]:
                    raise Violation(where + "popped %r, expected %r" % (st.ret, rs[:m]))
                del rs[:m]
                return 1 if m > 1 else 0
            if 0 <= m <= len(rs):
                raise Violation(where + "refused")
            return 0
        q = op[2]
        e = op[3] if n == "popeps" else 0.0
        if not st.ok:
            if rs and q > 0 and q < t + e - slack:
                raise Violation(where + "refused (%s) although %r is there" % (st.err, t))
            return 0
        if q > t + e + slack:
            raise Violation(where + "accepted although only %r is there" % t)
        if q <= 0 and n != "popv":
            return 0
        # the resources left are the youngest ones; the boundary may move by round-off, so the number
        # left is taken from the buffer and everything else must agree with it
        cnt = st.bufs[op[1]]["count"]
        if cnt > len(rs):
            raise Violation(where + "more resources than before")
        gone, rest = rs[:len(rs) - cnt], rs[len(rs) - cnt:]
        got = math.fsum(post[h]["qty"] for h in st.ret)
        if abs(got - min(q, t)) > slack + e:
            raise Violation(where + "gave %r instead of %r" % (got, min(q, t)))
        if math.fsum(prev[h]["qty"] for h in gone[:-1]) > q + slack:
            raise Violation(where + "removed %r, more than needed" % gone)
        left = math.fsum(post[h]["qty"] for h in rest)
        if abs(left + got - t) > slack:
            raise Violation(where + "%r left, expected %r" % (left, t - got))
        for h in rest[1:]:
            if post[h]["qty"] != prev[h]["qty"] or post[h]["qual"] != prev[h]["qual"]:
                raise Violation(where + "resource %d in the buffer was changed" % h)
        split = bool(rest) and post[rest[0]]["qty"] != prev[rest[0]]["qty"]
        if n == "popv":
            new = st.ret[len(gone):]
            if st.ret[:len(gone)] != gone or len(new) > 1 or (new and (new[0] in rs or new[0] in prev)):
                raise Violation(where + "popped %r, expected %r and at most one part" % (st.ret, gone))
            if split and not new:
                raise Violation(where + "the part of %d is missing" % rest[0])
        else:
            if len(st.ret) != 1:
                raise HarnessError("pop returned several")
            for h in gone:
                if h != st.ret[0] and post[h]["qty"] != 0:
                    raise Violation(where + "resource %d was not merged into the result" % h)
            if st.ret[0] in rest:
                raise Violation(where + "the result is still in the buffer")
        b["rs"] = rest
        return 1 if split or len(gone) > 1 else 0

    def map_op(self, M, op, st, where):
        m = M[op[1]]
        n = op[0]
        if n == "mput":
            m[op[2]["s"]] = op[3]
        elif n == "mpop":
            key = op[2]["s"]
            if st.ok:
                if key not in m or st.ret != [m[key]]:
                    raise Violation(where + "gave %r, the map is %r" % (st.ret, m))
                del m[key]
            elif key in m:
                raise Violation(where + "refused (%s)" % st.err)
        elif n == "merase":
            key = op[2]["s"]
            if not st.ok or st.erased != (1 if key in m else 0):
                raise Violation(where + "erased %r of %r" % (st.erased, m))
            m.pop(key, None)
        elif n == "mclear":
            m.clear()
        if n in ("mput", "mclear", "mvals") and not st.ok:
            raise Violation(where + "raised " + st.err)

    def observe(self, B, T, M, st, post, where, scale):
        tol = 1e-9 * scale
        for k, o in st.bufs.items():
            b = B[k]
            q = self.tot(b, post)
            if o["count"] != len(b["rs"]) or o["empty"] != (0 if b["rs"] else 1):
                raise Violation(where + "buffer %d reports %d resources, holds %d" % (k, o["count"], len(b["rs"])))
            if abs(o["qty"] - q) > tol:
                raise Violation(where + "buffer %d reports quantity %r, holds %r" % (k, o["qty"], q))
            if o["cap"] != b["cap"]:
                raise Violation(where + "buffer %d reports capacity %r, set to %r" % (k, o["cap"], b["cap"]))
            sp = max(0.0, b["cap"] - q)
            if sp != o["space"] and not abs(o["space"] - sp) <= tol:
                raise Violation(where + "buffer %d reports space %r, has %r" % (k, o["space"], sp))
            if o["keep"] != (1 if b["keep"] else 0):
                raise Violation(where + "buffer %d packaging flag" % k)
        for k, o in st.trks.items():
            t = T[k]
            q = math.fsum(self.tot(B[b], post) for b in t["bufs"])
            caps = sum(B[b]["cap"] for b in t["bufs"])
            mx = 1.7976931348623157e308 if t["max"] == "none" else t["max"]
            cap = min(caps, mx)
            sp = max(0.0, cap - q)
            for name, g, w in (("quantity", o["qty"], q), ("capacity", o["cap"], cap), ("space", o["space"], sp)):
                if g != w and not abs(g - w) <= tol + 1e-9 * abs(w):
                    raise Violation(where + "tracker %d reports %s %r, expected %r" % (k, name, g, w))
            if o["n"] != len(t["bufs"]) or (o["empty"] == 1 and q > tol) or (o["empty"] == 0 and q == 0 and o["qty"] == 0):
                raise Violation(where + "tracker %d reports %r" % (k, o))
            for bk, (inn, cs) in o["bufs"].items():
                if inn != (1 if bk in t["bufs"] else 0):
                    raise Violation(where + "tracker %d, buffer %d: membership" % (k, bk))
                w = min(max(0.0, B[bk]["cap"] - self.tot(B[bk], post)), sp)
                if cs != w and not abs(cs - w) <= tol + 1e-9 * abs(w):
                    raise Violation(where + "tracker %d gives buffer %d space %r, expected %r" % (k, bk, cs, w))
        for k, o in st.maps.items():
            m = M[k]
            if o["size"] != len(m) or o["vals"] != [m[x] for x in sorted(m)] or o["empty"] != (0 if m else 1):
                raise Violation(where + "map holds %r, expected %r" % (o, m))
            q = math.fsum(post[h]["qty"] for h in m.values())
            if abs(q - o["qty"]) > tol:
                raise Violation(where + "map reports quantity %r, holds %r" % (o["qty"], q))


PROP = C03()
