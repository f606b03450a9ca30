"""Generation of resource histories and parsing of h_res observations."""
import math
from pbt import fl, unfl, hx, unhx, Violation, HarnessError

NUCS = [10010000, 20040000, 80160000, 922350000, 922380000, 942390000, 551370000, 260560000]
EPS = 1e-6
UNPK = "unpackaged"


def parse_comp(tok):
    n = int(tok[0])
    return {int(tok[1 + 2 * i]): unfl(tok[2 + 2 * i]) for i in range(n)}


def parse_row(ln):
    parts = ln.split(" | ")
    d = {"_table": parts[0].split()[1]}
    for p in parts[1:]:
        t = p.split()
        name, ty, v = t[0], t[1], t[2:]
        if ty in ("int", "bool"):
            d[name] = int(v[0])
        elif ty in ("double", "float"):
            d[name] = unfl(v[0])
        elif ty in ("str", "cstr", "blob"):
            d[name] = unhx(v[0]).decode("utf-8", "surrogateescape")
        elif ty == "uuid":
            d[name] = v[0]
        else:
            d[name] = (ty, v)
    return d


class Step:
    def __init__(self):
        self.ok = None
        self.err = None
        self.skip = False
        self.ret = None
        self.rows = []
        self.res = {}
        self.bufs = {}
        self.trks = {}
        self.maps = {}
        self.compid = None
        self.erased = None


def parse(lines):
    """-> (agents{k:id}, steps{op index: Step}, comps{id: massmap}, cend, drain{buf: [handles]})"""
    agents, steps, comps, cend, drain = {}, {}, {}, {}, {}
    cur = None
    dr = None
    for ln in lines:
        t = ln.split()
        k = t[0]
        if k == "AGENT":
            agents[int(t[1])] = int(t[2])
        elif k == "OP":
            cur = Step()
            steps[int(t[1])] = cur
        elif k == "OK":
            cur.ok = True
        elif k == "ERR":
            cur.ok = False
            cur.err = t[1]
        elif k == "SKIP":
            cur.ok = False
            cur.skip = True
        elif k == "RET":
            if dr is not None:
                drain[dr] = [int(x) for x in t[1:]]
            else:
                cur.ret = [int(x) for x in t[1:]]
        elif k == "ROW":
            cur.rows.append(parse_row(ln))
        elif k == "RES":
            cur.res[int(t[1])] = {"type": t[2], "qty": unfl(t[3]), "sid": int(t[4]), "oid": int(t[5]),
                                  "qual": int(t[6]), "pkg": unhx(t[7]).decode(),
                                  "quality": unhx(t[8]).decode(), "units": unhx(t[9]).decode(),
                                  "pdt": int(t[10])}
        elif k == "COMP":
            comps[int(t[1])] = parse_comp(t[2:])
        elif k == "COMPID":
            cur.compid = int(t[2])
        elif k == "BUF":
            cur.bufs[int(t[1])] = {"count": int(t[2]), "qty": unfl(t[3]), "cap": unfl(t[4]),
                                   "space": unfl(t[5]), "empty": int(t[6]), "keep": int(t[7])}
        elif k == "TRK":
            d = {"qty": unfl(t[2]), "cap": unfl(t[3]), "space": unfl(t[4]), "tcap": unfl(t[5]),
                 "empty": int(t[6]), "n": int(t[7]), "bufs": {}}
            for i in range(8, len(t), 3):
                d["bufs"][int(t[i])] = (int(t[i + 1]), unfl(t[i + 2]))
            cur.trks[int(t[1])] = d
        elif k == "MAP":
            cur.maps[int(t[1])] = {"size": int(t[2]), "qty": unfl(t[3]), "empty": int(t[4]),
                                   "vals": [int(x) for x in t[5:]]}
        elif k == "ERASED":
            cur.erased = int(t[1])
        elif k == "CEND":
            cend[int(t[1])] = (int(t[2]), parse_comp(t[3:]))
        elif k == "DRAIN":
            dr = int(t[1])
        elif k == "END":
            pass
        else:
            raise HarnessError("unparsed observation: " + ln)
    return agents, steps, comps, cend, drain


def fracs(mass):
    s = math.fsum(mass.values())
    if s <= 0:
        return None
    return {n: v / s for n, v in mass.items()}


def nucmass(qty, mass):
    """nuclide masses of a resource, None when it has no defined composition"""
    f = fracs(mass)
    if f is None:
        return {} if abs(qty) <= 1e-12 else None
    return {n: qty * v for n, v in f.items()}


def gen_qty(s):
    return _gq(s)


def _gq(s):
    k = s.weighted([(5, "n"), (4, "r"), (1, "t"), (1, "h"), (1, "z")])
    if k == "n":
        return s.pick([1.0, 10.0, 0.1, 100.0, 3.0, 7.5, 0.3, 1000.0, 2.0 / 3])
    if k == "r":
        return round(s.real(0, 500), s.int(0, 6))
    if k == "t":
        return s.pick([1e-7, 5e-7, 1e-6, 2e-6, 1e-5, 1e-9])
    if k == "h":
        return s.pick([1e9, 123456789.123, 1e6 + 1.0 / 3])
    return 0.0


def part(s, q):
    """an amount related to an existing quantity q >= 0"""
    k = s.weighted([(5, "frac"), (3, "all"), (2, "half"), (1, "zero"), (2, "over"), (1, "eps"),
                    (1, "near"), (1, "third")])
    if k == "frac":
        return q * s.real(0, 1)
    if k == "all":
        return q
    if k == "half":
        return q / 2
    if k == "third":
        return q / 3
    if k == "zero":
        return 0.0
    if k == "over":
        return s.pick([q * 1.5 + 1, q + 1e-3, q + 2e-6, math.nextafter(q, math.inf)])
    if k == "eps":
        return max(0.0, q - s.pick([1e-6, 5e-7, 1e-7, 2e-6]))
    return math.nextafter(q, 0.0) if q > 0 else 0.0


def gen_comp(s, nucs=None):
    n = s.int(1, 4)
    nucs = s.shuffle(nucs or NUCS)[:n]
    out = []
    for x in nucs:
        out.append([x, s.weighted([(4, 1.0), (2, 0.05), (2, 3.0), (1, 1e-5), (1, 1e-9)])
                    if s.bool(0.7) else s.real(0.001, 10)])
    return out


def lines_of(case):
    """render the JSON case as harness input"""
    out = []
    for op in case["ops"]:
        toks = [op[0]]
        for x in op[1:]:
            if isinstance(x, float):
                toks.append(fl(x))
            elif isinstance(x, bool):
                toks.append("1" if x else "0")
            elif isinstance(x, int):
                toks.append(str(x))
            elif isinstance(x, dict):      # {"s": string}
                toks.append(hx(x["s"]))
            else:
                toks.append(x)
        out.append(" ".join(toks))
    return out


def S(x):
    return {"s": x}


PKGS = [("pa", 1.0, 5.0, "first"), ("pb", 2.0, 3.0, "equal"), ("pc", 0.5, 0.5, "first"),
        ("pd", 0.0, 4.0, "first"), ("pe", 3.0, 4.0, "equal"), ("pf", 0.0, 2.5, "equal")]


def gen_history(s, rows=False, untracked=True, max_ops=22):
    """A resource history.  The generator keeps an approximate model so that the amounts are
    related to the existing quantities."""
    ops = [["opt", "agents", 2]]
    if rows:
        ops.append(["opt", "rows"])
    ncomp = s.int(1, 3)
    nucs = NUCS if s.bool(0.5) else NUCS[3:6]
    comps = {}
    for k in range(ncomp):
        cm = gen_comp(s, nucs)
        ops.append(["comp", k, "mass"] + [y for x in cm for y in x])
        comps[k] = dict((a, b) for a, b in cm)
    pk = s.list(lambda: s.pick(PKGS), 0, 3, 0.5)
    seen = set()
    pkgs = {}
    for p in pk:
        if p[0] not in seen:
            seen.add(p[0])
            ops.append(["pkg", S(p[0]), p[1], p[2], p[3]])
            pkgs[p[0]] = p
    res = {}     # handle -> [type, qty, quality/None, tracked]
    quals = ["q0", "q1"]
    n = 0
    while n < max_ops and (n < 3 or s.more(0.9)):
        n += 1
        base = len(ops) * 1000
        mats = [h for h in res if res[h][0] == "M"]
        prods = [h for h in res if res[h][0] == "P"]
        ch = [(3, "mat"), (1, "prod")]
        if untracked:
            ch += [(0.5, "umat"), (0.3, "uprod")]
        if res:
            ch += [(4, "xq"), (2, "xres"), (0.7, "clone"), (1, "chpkg"), (0.7, "pkgx")]
            if pkgs:
                ch += [(2, "package")]
        if mats:
            ch += [(4, "xc"), (1.5, "trans")]
        if len(mats) > 1 or len(prods) > 1:
            ch += [(5, "abs"), (1, "squash")]
        ch += [(0.5, "time")]
        op = s.weighted(ch)
        if op == "mat":
            q = _gq(s)
            o = ["mat", s.int(0, 1), q, s.int(0, ncomp - 1)]
            ops.append(o)
            res[base] = ["M", q, None, True]
        elif op == "umat":
            q = _gq(s)
            ops.append(["umat", q, s.int(0, ncomp - 1)])
            res[base] = ["M", q, None, False]
        elif op == "prod":
            q = _gq(s)
            ql = s.pick(quals)
            ops.append(["prod", s.int(0, 1), q, S(ql)])
            res[base] = ["P", q, ql, True]
        elif op == "uprod":
            q = _gq(s)
            ql = s.pick(quals)
            ops.append(["uprod", q, S(ql)])
            res[base] = ["P", q, ql, False]
        elif op in ("xq", "xres"):
            h = s.pick(list(res))
            q = part(s, res[h][1])
            ops.append([op, h, q])
            if q <= res[h][1]:
                res[h][1] -= q
                res[base] = [res[h][0], q, res[h][2], res[h][3]]
        elif op == "xc":
            h = s.pick(mats)
            q = part(s, res[h][1]) * s.pick([1.0, 0.1, 0.01])
            o = ["xc", h, q, s.int(0, ncomp - 1)]
            if s.bool(0.3):
                o.append(s.pick([0.0, 1e-6, 1e-3]))
            ops.append(o)
            # success is unknown to the generator: do not refer to the result
        elif op == "abs":
            kind = mats if (len(mats) > 1 and (len(prods) < 2 or s.bool(0.7))) else prods
            a = s.pick(kind)
            b = s.pick([x for x in kind if x != a])
            if rows and res[a][3] != res[b][3]:
                continue
            ops.append(["abs", a, b])
            if res[a][2] == res[b][2]:
                res[a][1] += res[b][1]
                res[b][1] = 0.0
        elif op == "squash":
            kind = mats if len(mats) > 1 else prods
            hs = s.shuffle(kind)[:s.int(2, 3)]
            if len(set(res[x][2] for x in hs)) > 1 or (rows and len(set(res[x][3] for x in hs)) > 1):
                continue
            ops.append(["squash", s.pick(["r", "m" if kind is mats else "p"])] + hs)
            res[hs[0]][1] = sum(res[x][1] for x in hs)
            for x in hs[1:]:
                res[x][1] = 0.0
        elif op == "trans":
            ops.append(["trans", s.pick(mats), s.int(0, ncomp - 1)])
        elif op == "clone":
            h = s.pick(list(res))
            ops.append(["clone", h])
            res[base] = [res[h][0], res[h][1], res[h][2], False]
        elif op == "pkgx":
            h = s.pick(list(res))
            q = part(s, res[h][1])
            nm = s.pick(sorted(pkgs)) if pkgs and s.bool(0.7) else UNPK
            ops.append(["pkgx", h, q, S(nm)])
            if q <= res[h][1]:
                res[h][1] -= q
                res[base] = [res[h][0], q, res[h][2], res[h][3]]
        elif op == "chpkg":
            h = s.pick(list(res))
            nm = s.pick(sorted(pkgs)) if pkgs and s.bool(0.7) else UNPK
            ops.append(["chpkg", h, S(nm)])
        elif op == "package":
            h = s.pick(list(res))
            nm = s.pick(sorted(pkgs))
            if not res[h][1] / max(pkgs[nm][2], 1e-9) < 200:
                continue
            ops.append(["package", h, S(nm)])
            # the generator does not follow the split: the rest is unknown, so stop using h
            del res[h]
        elif op == "time":
            ops.append(["time", s.int(0, 20)])
    return {"ops": ops}


def close(a, b, rel=1e-9, ab=1e-12):
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))
