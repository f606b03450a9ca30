"""C13: the same input in any format builds the same simulation."""
import json
import random
import xml.etree.ElementTree as ET
from pbt import Prop, Info, Violation, HarnessError, hx, unhx, fl, unfl

SHARE = "/repo/share"
NUCS = [(922350000, "U235", "92235"), (922380000, "U238", "92238"), (942390000, "Pu239", "94239"), (551370000, "Cs137", "55137"),
        (10010000, "H1", "1001"), (80160000, "O16", "8016"), (952420001, "Am242M", None), (942400000, "Pu240", "94240"),
        (942410000, "Pu241", "94241"), (260560000, "Fe56", "26056"), (20040000, "He4", "2004"), (380900000, "Sr90", "38090"),
        (952410000, "Am241", "95241"), (60120000, "C12", "6012"), (962440000, "Cm244", "96244")]
WORDS = ["a", "fuel", "uox 1", "A&B", "x<y", "p>q", "]]>", "q\"t'", "\u00fc\u4e2d", "n-1", "_z", "a.b:c", "1", "true", "0x10", "null"]


def word(s, used=None, plain=False):
    while True:
        w = s.pick(WORDS[:3] if plain else WORDS)
        if used is not None:
            if w in used:
                w += str(len(used))
            used.add(w)
        return w


def num(s):
    return s.weighted([(4, s.int(0, 400) / 8.0), (2, float(s.int(0, 10 ** 6))), (2, s.real(0.001, 1e6)), (1, s.pick([1e-12, 1e10, 1e299, 123456.789, 0.1, 1.0 / 3]))])


def gen(s):
    # now and then one of the lists is long
    long = s.pick(["commods", "recipes", "facs", "in", "init", "insts", "nucs"]) if s.bool(0.12) else None
    upto = lambda what, n: s.int(9, 14) if long == what else n
    c = {"dur": s.int(0, 2000), "m0": s.int(1, 12), "y0": s.int(0, 2200)}
    opt = {}
    if s.bool(0.4):
        opt["simhandle"] = word(s)
    if s.bool(0.3):
        opt["decay"] = s.pick(["never", "manual", "lazy"])
    if s.bool(0.3):
        opt["dt"] = s.pick([2629846, 1, 86400, s.int(1, 10 ** 9)])
    for k in ("explicit_inventory", "explicit_inventory_compact"):
        if s.bool(0.3):
            opt[k] = s.bool()
    for k in ("tolerance_generic", "tolerance_resource"):
        if s.bool(0.3):
            opt[k] = s.pick([1e-6, 1e-5, 1e-9, 0.001, s.real(1e-10, 1e-3)])
    for k in ("seed", "stride"):
        if s.bool(0.3):
            opt[k] = s.int(1, 2 ** 31 - 1)
    c["opt"] = opt
    r = s.int(0, 5)
    if r == 1:
        c["solver"] = {"k": "none", "excl": s.bool()}
    elif r == 2:
        c["solver"] = {"k": "greedy", "pre": s.bool(), "excl": s.pick([None, True, False])}
    elif r == 3:
        c["solver"] = {"k": "coin-or", "timeout": s.pick([None, s.int(1, 100000)]), "verbose": s.pick([None, True, False]),
                       "mps": s.pick([None, True, False]), "excl": s.pick([None, True, False])}
    else:
        c["solver"] = None
    used = set()
    c["commods"] = [[word(s, used), s.weighted([(3, float(s.int(1, 6))), (1, s.real(1, 50)), (1, s.pick([-1.0, 0.0, 0.5]))])]
                    for _ in range(upto("commods", s.int(0, 4)))]
    used = set()
    c["recipes"] = []
    for _ in range(upto("recipes", s.int(0, 3))):
        nn = s.shuffle(list(range(len(NUCS))))[:upto("nucs", s.int(1, 4))]
        c["recipes"].append([word(s, used), s.pick(["mass", "mass", "atom"]), [[i, s.int(0, 2), s.pick([1.0, 0.25, 100.0, s.real(1e-6, 10)])] for i in nn]])
    used = set()
    c["pkgs"] = []
    for _ in range(s.int(0, 2)):
        lo = s.pick([None, 0.5, 1.0, s.real(0.01, 3)])
        c["pkgs"].append([word(s, used), lo, s.pick([None, (lo or 0.0) + s.pick([0.0, 1.0, 2.5])]) if lo else s.pick([None, 1.0, 3.75]),
                          s.pick([None, "first", "equal"])])
    used = set()
    c["tus"] = []
    for _ in range(s.int(0, 2)):
        lo = s.pick([None, 1, 2, 0])
        c["tus"].append([word(s, used), lo, s.pick([None, (lo or 0) + s.int(1, 4)]), s.pick([None, "first", "equal", "hybrid"])])
    # archetypes and their aliases
    al = {}
    used = set()
    for k in ("NullRegion", "NullInst", "Source", "Sink"):
        al[k] = [k] if s.bool(0.7) else ["my" + k]
    c["alias"] = al
    protos = set()
    c["facs"] = []
    for _ in range(upto("facs", s.int(1, 4))):
        k = s.pick(["Source", "Sink"])
        f = {"name": word(s, protos), "a": s.pick(al[k]), "k": k, "life": s.pick([None, None, s.int(1, 600)])}
        if k == "Source":
            f["conf"] = {"commod": word(s, plain=True), "capacity": num(s)}
            if s.bool():
                f["conf"]["recipe_name"] = word(s, plain=True)
        else:
            f["conf"] = {"in_commods": [word(s) for _ in range(upto("in", s.int(1, 4)))], "capacity": num(s)}
            if s.bool():
                f["conf"]["recipe_name"] = word(s)
            if s.bool():
                f["conf"]["max_inv_size"] = num(s)
        c["facs"].append(f)
    c["regions"] = []
    for _ in range(s.int(1, 2)):
        r = {"name": word(s, protos), "a": s.pick(al["NullRegion"]), "life": s.pick([None, None, s.int(1, 600)]), "insts": []}
        for _ in range(upto("insts", s.int(1, 3))):
            r["insts"].append({"name": word(s, protos), "a": s.pick(al["NullInst"]), "life": s.pick([None, None, s.int(1, 600)]),
                               "init": [[s.int(0, len(c["facs"]) - 1), s.int(0, 3)] for _ in range(upto("init", s.int(0, 3)))]})
        c["regions"].append(r)
    c["style"] = s.pick([0, 0, s.int(1, 10 ** 6)])
    c["how"] = s.pick(["file", "file", "text"])
    c["bad"] = s.pick(BAD) if s.bool(0.3) else ""
    c["badn"] = s.int(0, 9)
    return c


BAD = ["drop", "dup", "unknown", "text", "month", "alias", "initproto", "sameproto", "negative", "pkg", "tu", "strategy", "basis", "nuc",
       "negcomp", "truncate", "precon", "parent", "cycle", "noproto", "nospec"]


# ---- element trees: [name, text or list of children]
def E(n, v):
    return [n, v]


def opt(lst, n, v):
    if v is not None:
        lst.append([n, v])


def tree(c, flat):
    ctl = [E("duration", c["dur"]), E("startmonth", c["m0"]), E("startyear", c["y0"])]
    ctl += [E(k, v) for k, v in c["opt"].items()]
    so = c["solver"]
    if so:
        ch = []
        if so["k"] == "greedy":
            ch.append(E("config", [E("greedy", [E("preconditioner", "greedy")] if so["pre"] else [])]))
        elif so["k"] == "coin-or":
            k = []
            for n in ("timeout", "verbose", "mps"):
                opt(k, n, so[n])
            ch.append(E("config", [E("coin-or", k)]))
        opt(ch, "allow_exclusive_orders", so["excl"])
        ctl.append(E("solver", ch))
    sim = [E("control", ctl)]
    for n, p in c["commods"]:
        sim.append(E("commodity", [E("name", n), E("solution_priority", p)]))
    sp = []
    for k, al in c["alias"].items():
        for a in al:
            x = [E("lib", "agents"), E("name", k)]
            if a != k:
                x.append(E("alias", a))
            sp.append(E("spec", x))
    sim.append(E("archetypes", sp))
    for n, b, fr in c["recipes"]:
        sim.append(E("recipe", [E("name", n), E("basis", b)] +
                     [E("nuclide", [E("id", str(NUCS[i][f] or NUCS[i][0])), E("comp", x)]) for i, f, x in fr]))
    for nm, lst in (("package", c["pkgs"]), ("transportunit", c["tus"])):
        for n, lo, hi, st in lst:
            x = [E("name", n)]
            opt(x, "fill_min", lo)
            opt(x, "fill_max", hi)
            opt(x, "strategy", st)
            sim.append(E(nm, x))

    def proto(tag, o, conf):
        x = [E("name", o["name"])]
        opt(x, "lifetime", o["life"])
        x.append(E("config", [E(o["a"], conf)]))
        return E(tag, x)

    def fconf(f):
        x = []
        for k, v in f["conf"].items():
            x.append(E(k, [E("val", y) for y in v] if isinstance(v, list) else v))
        return x
    if not flat:
        for f in c["facs"]:
            sim.append(proto("facility", f, fconf(f)))
        for r in c["regions"]:
            e = proto("region", r, [])
            for i in r["insts"]:
                ie = proto("institution", i, [])
                if i["init"]:
                    ie[1].append(E("initialfacilitylist", [E("entry", [E("prototype", c["facs"][f]["name"]), E("number", n)]) for f, n in i["init"]]))
                e[1].append(ie)
            sim.append(e)
    else:
        for f in c["facs"]:
            sim.append(proto("prototype", f, fconf(f)))
        na = [0]

        def agent(p, parent):
            na[0] += 1
            n = "ag%d" % (na[0] * 37 % 101)
            x = [E("name", n), E("prototype", p)]
            opt(x, "parent", parent)
            sim.append(E("agent", x))
            return n
        for r in c["regions"]:
            sim.append(proto("prototype", r, []))
            rn = agent(r["name"], None)
            for i in r["insts"]:
                sim.append(proto("prototype", i, []))
                nn = agent(i["name"], rn)
                for f, n in i["init"]:
                    for _ in range(n):
                        agent(c["facs"][f]["name"], nn)
    if flat:
        sim.insert(0, E("schematype", "flat"))
    return E("simulation", sim)


def find(t, *path):
    """all nodes by a path of names"""
    cur = [t]
    for p in path:
        cur = [x for n in cur if isinstance(n[1], list) for x in n[1] if x[0] == p]
    return cur


def spoil(c, t, flat):
    """make the document invalid; returns None when the mutation does not apply"""
    b, n = c["bad"], c["badn"]
    ctl = find(t, "control")[0]
    facs = find(t, "facility") or find(t, "prototype")
    if b == "drop":
        what = [(ctl, "duration"), (ctl, "startmonth"), (ctl, "startyear"), (facs[0], "name"), (facs[0], "config"), (t, "archetypes"), (t, "control"),
                (facs[0][1][-1][1][0], "capacity")][n % 8]
        if not any(x[0] == what[1] for x in what[0][1]):
            return None
        what[0][1] = [x for x in what[0][1] if x[0] != what[1]]
    elif b == "dup":
        what = [(ctl, "duration"), (ctl, "startmonth"), (facs[0], "name"), (facs[0], "config"), (t, "control")][n % 5]
        x = [y for y in what[0][1] if y[0] == what[1]][0]
        what[0][1].append(x)
    elif b == "unknown":
        [ctl, t, facs[0], facs[0][1][-1][1][0], find(t, "archetypes", "spec")[0]][n % 5][1].append(E("bogus", "1"))
    elif b in ("text", "negative"):
        bad = ["abc", "1x", "1.5.5", "--1"][n % 4] if b == "text" else "-%d" % (n + 1)
        what = [(ctl, "duration"), (ctl, "startyear"), (facs[0], "lifetime"), (ctl, "startmonth")]
        if b == "text":
            what.append((facs[0][1][-1][1][0], "capacity"))
        o, k = what[n % len(what)]
        l = [x for x in o[1] if x[0] == k]
        if l:
            l[0][1] = bad
        else:
            o[1].append(E(k, bad))
    elif b == "month":
        [x for x in ctl[1] if x[0] == "startmonth"][0][1] = [0, 13, 14, 100][n % 4]
    elif b == "alias":
        find(facs[0], "config")[0][1][0][0] = "NoSuchThing"
    elif b == "initproto":
        l = find(t, "region", "institution", "initialfacilitylist", "entry")
        l = [x for x in l if find(x, "number")[0][1] > 0]
        if not l:
            return None
        find(l[0], "prototype")[0][1] = "no such prototype"
    elif b == "sameproto":
        import copy
        t[1].append(copy.deepcopy(facs[0]))
    elif b in ("pkg", "strategy", "tu"):
        tag = "package" if b == "pkg" else "transportunit" if b == "tu" else ["package", "transportunit"][n % 2]
        l = find(t, tag)
        if not l:
            return None
        l[0][1] = [x for x in l[0][1] if x[0] == "name"]
        if b == "strategy":
            l[0][1] += [E("fill_min", 1), E("fill_max", 2), E("strategy", "best")]
        else:
            l[0][1] += [E("fill_min", 3), E("fill_max", 2), E("strategy", "first")]
    elif b == "basis":
        l = find(t, "recipe", "basis")
        if not l:
            return None
        l[0][1] = ["weight", "MASS", "atoms"][n % 3]
    elif b == "nuc":
        l = find(t, "recipe", "nuclide", "id")
        if not l:
            return None
        l[0][1] = ["Qx235", "nonsense", "U-"][n % 3]
    elif b == "negcomp":
        l = find(t, "recipe", "nuclide", "comp")
        if not l:
            return None
        l[0][1] = -1.0
    elif b == "precon":
        so = c["solver"]
        if not so or so["k"] != "greedy" or not so["pre"] or not c["commods"]:
            return None
        find(ctl, "solver", "config", "greedy", "preconditioner")[0][1] = "bogus"
    elif b in ("parent", "cycle"):
        if not flat:
            return None
        l = find(t, "agent")
        if b == "parent":
            x = [y for y in l if find(y, "parent")][0]
            find(x, "parent")[0][1] = "nobody"
        else:
            x = l[0]
            x[1].append(E("parent", find(l[1], "name")[0][1]))
    elif b == "noproto":
        if not flat:
            return None
        find(find(t, "agent")[-1], "prototype")[0][1] = "no such prototype"
    elif b == "nospec":
        # the alias in a config names an archetype that is not among the specs
        a = find(facs[0], "config")[0][1][0][0]
        sp = find(t, "archetypes")[0]
        sp[1] = [x for x in sp[1] if (find(x, "alias") or find(x, "name"))[0][1] != a]
        if not sp[1]:
            return None
    elif b == "truncate":
        return t
    else:
        return None
    return t


# ---- writers
def txt(v, rnd):
    if isinstance(v, bool):
        return rnd.choice(["true", "1"] if v else ["false", "0"]) if rnd else str(v).lower()
    if isinstance(v, (int, float)):
        x = repr(v)
        if rnd:
            r = rnd.randrange(6)
            if r == 0:
                x = rnd.choice([" ", "\n", "\t  "]) + x + rnd.choice(["", " ", "\n  "])
            elif r == 1 and isinstance(v, float):
                x = "%.17e" % v
            elif r == 2 and isinstance(v, int):
                x = "0" * rnd.randrange(3) + x
            elif r == 3:
                x = "+" + x if v > 0 else x
        return x
    return v


def esc(x, rnd):
    o = ""
    for ch in x:
        if ch in "&<>":
            o += {"&": "&amp;", "<": "&lt;", ">": "&gt;"}[ch]
        elif ch in "\"'" and rnd and rnd.random() < .5:
            o += {"\"": "&quot;", "'": "&apos;"}[ch]
        elif rnd and not ch.isspace() and rnd.random() < .05:
            o += "&#%d;" % ord(ch) if rnd.random() < .5 else "&#x%x;" % ord(ch)
        else:
            o += ch
    return o


def shuffled(ch, rnd):
    """a random order that keeps siblings of one name in their order"""
    if not rnd or rnd.random() < .5:
        return ch
    names = [x[0] for x in ch]
    rnd.shuffle(names)
    q = {}
    for x in ch:
        q.setdefault(x[0], []).append(x)
    out = [q[n].pop(0) for n in names]
    return out


def xml(t, rnd, top=True):
    def com():
        return rnd.choice(["<!-- c -->", "<!-- a\n b -->"]) if rnd and rnd.random() < .1 else ""

    def nl(d):
        return "" if rnd and style == 1 else ("\r\n" if rnd and style == 2 else "\n") + "  " * d

    def w(t, d):
        n, v = t
        if isinstance(v, list):
            if not v:
                return "<%s/>" % n if not rnd or rnd.random() < .5 else "<%s></%s>" % (n, n)
            o = "<%s>" % n
            for x in shuffled(v, rnd):
                o += nl(d + 1) + com() + w(x, d + 1) + com()
            return o + nl(d) + "</%s>" % n
        return "<%s>%s</%s>" % (n, esc(txt(v, rnd), rnd), n)
    style = rnd.randrange(3) if rnd else 0
    o = w(t, 0)
    if rnd and rnd.random() < .5:
        o = '<?xml version="1.0"?>\n<!-- start -->\n' + o + "\n"
    return o


def grouped(ch):
    o = {}
    for n, v in ch:
        o.setdefault(n, []).append(v)
    return o


def tojson(t, rnd):
    """the JSON form of a tree: repeated names become arrays"""
    def val(v):
        if isinstance(v, list):
            if not v:
                return None
            ks = grouped(shuffled(v, rnd))
            return {k: val(x[0]) if len(x) == 1 and not (rnd and rnd.random() < .3) else [val(y) for y in x] for k, x in ks.items()}
        if isinstance(v, (bool, int, float)):
            if not rnd or rnd.random() < .5:
                return v
            return txt(v, rnd)
        return v
    d = {t[0]: val(t[1])}
    return json.dumps(d, ensure_ascii=bool(rnd and rnd.random() < .5), indent=rnd.choice([None, 1, 4]) if rnd else None)


# ---- oracle
CYL = 1e299


def expected(c, masses):
    o = c["opt"]
    e = {}
    e["info"] = [c["dur"], c["y0"], c["m0"], hx(o.get("simhandle", "")), hx(o.get("decay", "manual")), o.get("dt", 2629846),
                 o.get("tolerance_generic", 1e-6), o.get("tolerance_resource", 1e-6), int(o.get("explicit_inventory", False)),
                 int(o.get("explicit_inventory_compact", False)), o.get("seed", 20160212), o.get("stride", 1)]
    return e


def parse(lines):
    """the loads: list of (status, detail, lines)"""
    out, cur = [], None
    for ln in lines:
        if ln.startswith("LOAD ") and ln.split()[1].isdigit():
            cur = {"st": "none", "l": []}
            out.append(cur)
        elif ln == "LOADED":
            cur["st"] = "ok"
        elif ln.startswith("LOAD FAILED"):
            p = ln.split()
            cur["st"], cur["msg"] = "refused", "%s: %s" % (p[2], unhx(p[3]) if isinstance(unhx(p[3]), str) else unhx(p[3]).decode(errors="replace"))
        elif ln.startswith("LOAD CRASHED") or ln.startswith("LOAD EXIT"):
            cur["st"], cur["msg"] = "crashed", ln
        elif cur is not None and ln:
            cur["l"].append(ln.split(" "))
    return out


def by(ls, k):
    return [t[1:] for t in ls if t[0] == k]


def feq(a, b, tol=0.0):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b))


def rowd(t):
    d = {}
    for part in " ".join(t).split(" | ")[1:]:
        p = part.split(" ")
        d[p[0]] = " ".join(p[1:])
    return t[1], d


def judge(c, ld, masses, flat, what):
    def bad(m):
        raise Violation("%s: %s" % (what, m))
    ls = ld["l"]
    o = c["opt"]
    t = by(ls, "info")[0]
    got = t[:6] + [unfl(t[6]), unfl(t[7])] + t[8:]
    want = [str(c["dur"]), str(c["y0"]), str(c["m0"]), hx(o.get("simhandle", "")), hx(o.get("decay", "manual")), str(o.get("dt", 2629846)),
            o.get("tolerance_generic", 1e-6), o.get("tolerance_resource", 1e-6), str(int(o.get("explicit_inventory", False))),
            str(int(o.get("explicit_inventory_compact", False))), str(o.get("seed", 20160212)), str(o.get("stride", 10000))]
    if got != want:
        bad("control parameters %s instead of %s" % (got, want))
    t = by(ls, "eps")[0]
    if [unfl(t[0]), unfl(t[1])] != want[6:8]:
        bad("tolerances in force %s instead of %s" % (t, want[6:8]))
    # solver
    so = c["solver"] or {"k": "none"}
    name = "coin-or" if so["k"] == "coin-or" else "greedy"
    ex = so.get("excl")
    t = by(ls, "solver")[0]
    if t != [hx(name), str(int(True if ex is None else ex))]:
        bad("solver %s" % t)
    if name == "coin-or":
        t = by(ls, "coin")[0]
        w = [float(so["timeout"] if so["timeout"] else -1), int(bool(so["verbose"])), int(bool(so["mps"]))]
        if [unfl(t[0]), int(t[1]), int(t[2])] != w:
            bad("coin-or settings %s instead of %s" % (t, w))
    else:
        if by(ls, "greedy")[0] != [hx("greedy")]:
            bad("preconditioner %s" % by(ls, "greedy")[0])
        mx = max([p for _, p in c["commods"]] + [-1.0])
        mx = 0.0 if mx < 1 else mx
        pr = {hx(n): (p if p >= 1 else mx + 1) for n, p in c["commods"]}
        for a, b, qa, qb in by(ls, "ORDER"):
            if pr[a] != pr[b]:
                w = (1.0, 0.0) if pr[a] < pr[b] else (0.0, 1.0)
                if (unfl(qa), unfl(qb)) != w:
                    bad("of commodities %s (solution priority %s) and %s (%s), the solver served %s and %s" % (a, pr[a], b, pr[b], unfl(qa), unfl(qb)))
    # recipes
    got = {t[0]: {int(t[2 + 2 * i]): unfl(t[3 + 2 * i]) for i in range(int(t[1]))} for t in by(ls, "recipe")}
    want = {}
    for n, b, fr in c["recipes"]:
        m = {NUCS[i][0]: x * (masses[NUCS[i][0]] if b == "atom" else 1.0) for i, _, x in fr}
        tot = sum(m.values())
        want[hx(n)] = {k: v / tot for k, v in m.items()}
    if set(got) != set(want):
        bad("recipes %s instead of %s" % (sorted(got), sorted(want)))
    for n in want:
        if set(got[n]) != set(want[n]) or any(not feq(got[n][k], want[n][k], 1e-9) for k in want[n]):
            bad("recipe %s is %s instead of %s" % (n, got[n], want[n]))
    # packages and transport units
    got = {t[0]: [unfl(t[1]), unfl(t[2]), t[3]] for t in by(ls, "pkg")}
    eps = o.get("tolerance_generic", 1e-6)
    want = {hx(n): [eps if lo is None else lo, 1.7976931348623157e308 if hi is None else hi, st or "first"] for n, lo, hi, st in c["pkgs"]}
    got = {k: v for k, v in got.items() if k in want or k != hx("unpackaged")}
    if got != want:
        bad("packages %s instead of %s" % (got, want))
    got = {t[0]: [int(t[1]), int(t[2]), t[3]] for t in by(ls, "tu")}
    want = {hx(n): [lo or 0, 2 ** 31 - 1 if hi is None else hi, st or "first"] for n, lo, hi, st in c["tus"]}
    got = {k: v for k, v in got.items() if k in want or k != hx("unrestricted")}
    if got != want:
        bad("transport units %s instead of %s" % (got, want))
    # prototypes
    kinds = {"NullRegion": "Region", "NullInst": "Inst", "Source": "Facility", "Sink": "Facility"}
    allp = {}
    for f in c["facs"]:
        allp[hx(f["name"])] = (f["k"], f["life"], f["conf"])
    for r in c["regions"]:
        allp[hx(r["name"])] = ("NullRegion", r["life"], {})
        for i in r["insts"]:
            allp[hx(i["name"])] = ("NullInst", i["life"], {})

    def aline(t):
        return {"id": int(t[0]), "proto": t[1], "spec": t[2], "kind": t[3], "parent": int(t[4]), "life": int(t[5]), "enter": int(t[6])}

    def chk(a, w):
        k, life, _ = allp[a["proto"]]
        if not a["spec"].endswith(":" + k) or a["kind"] != kinds[k] or a["life"] != (-1 if life is None else life):
            bad("%s %s instead of archetype %s, lifetime %s" % (w, a, k, life))
    protos = [aline(t) for t in by(ls, "proto")]
    if sorted(a["proto"] for a in protos) != sorted(allp):
        bad("prototypes %s instead of %s" % (sorted(a["proto"] for a in protos), sorted(allp)))
    for a in protos:
        chk(a, "prototype")
    # agents
    ags = {a["id"]: a for a in (aline(t) for t in by(ls, "agent"))}
    want = []
    for r in c["regions"]:
        want.append((hx(r["name"]),))
        for i in r["insts"]:
            want.append((hx(r["name"]), hx(i["name"])))
            for f, n in i["init"]:
                want += [(hx(r["name"]), hx(i["name"]), hx(c["facs"][f]["name"]))] * n
    got = []
    for k in sorted(ags):
        p, a = [], ags[k]
        chk(a, "agent")
        if a["enter"] != 0:
            bad("agent entered at %d" % a["enter"])
        while True:
            p.insert(0, a["proto"])
            if a["parent"] == -1:
                break
            a = ags[a["parent"]]
        got.append(tuple(p))
    if (sorted(got) != sorted(want)) if flat else (got != want):
        bad("agents %s instead of %s" % (got, want))
    # state of the agents and of one more agent of each prototype
    for t in by(ls, "made"):
        a = aline(t)
        ags[a["id"]] = a
    seen = set()
    for t in ls:
        if t[0] != "ROW":
            continue
        n, d = rowd(t)
        for k, sv in (("Source", ("commod", "recipe_name")), ("Sink", ("recipe_name",))):
            if n == "AgentState_agents_%sInfo" % k:
                aid = int(d["AgentId"].split(" ")[1])
                seen.add(aid)
                cf = allp[ags[aid]["proto"]][2]
                for v in sv:
                    if d[v].split(" ")[1] != hx(cf.get(v, "")):
                        bad("%s of agent %d (%s) is %s instead of %s" % (v, aid, ags[aid]["proto"], d[v], hx(cf.get(v, ""))))
                for v in ("capacity",) + (("max_inv_size",) if k == "Sink" else ()):
                    if unfl(d[v].split(" ")[1]) != cf.get(v, CYL):
                        bad("%s of agent %d is %s instead of %r" % (v, aid, d[v], cf.get(v, CYL)))
                if k == "Sink":
                    p = d["in_commods"].split(" ")
                    if p[2:] != [hx(x) for x in cf["in_commods"]] and p[1:] != [hx(x) for x in cf["in_commods"]]:
                        bad("in_commods of agent %d is %s instead of %s" % (aid, d["in_commods"], [hx(x) for x in cf["in_commods"]]))
    for a in ags.values():
        if allp[a["proto"]][0] in ("Source", "Sink") and a["id"] not in seen:
            bad("no state was saved for agent %s" % a)


def jtree(t):
    """what the JSON form of a document has to contain: texts as strings"""
    if isinstance(t[1], list):
        if not t[1]:
            return None
        return {k: [jtree([k, y]) for y in x] if len(x) > 1 else jtree([k, x[0]]) for k, x in grouped(t[1]).items()}
    return txt(t[1], None)


def etree(e):
    ch = list(e)
    if ch:
        return {k: v if len(v) > 1 else v[0] for k, v in
                ((k, [etree(x) for x in ch if x.tag == k]) for k in {x.tag for x in ch})}
    return e.text


def gen_tree(s, d=0):
    """any document tree: names that repeat, empty elements in all places, texts and numbers"""
    n = s.pick(["a", "val", "item", "x_1"]) if d else "doc"
    if d == 0 or (d < 4 and s.bool(0.45)):
        ch = []
        for _ in range(s.int(1, 5) if s.bool(0.95) else s.int(9, 14)):
            ch.append(ch[-1][:1] + gen_tree(s, d + 1)[1:] if ch and s.bool(0.4) else gen_tree(s, d + 1))
        return [n, ch]
    return [n, s.weighted([(2, []), (3, s.pick(WORDS)), (1, s.int(-5, 2000000000)), (1, num(s)), (0.5, s.bool())])]


def compare(plain, conv):
    """the translations against the tree they were made from"""
    t0, x0, j0 = plain
    try:
        j = json.loads(conv["x2j"])
    except ValueError as e:
        raise Violation("the JSON translation is not JSON (%s): %s" % (e, conv["x2j"][:300]))
    w = {t0[0]: jtree(t0)}
    if j != w:
        raise Violation("the JSON translation is %s instead of %s" % (json.dumps(j), json.dumps(w)))
    try:
        e = ET.fromstring(conv["j2x"])
    except ET.ParseError as ex:
        raise Violation("the XML translation is not XML (%s):\n%s" % (ex, conv["j2x"][:400]))

    def cmp(a, b, path):
        if isinstance(b, dict):
            if not isinstance(a, dict) or set(a) != set(b):
                raise Violation("the XML translation has %s at %s instead of %s" % (a, path, sorted(b)))
            for k in b:
                cmp(a[k], b[k], path + "/" + k)
        elif isinstance(b, list):
            if not isinstance(a, list) or len(a) != len(b):
                raise Violation("the XML translation has %s at %s instead of %s" % (a, path, b))
            for x, y in zip(a, b):
                cmp(x, y, path)
        elif isinstance(b, bool):
            if a not in (("true", "1") if b else ("false", "0")):
                raise Violation("the XML translation has %r at %s instead of %r" % (a, path, b))
        elif isinstance(b, (int, float)):
            if float(a) != b:
                raise Violation("the XML translation has %r at %s instead of %r" % (a, path, b))
        elif (a or None) != (b or None) and not (b is None and not (a or "").strip()):
            raise Violation("the XML translation has %r at %s instead of %r" % (a, path, b))
    cmp({e.tag: etree(e)}, json.loads(j0), "")


class C13(Prop):
    id = "C13"
    harnesses = ("h_input",)
    agents = True
    quick = 600
    thorough = 12000
    rule = ("a simulation description (control block, solver, commodities, 0-3 recipes, packages, transport units, 1-4 facility prototypes, 1-2 "
            "regions with 1-3 institutions and their initial facilities) written as XML and JSON, nested and flat, in random but equivalent ways "
            "(element order, white space, comments, character references, number formats, numbers or strings, single values or arrays), translated "
            "by the library both ways, and loaded; up to 3 arbitrary document trees with repeated and empty elements translated both ways; 30% of the cases are made invalid in one of 21 ways and must be refused; non-trivial: at least one "
            "optional section is there")
    assumptions = ("leaf texts hold no comments or CDATA sections and do not begin or end with white space, except for numbers",
                   "no decay and no Python input")

    def gen(self, s):
        c = gen(s)
        c["trees"] = [gen_tree(s) for _ in range(s.int(0, 3))]
        return c

    def check(self, c, rig):
        env = {"CYCLUS_PATH": rig.built["agents"], "VERIF_SHARE": SHARE}
        rnd = random.Random(c["style"]) if c["style"] else None
        docs = []
        masses_l = "mass " + " ".join(str(n[0]) for n in NUCS)
        lines = ["order " + " ".join(hx(n) for n, _ in c["commods"])] if c["commods"] else []
        for kind in ("xml", "json", "flat", "flatjson"):
            t = tree(c, kind.startswith("flat"))
            if c["bad"]:
                t = spoil(c, t, kind.startswith("flat"))
                if t is None:
                    continue
            d = tojson(t, rnd) if kind.endswith("json") else xml(t, rnd)
            if c["bad"] == "truncate":
                d = d[:len(d) * (c["badn"] + 1) // 12]
            how = c["how"]
            docs.append((kind, d, t))
            lines.append("load %s %s %s" % (kind, how, hx(d)))
        plain = None
        if not c["bad"]:
            t0 = tree(c, False)
            plain = (t0, xml(t0, None), tojson(t0, None))
            lines.append("x2j " + hx(plain[1]))
            lines.append("j2x " + hx(plain[2]))
        trees = []
        for t in c.get("trees", []):
            trees.append((t, xml(t, None), tojson(t, None)))
            lines.append("x2j " + hx(trees[-1][1]))
            lines.append("j2x " + hx(trees[-1][2]))
        out = rig.run("h_input", "\n".join([masses_l] + lines) + "\n", env=env)
        masses = {int(x.split()[1]): unfl(x.split()[2]) for x in out if x.startswith("mass ")}
        loads = parse(out)
        if len(loads) != len(docs):
            raise HarnessError("%d loads of %d: %s" % (len(loads), len(docs), out[-3:]))
        labels = set()
        for (kind, d, t), ld in zip(docs, loads):
            if ld["st"] in ("crashed", "none"):
                raise Violation("loading the %s document crashed or hung: %s\n%s" % (kind, ld.get("msg"), d))
            if c["bad"]:
                if ld["st"] != "refused":
                    raise Violation("the %s document is invalid (%s) but was accepted:\n%s" % (kind, c["bad"], d))
                labels.add("refused:" + c["bad"])
            else:
                if ld["st"] != "ok":
                    raise Violation("the %s document was refused: %s\n%s" % (kind, ld["msg"], d))
                judge(c, ld, masses, kind.startswith("flat"), kind)
                labels.add("loaded:" + kind)
        convs = []
        for x in out:
            p = x.split()
            if p and p[0] in ("x2j", "j2x"):
                if p[1] == "FAILED":
                    raise Violation("%s failed on a valid document" % p[0])
                v = unhx(p[1])
                convs.append(v if isinstance(v, str) else v.decode("utf-8"))
        todo = ([plain] if plain else []) + trees
        if len(convs) != 2 * len(todo):
            raise HarnessError("%d translations of %d" % (len(convs), 2 * len(todo)))
        for k, t in enumerate(todo):
            compare(t, {"x2j": convs[2 * k], "j2x": convs[2 * k + 1]})
        if trees:
            labels.add("any tree")
        if not c["bad"]:
            conv = {"x2j": convs[0], "j2x": convs[1]}
            # and what was translated loads as the same simulation
            out = rig.run("h_input", "\n".join(lines[:1] if c["commods"] else []) + "\nload json text %s\nload xml text %s\n" % (hx(conv["x2j"]), hx(conv["j2x"])), env=env)
            for k, ld in zip(("translated to JSON", "translated to XML"), parse(out)):
                if ld["st"] != "ok":
                    raise Violation("%s: %s" % (k, ld.get("msg")))
                judge(c, ld, masses, False, k)
        nt = bool(c["bad"] or c["opt"] or c["commods"] or c["recipes"] or c["pkgs"] or c["tus"] or c["solver"])
        return Info(nt and bool(docs), labels)


PROP = C13()
