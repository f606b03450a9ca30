"""C21: the Python interface shows what the simulation has."""
import json
import os

from pbt import Prop, Info, Violation
import pylib
import vallib as V

SCHEMA = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "share", "cyclus.rng.in")
ORD = ("bool", "int", "float", "double", "str")
OPS = ["==", "!=", "<", "<=", ">", ">="]
# data base type names under which a type can also be given
DB = {"bool": ["BOOL"], "int": ["INT"], "float": ["FLOAT"], "double": ["DOUBLE"], "str": ["STRING", "VL_STRING"], "blob": ["BLOB"],
      "uuid": ["UUID"]}
for _c, _n in (("vec", "VECTOR"), ("set", "SET"), ("list", "LIST")):
    for _p in ("int", "float", "double", "blob", "uuid"):
        DB[json.dumps([_c, _p])] = [_n + "_" + _p.upper(), "VL_" + _n + "_" + _p.upper()]
    DB[json.dumps([_c, "str"])] = [_n + "_STRING", "VL_" + _n + "_VL_STRING", _n + "_VL_STRING"]
for _k in ("int", "str"):
    for _p in ("bool", "int", "float", "double", "blob", "uuid"):
        k = {"int": "INT", "str": "STRING"}[_k]
        for vk in ([k] if _k == "int" else ["STRING", "VL_STRING"]):
            DB.setdefault(json.dumps(["map", _k, _p]), []).extend(["MAP_%s_%s" % (vk, _p.upper()), "VL_MAP_%s_%s" % (vk, _p.upper())])
            DB.setdefault(json.dumps(["pair", _k, _p]), []).append("PAIR_%s_%s" % (vk, _p.upper()))


def tofl(t, v):
    """values as the harness reads them: doubles as hex texts"""
    if not isinstance(t, list):
        return float(v).hex() if t in ("double", "float") else v
    if t[0] == "pair":
        return [tofl(t[1], v[0]), tofl(t[2], v[1])]
    if t[0] in ("vec", "list", "set"):
        return [tofl(t[1], x) for x in v]
    return [[tofl(t[1], k), tofl(t[2], x)] for k, x in v]


def canon(t, v):
    """the form in which the harness reports a value"""
    if not isinstance(t, list):
        return v
    if t[0] == "pair":
        return [canon(t[1], v[0]), canon(t[2], v[1])]
    if t[0] in ("vec", "list"):
        return [canon(t[1], x) for x in v]
    if t[0] == "set":
        return sorted((canon(t[1], x) for x in v), key=json.dumps)
    return sorted(([canon(t[1], k), canon(t[2], x)] for k, x in v), key=json.dumps)


def plus(v):
    """SQLite keeps no sign of a zero"""
    return "0x0.0p+0" if v == "-0x0.0p+0" else v


def ok(t, op, a, b):
    if t in ("float", "double"):
        a, b = float.fromhex(a), float.fromhex(b)
    elif t == "str":
        a, b = a.encode("utf8"), b.encode("utf8")
    return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


def gen_rec(s):
    fileb = s.weighted([(5, None), (2, "sqlite"), (2, "h5")])
    pool = list(V.TYPES) if fileb != "sqlite" else V.SQLITE
    names = s.shuffle(["T0", "T1", "Resources", "tab_2"])[:s.int(1, 3)]
    tabs, vals = [], {}
    for n in names:
        cols = []
        for k in s.shuffle(["a", "b", "val0", "Time", "c1", "val1"])[:s.int(1, 4)]:
            t = V.TYPES[s.pick(pool)] if s.bool(0.6) else s.pick(["int", "double", "str", "bool", "float"])
            how = None
            # a fixed-length spelling needs a shape for a file, which is not given here
            alts = DB.get(t if not isinstance(t, list) else json.dumps(t), [])
            if fileb is None and alts and s.bool(0.5):
                how = s.pick(alts)
            cols.append([k, t, how])
        tabs.append([n, cols])
    backs = []
    if fileb:
        backs.append({"k": fileb})

    def registry():
        return s.weighted([(4, True), (1, False), (1, None), (4, s.shuffle(names)[:s.int(1, len(names))] + (["other"] if s.bool(0.2) else []))])
    for _ in range(1 if fileb else s.weighted([(4, 1), (1, 2)])):
        backs.append({"k": "mem", "reg": registry(), "fb": 0 if fileb and s.bool(0.6) else None})
    ops = []
    for _ in range(s.int(1, 25)):
        k = s.weighted([(10, "row"), (1, "flush"), (4, "query"), (1, "tables"), (1, "registry")])
        if k == "row":
            t = s.int(0, len(tabs) - 1)
            for _ in range(s.weighted([(3, 1), (1, 3)])):
                row = []
                for n, ty, _h in tabs[t][1]:
                    old = vals.setdefault((t, n), [])
                    v = s.pick(old) if old and s.bool(0.3) else tofl(ty, V.g_val(s, ty, {}))
                    old.append(v)
                    row.append(v)
                ops.append(["row", t, row])
        elif k == "flush":
            ops.append(["flush"])
        elif k == "query":
            t = s.int(0, len(tabs) - 1)
            conds = None
            if s.bool(0.6):
                conds = []
                cand = [c for c in tabs[t][1] if c[1] in ORD or c[1] == "uuid"]
                for _ in range(s.int(1, 3)):
                    if cand:
                        n, ty, _h = s.pick(cand)
                        old = vals.get((t, n), [])
                        v = s.pick(old) if old and s.bool(0.8) else tofl(ty, V.g_val(s, ty, {}))
                        conds.append([n, s.pick(OPS if ty in ORD else OPS[:2]), v])
                conds = conds or s.pick([None, []])
            ops.append(["query", s.int(0, len(backs) - 1), tabs[t][0], conds])
        elif k == "tables":
            ops.append(["tables", s.int(0, len(backs) - 1)])
        else:
            m = [i for i, b in enumerate(backs) if b["k"] == "mem" and b["fb"] is None]
            if m:
                ops.append(["registry", s.pick(m), registry()])
    for i in range(len(backs)):
        for n, _c in tabs:
            ops.append(["query", i, n, None])
    return {"kind": "rec", "inject": s.bool(0.3), "dump": s.pick([1, 2, 3, 7, 1000]), "tabs": tabs, "backs": backs, "ops": ops}


def check_rec(c, obs):
    o = iter(obs)

    def nxt(what):
        x = next(o, None)
        if x is None or x[0] != what:
            raise Violation("expected %s, got %s" % (what, x))
        return x
    sim = nxt("sim")
    if sim[2:] != [c["dump"], c["inject"]]:
        raise Violation("the recorder reports %s, expected %s" % (sim[2:], [c["dump"], c["inject"]]))
    rows = {n: [] for n, _ in c["tabs"]}
    cols = {n: (["SimId"] if c["inject"] else []) + [x[0] for x in cs] for n, cs in c["tabs"]}
    types = {n: (["uuid"] if c["inject"] else []) + [x[1] for x in cs] for n, cs in c["tabs"]}
    mem = [None if b["k"] != "mem" else {"reg": b["reg"], "rows": {}} for b in c["backs"]]
    pend = []
    labels = set()
    nq = 0

    def keeps(m, n):
        return m["reg"] is True or (isinstance(m["reg"], list) and n in m["reg"])

    def deliver():
        for m in mem:
            if m:
                for n, r in pend:
                    if keeps(m, n):
                        m["rows"].setdefault(n, []).append(r)
        for n, r in pend:
            rows[n].append(r)
        pend.clear()
    for i, op in enumerate(c["ops"]):
        where = "operation %d %s" % (i, op[:4])
        if op[0] == "row":
            n, cs = c["tabs"][op[1]]
            r = [canon(t, v) for (_, t, _h), v in zip(cs, op[2])]
            pend.append((n, ([sim[1]] if c["inject"] else []) + r))
            if len(pend) == c["dump"]:
                deliver()
        elif op[0] == "flush":
            deliver()
        elif op[0] == "tables":
            deliver()
            m = mem[op[1]]
            x = nxt("tables")[1]
            if m:
                have = sorted(m["rows"])
                b = c["backs"][op[1]]
                if b["fb"] is not None:   # tables looked up elsewhere may have been kept
                    bad = not set(have) <= set(x) or not set(x) <= set(rows)
                else:
                    bad = x != have
            else:
                have = sorted(n for n in rows if rows[n])
                bad = not set(have) <= set(x)
            if bad:
                raise Violation("%s: tables %s, expected %s" % (where, x, have))
        elif op[0] == "registry":
            deliver()
            m = mem[op[1]]
            m["reg"] = op[2]
            for n in list(m["rows"]):
                if not keeps(m, n):
                    del m["rows"][n]
                    labels.add("table dropped")
            x = nxt("registry")
            want = ["registry", sorted(set(op[2])) if isinstance(op[2], list) else [], op[2] is True]
            if x != want:
                raise Violation("%s: %s, expected %s" % (where, x, want))
        else:
            deliver()
            m = mem[op[1]]
            n = op[2]
            x = next(o, None)
            if m is None or (c["backs"][op[1]]["fb"] is not None):
                have = rows[n]   # a file, or a memory that looks up what it does not keep in a file
                none = not have
                if have and m and not keeps(m, n):
                    labels.add("looked up in the file")
            else:
                have = m["rows"].get(n)
                none = have is None
            if none:   # no such table: nothing, or an error from a file
                if x not in (["rows", None],) and x[:2] != ["error", "RuntimeError"] and not (m is None and x[0] == "rows" and not x[1][1]):
                    raise Violation("%s: the table has no rows, got %s" % (where, x))
                continue
            want = have
            if op[3] is not None:
                for f, cmp, v in op[3]:
                    k = cols[n].index(f)
                    want = [r for r in want if ok(types[n][k], cmp, r[k], v)]
                labels.add("conditions select some" if 0 < len(want) < len(have) else "conditions select all or none")
            if x is None or x[0] != "rows" or x[1] is None:
                raise Violation("%s: expected %d rows, got %s" % (where, len(want), x))
            gc, gr = x[1]
            sq = any(b["k"] == "sqlite" for b in c["backs"])
            if gc != cols[n]:
                raise Violation("%s: columns %s, expected %s" % (where, gc, cols[n]))
            if len(gr) != len(want):
                raise Violation("%s: %d rows, expected %d" % (where, len(gr), len(want)))
            for j, (a, b) in enumerate(zip(gr, want)):
                for f, t, u, v in zip(gc, types[n], a, b):
                    if u != v and not (sq and t in ("double", "float") and plus(u) == plus(v)):
                        raise Violation("%s: row %d column %s (%s): %s, recorded was %s" % (where, j, f, t, u, v))
            nq += len(want) > 1
            if c["backs"][op[1]]["k"] != "mem" and want:
                labels.add(c["backs"][op[1]]["k"])
    nxt("end")
    return Info(nq > 0, sorted(labels))


# ---- simulations with archetypes written in Python
PRIMS = ["int", "double", "str", "bool", "int", "double", "str"]
CONTS = [["vec", "int"], ["vec", "double"], ["vec", "str"], ["set", "int"], ["set", "str"], ["list", "int"], ["list", "str"],
         ["map", "int", "double"], ["map", "str", "double"], ["map", "str", "int"], ["map", "str", "str"], ["map", "int", "int"]]
H5ONLY = [["pair", "int", "double"], ["pair", "str", "int"], ["pair", "double", "double"], ["set", "double"], ["list", "double"]]
_pss = ["pair", "int", ["pair", "str", "str"]]
_psv = ["pair", "str", ["vec", "double"]]
_pdm = ["pair", "double", ["map", "int", "double"]]
_ppm = ["pair", ["pair", "double", "double"], ["map", "str", "double"]]
NESTED = [["map", ["pair", "int", "str"], "double"], ["map", "str", ["vec", "double"]], ["map", "str", ["map", "int", "double"]],
          ["map", "str", _pdm], ["map", "int", ["map", "str", "double"]], ["map", "str", ["vec", _pss]], ["map", "str", _psv],
          ["map", "str", ["map", "str", "int"]], ["vec", _ppm], _pss, _ppm, _pdm, ["vec", _pss], _psv, ["map", ["pair", "str", "str"], "int"],
          ["map", "str", ["map", "str", "double"]], ["list", ["pair", "int", "int"]]]
TEXTS = ["a", "fuel", "uox 1", "A&B", "x<y", "n-1", "_z", "\u00fc", "1", "true"]


def sim_val(s, t, empty=False):
    if not isinstance(t, list):
        return {"int": lambda: s.int(-50, 2000), "double": lambda: float(s.int(-400, 4000) / 8.0).hex(), "str": lambda: s.pick(TEXTS),
                "bool": lambda: s.bool()}[t]()
    if t[0] == "pair":
        return [sim_val(s, t[1]), sim_val(s, t[2])]
    n = s.int(0 if empty else 1, 12 if s.bool(0.1) else 4)
    if t[0] in ("vec", "list"):
        return [sim_val(s, t[1]) for _ in range(n)]
    if t[0] == "set":
        return list({json.dumps(v): v for v in (sim_val(s, t[1]) for _ in range(n))}.values())
    return [[k, sim_val(s, t[2])] for k in {json.dumps(v): v for v in (sim_val(s, t[1]) for _ in range(n))}.values()]


def g_alias(s, t, a):
    """element names for a variable of type t, in part left to the defaults"""
    if not isinstance(t, list):
        return a
    sub = [g_alias(s, x, n) if s.bool() else None for x, n in zip(t[1:], {"pair": "kw", "map": "kw"}.get(t[0], "e"))]
    if t[0] != "map":
        return [a] + sub
    return [s.pick([a, [a, "it"], [a, None]])] + sub


def gen_sim(s):
    out = s.pick(["h5", "sqlite"])
    conts = CONTS + (H5ONLY if out == "h5" else [])
    classes = []

    def clsvars():
        vs = []
        for k in range(s.int(0, 5)):
            t = s.pick(PRIMS) if s.bool(0.5) else s.pick(conts) if out != "h5" or s.bool(0.7) else s.pick(NESTED)
            default = sim_val(s, t, True) if s.bool(0.6) else None
            n = s.pick(["x", "my_var", "zeta", "B", "val"]) + str(k)
            alias = g_alias(s, t, "al%d" % k) if s.bool(0.35) else None
            vs.append([n, t, default, alias])
        return vs
    for k in range(s.int(1, 3)):
        vs = clsvars()
        upd = [v[0] for v in vs if v[1] in ("int", "str", ["vec", "int"]) and s.bool()]
        classes.append({"name": "F%d" % k, "kind": "fac", "vars": vs, "upd": upd})
    prod = s.bool(0.4)
    trade = s.bool(0.5)
    if trade:
        classes.append({"name": "Sell", "kind": "fac", "vars": [], "upd": [], "trade": "sell", "prod": prod})
        classes.append({"name": "Buy", "kind": "fac", "vars": [], "upd": [], "trade": "buy", "prod": prod})
    ik = s.bool(0.4)
    rk = s.bool(0.3)
    if ik:
        classes.append({"name": "I0", "kind": "inst", "vars": clsvars(), "upd": []})
    if rk:
        classes.append({"name": "R0", "kind": "region", "vars": clsvars(), "upd": []})
    dur = s.int(1, 6)
    protos = []

    def values(c):
        return {n: sim_val(s, t) for n, t, d, a in c["vars"] if d is None or s.bool()}
    for k in range(s.int(1, 4)):
        c = s.pick([x for x in classes if x["kind"] == "fac" and "trade" not in x])
        protos.append({"name": "p%d" % k, "cls": c["name"], "life": s.pick([None, s.int(1, 8)]), "vals": values(c)})
    if trade:
        for k in range(s.int(1, 2)):
            protos.append({"name": "s%d" % k, "cls": "Sell", "life": s.pick([None, s.int(1, 8)]), "vals": {},
                           "commod": s.pick(["A", "B"]), "cap": s.int(1, 40) / 4.0})
        for k in range(s.int(1, 2)):
            protos.append({"name": "b%d" % k, "cls": "Buy", "life": s.pick([None, s.int(1, 8)]), "vals": {},
                           "commod": s.pick(["A", "B"]), "cap": s.int(1, 40) / 4.0, "size": s.int(1, 160) / 4.0})
    insts = [{"name": "i%d" % k, "cls": "I0" if ik else None, "facs": [[p["name"], s.int(1, 2)] for p in protos if s.bool(0.7)]}
             for k in range(s.int(1, 2))]
    for i in insts:
        i["vals"] = values(next(x for x in classes if x["name"] == "I0")) if ik else {}
    reg = {"name": "r", "cls": "R0" if rk else None}
    reg["vals"] = values(next(x for x in classes if x["name"] == "R0")) if rk else {}
    registry = s.weighted([(3, True), (2, ["AgentEntry", "Info"]), (1, ["Transactions", "AgentState_vmod_F0Info"]), (1, False)])
    return {"kind": "sim", "out": out, "classes": classes, "protos": protos, "insts": insts, "region": reg, "dur": dur, "reg": registry,
            "expl": s.bool(0.4)}


def xesc(x):
    return x.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def xval(t, v):
    if t == "double":
        return repr(float.fromhex(v))
    if t == "bool":
        return "true" if v else "false"
    return xesc(str(v))


def el(n, x):
    return "<%s>%s</%s>" % (n, x, n)


def xvar(n, t, alias, v):
    if not isinstance(t, list):
        return el(alias or n, xval(t, v))
    a = [alias] if isinstance(alias, str) else alias or [n]
    a = a + [None] * (len(t) - len(a))
    top, item = (a[0], "item") if not isinstance(a[0], list) else (a[0][0], a[0][1] or "item")
    top = top or n
    if t[0] in ("vec", "set", "list"):
        return el(top, "".join(xvar("val", t[1], a[1], x) for x in v))
    if t[0] == "pair":
        return el(top, xvar("first", t[1], a[1], v[0]) + xvar("second", t[2], a[2], v[1]))
    return el(top, "".join(el(item, xvar("key", t[1], a[1], k) + xvar("val", t[2], a[2], x)) for k, x in v))


def sim_xml(c):
    cl = {x["name"]: x for x in c["classes"]}

    def conf(cls, o, null):
        if cls is None:
            return el("config", "<%s/>" % null)
        x = "".join(xvar(n, t, a, o["vals"][n]) for n, t, d, a in cl[cls]["vars"] if n in o["vals"])
        for k in ("commod", "cap", "size"):
            if k in o:
                x += el(k, str(o[k]))
        return el("config", el(cls, x))
    used = [x["name"] for x in c["classes"]]
    o = el("control", el("duration", c["dur"]) + el("startmonth", 1) + el("startyear", 2000) + el("decay", "never") +
           (el("explicit_inventory", 1) if c["expl"] else ""))
    o += el("archetypes", "".join(el("spec", el("lib", "vmod") + el("name", n)) for n in used) +
            "".join(el("spec", el("lib", "cyclus.pyagents") + el("name", n)) for n in ("NullRegion", "NullInst")))
    for p in c["protos"]:
        o += el("facility", el("name", p["name"]) + (el("lifetime", p["life"]) if p["life"] else "") + conf(p["cls"], p, None))
    r = el("name", c["region"]["name"]) + conf(c["region"]["cls"], c["region"], "NullRegion")
    for i in c["insts"]:
        x = el("name", i["name"])
        if i["facs"]:
            x += el("initialfacilitylist", "".join(el("entry", el("prototype", n) + el("number", k)) for n, k in i["facs"]))
        r += el("institution", x + conf(i["cls"], i, "NullInst"))
    return el("simulation", o + el("region", r))


def check_sim(c, obs):
    def bad(m):
        raise Violation(m)
    if not obs or obs[-1] != ["end"]:
        bad("the simulation failed: %s" % (obs[-1:] or "nothing"))
    cl = {x["name"]: x for x in c["classes"]}
    dur = c["dur"]
    tabs = {o[1]: o[2:] for o in obs if o[0] == "table"}

    def rows(n):
        if n not in tabs:
            return []
        cols, rs = tabs[n][:2]
        return [dict(zip(cols, r)) for r in rs]
    labels = {c["out"]}
    # what the memory shows is what the file has
    t = next(o for o in obs if o[0] == "tables")
    keep = set(t[1]) if c["reg"] is True else set(c["reg"]) & set(t[1]) if c["reg"] else set()
    for n, (fc, fr, mc, mr) in tabs.items():
        if n in ("InputFiles",):
            continue
        if mc != fc or mr != fr:
            k = next((i for i, (a, b) in enumerate(zip(fr, mr or [])) if a != b), min(len(fr), len(mr or [])))
            bad("table %s: in memory %s %s, in the file %s %s" % (n, mc, (mr or [])[k:k + 1], fc, fr[k:k + 1]))
    if not keep <= set(t[2]):
        bad("the memory lists the tables %s, the file %s" % (t[2], t[1]))
    # every agent entered once, with its parent, lives as long as it should and is called in every step
    entry = rows("AgentEntry")
    want = [(c["region"]["name"], -1, "Region", -1)]
    by = {e["AgentId"]: e for e in entry}
    pname = {e["AgentId"]: e["Prototype"] for e in entry}
    for i in c["insts"]:
        want.append((i["name"], c["region"]["name"], "Inst", -1))
        for p, n in i["facs"]:
            pr = next(x for x in c["protos"] if x["name"] == p)
            want += [(p, i["name"], "Facility", pr["life"] or -1)] * n
    got = sorted((e["Prototype"], pname.get(e["ParentId"], -1), e["Kind"], e["Lifetime"]) for e in entry)
    if sorted(want, key=str) != sorted(got, key=str):
        bad("the agents that entered are %s, expected %s" % (got, sorted(want, key=str)))
    spec = {p["name"]: p for p in c["protos"]}
    spec.update({i["name"]: dict(i, life=None) for i in c["insts"]})
    spec[c["region"]["name"]] = dict(c["region"], life=None)
    calls = {}
    kids, gone = {}, {}
    invs = {}
    for o in obs:
        if o[0] in ("tick", "tock", "decision"):
            calls.setdefault(o[1], {}).setdefault(o[0], []).append(o)
        elif o[0] == "child":
            kids[o[1]] = kids.get(o[1], 0) + 1
        elif o[0] == "childgone":
            gone[o[1]] = gone.get(o[1], 0) + 1
        elif o[0] == "inv":
            invs.setdefault(o[1], []).append(o)
    builds = {}
    for o in obs:
        if o[0] == "build":
            builds.setdefault(o[1], []).append(o)
    for a, e in by.items():
        p = spec[e["Prototype"]]
        if p["cls"] is None:
            continue
        k = cl[p["cls"]]
        w = "agent %d (%s, %s)" % (a, e["Prototype"], p["cls"])
        if e["Spec"] != ":vmod:" + p["cls"]:
            bad("%s: spec %s" % (w, e["Spec"]))
        life = dur if p["life"] is None else min(dur, p["life"])
        cs = calls.get(a, {})
        for f in ("tick", "tock", "decision"):
            ts = [o[3] for o in cs.get(f, [])]
            if ts != list(range(life)):
                bad("%s: %s called at %s, expected %s" % (w, f, ts, list(range(life))))
        b = builds.get(a, [])
        if [x[3] for x in b] != [None if e["ParentId"] == -1 else e["ParentId"]]:
            bad("%s: built %s, the parent is %d" % (w, b, e["ParentId"]))
        now = {n: canon(t, p["vals"][n] if n in p["vals"] else d) for n, t, d, _a in k["vars"]}
        tys = {n: t for n, t, _d, _a in k["vars"]}
        last = None
        for i in range(life):
            o = cs["tick"][i]
            if dict(o[4]) != now:
                bad("%s: at step %d its variables are %s, expected %s" % (w, i, o[4], now))
            if o[5:] != [p["life"] or -1, 0, e["ParentId"]]:
                bad("%s: lifetime, time of entry and parent are %s, expected %s" % (w, o[5:], [p["life"] or -1, 0, e["ParentId"]]))
            for n in k["upd"]:
                now[n] = now[n] + (1 if tys[n] == "int" else "+" if tys[n] == "str" else [i])
            if dict(cs["tock"][i][4]) != now:
                bad("%s: at the end of step %d its variables are %s, expected %s" % (w, i, cs["tock"][i][4], now))
            last = now
        if k["vars"]:
            st = [r for r in rows("AgentState_vmod_%sInfo" % p["cls"]) if r["AgentId"] == a]
            first = {n: canon(t, p["vals"][n] if n in p["vals"] else d) for n, t, d, _a in k["vars"]}
            for r, x in [(st[0], first)] + ([(st[-1], last)] if life == dur and p["life"] is None else []) if st else []:
                for n, t, d, _a in k["vars"]:
                    if norm2(t, r[n]) != x[n]:
                        bad("%s: recorded %s = %s, it has %s" % (w, n, r[n], x[n]))
            if not st:
                bad("%s: no recorded state" % w)
            labels.add("variables")
        if k["kind"] != "fac":
            labels.add("Python " + k["kind"])
            ch = [x for x in entry if x["ParentId"] == a]
            if kids.get(a, 0) != len(ch):
                bad("%s: told of %d children, has %d" % (w, kids.get(a, 0), len(ch)))
            dead = sum(1 for x in ch if x["Lifetime"] != -1 and x["Lifetime"] <= dur)
            if gone.get(a, 0) != dead:
                bad("%s: told of %d children that left, %d did" % (w, gone.get(a, 0), dead))
    exits = sorted((e["AgentId"], e["ExitTime"]) for e in rows("AgentExit"))
    wexit = sorted((a, e["Lifetime"] - 1) for a, e in by.items() if e["Lifetime"] != -1 and e["Lifetime"] <= dur)
    if exits != wexit:
        bad("exits %s, expected %s" % (exits, wexit))
    # trades: what is shipped fits the offers and arrives
    res = {r["ResourceId"]: r for r in rows("Resources")}
    ship, take = {}, {}
    for x in rows("Transactions"):
        r = res[x["ResourceId"]]
        q = float.fromhex(r["Quantity"])
        s_, b_ = spec[pname[x["SenderId"]]], spec[pname[x["ReceiverId"]]]
        if s_.get("cls") != "Sell" or b_.get("cls") != "Buy" or not (s_["commod"] == b_["commod"] == x["Commodity"]):
            bad("a trade of %s from %s to %s" % (x["Commodity"], s_["name"], b_["name"]))
        if r["Type"] != ("Product" if cl["Sell"]["prod"] else "Material"):
            bad("a trade of a %s" % r["Type"])
        ship.setdefault((x["Time"], x["SenderId"]), []).append(q)
        take.setdefault((x["Time"], x["ReceiverId"]), []).append(q)
    have = {}
    for t_ in range(dur):
        for com in ("A", "B"):
            sup = dem = traded = 0.0
            for a, e in by.items():
                p = spec[e["Prototype"]]
                if p.get("commod") != com or (p["life"] is not None and p["life"] <= t_):
                    continue
                if p["cls"] == "Sell":
                    q = sum(ship.get((t_, a), []))
                    sup += p["cap"]
                    if q > p["cap"] + 1e-6:
                        bad("step %d: agent %d ships %g, it has %g" % (t_, a, q, p["cap"]))
                else:
                    q = sum(take.get((t_, a), []))
                    m = min(p["cap"], p["size"] - have.get(a, 0.0))
                    m = 0.0 if m < 1e-9 else m
                    dem += m
                    traded += q
                    if q > m + 1e-6:
                        bad("step %d: agent %d receives %g, it asked for %g" % (t_, a, q, m))
                    have[a] = have.get(a, 0.0) + q
                    n_ = len(take.get((t_, a), []))
                    for o in [o for o in invs.get(a, []) if o[3] == t_]:
                        if abs(float.fromhex(o[4]) - have[a]) > 1e-6 or float.fromhex(o[6]) != p["size"]:
                            bad("step %d: the inventory of agent %d is %g of %g, it received %g of %g" %
                                (t_, a, float.fromhex(o[4]), float.fromhex(o[6]), have[a], p["size"]))
                    if n_ and not [o for o in invs.get(a, []) if o[3] == t_]:
                        bad("step %d: agent %d was not handed what it was sent" % (t_, a))
                    alive = p["life"] is None or p["life"] > t_ + 1
                    if c["expl"] and alive and not cl["Buy"]["prod"]:
                        x = sum(float.fromhex(r["Quantity"]) for r in rows("ExplicitInventory") if r["AgentId"] == a and r["Time"] == t_ and r["InventoryName"] == "inv")
                        if abs(x - have[a]) > 1e-6:
                            bad("step %d: recorded is an inventory of %g for agent %d, it holds %g" % (t_, x, a, have[a]))
                        if have[a]:
                            labels.add("explicit inventory")
                    if t_ == dur - 1 and alive:
                        x = [res[r["ResourceId"]] for r in rows("AgentStateInventories")
                             if r["AgentId"] == a and r["SimTime"] == dur and r["InventoryName"] == "inv"]
                        n_ = [len(v) for (u, k_), v in take.items() if k_ == a]
                        if len(x) != sum(n_) or abs(sum(float.fromhex(r["Quantity"]) for r in x) - have[a]) > 1e-6:
                            bad("at the end %s is recorded in the inventory of agent %d, it received %s (%g)" % (x, a, n_, have[a]))
                        if x:
                            labels.add("inventory at the end")
            if abs(traded - min(sup, dem)) > 1e-6:
                bad("step %d: %g of %s was traded, %g is offered and %g asked for" % (t_, traded, com, sup, dem))
            if traded > 0:
                labels.add("trades of %s" % ("products" if cl["Sell"]["prod"] else "materials"))
    return Info(any(n in calls for n in by), sorted(labels))


def norm2(t, v):
    """a value from a table in the form of canon"""
    return canon(t, v)


class C21(Prop):
    id = "C21"
    python = True
    agents = True
    quick = 1500
    thorough = 60000
    rule = ("1-3 tables of 1-4 columns over all types the interface supports, given by C++ or data base type, recorded from Python in "
            "batches of different sizes into 1-2 in-memory backends (keeping all, no or some tables, their registries changed on the "
            "way) and an SQLite or HDF5 file, queried from Python with 0-3 conditions; non-trivial: a query yields more than one row; 40% of the cases are simulations of 1-3 "
            "generated Python archetypes (0-5 state variables of primitive and nested types with defaults and aliases, a seller and a buyer "
            "of materials or products, Python institutions and regions) run in memory and to a file; non-trivial: an agent was called")
    assumptions = ("text and blobs contain no NUL", "registries are not changed for a memory backend that falls back to a file",
                   "get_*_requests and get_*_bids return a portfolio or a list of them; containers inside containers are not empty")

    def gen(self, s):
        return gen_rec(s) if s.bool(0.6) else gen_sim(s)

    def check(self, c, rig):
        if c["kind"] == "sim":
            return check_sim(c, pylib.run(rig, dict(c, xml=sim_xml(c), schema=SCHEMA)))
        return check_rec(c, pylib.run(rig, c))


PROP = C21()
