"""C20: whole simulations run with the executable: the same output again, and a balanced output."""
import json
import math
import os
import shutil
import subprocess
import tempfile
import xml.sax.saxutils as SX

from pbt import Prop, Info, Violation, HarnessError, hx, unhx

EPS = 1e-6
COM = ["ore", "fuel", "waste", "gas"]
NUC = [10010000, 922350000, 922380000, 942390000, 80160000]
RUN = {}


def recipe(s, i):
    ns = s.shuffle(NUC)[:s.int(1, 3)]
    return {"name": "rec%d" % i, "nucs": [[n, s.pick([1.0, 0.5, 2.0, 0.007, 3.25])] for n in ns]}


def amount(s):
    return s.pick([1.0, 2.5, 0.25, 10.0, 3.0, 7.125, 0.1, 1000.0, 0.001, 100.0 / 3])


def gen_fac(s, i, c):
    k = s.weighted([(4, "Source"), (4, "Sink"), (3, "KFacility")])
    f = {"name": "fac%d" % i, "kind": k, "life": s.weighted([(3, -1), (2, s.int(1, c["dur"] + 1))])}
    rec = [r["name"] for r in c["recipes"]]
    if k == "Source":
        f.update(commod=s.pick(COM), rec=s.pick([""] + rec), cap=amount(s))
    elif k == "Sink":
        f.update(ins=s.shuffle(COM)[:s.int(1, 3)], rec=s.pick([""] + rec), cap=amount(s), inv=s.weighted([(2, None), (1, amount(s) * s.int(1, 4))]))
    else:
        f.update(commod=s.pick(COM), ins=[s.pick(COM)], rec=s.pick(rec), icap=amount(s), cap=amount(s), inv=s.weighted([(2, None), (1, amount(s) * s.int(1, 4))]),
                 kin=s.pick([1.0, 2.0, 0.5, 1.25]), kout=s.pick([1.0, 0.5, 2.0, 1.25]))
    return f


def fac_config(f):
    k = f["kind"]
    if k == "Source":
        d = [["commod", f["commod"]]] + ([["recipe_name", f["rec"]]] if f["rec"] else []) + [["capacity", f["cap"]]]
    elif k == "Sink":
        d = [["in_commods", [["val", x] for x in f["ins"]]]] + ([["recipe_name", f["rec"]]] if f["rec"] else [])
        d += ([["max_inv_size", f["inv"]]] if f["inv"] is not None else []) + [["capacity", f["cap"]]]
    elif k == "KFacility":
        d = [["in_commod", f["ins"][0]], ["recipe_name", f["rec"]], ["out_commod", f["commod"]], ["in_capacity", f["icap"]], ["out_capacity", f["cap"]]]
        d += ([["max_inv_size", f["inv"]]] if f["inv"] is not None else []) + [["k_factor_in", f["kin"]], ["k_factor_out", f["kout"]]]
    elif k == "Prey":
        d = [["commod", f["commod"]], ["nchildren", f["nch"]], ["birth_freq", f["bf"]], ["birth_and_death", f["bd"]]]
    else:
        d = [["commod", f["commod"]], ["prey", f["prey"]], ["full", f["full"]], ["hunt_freq", f["hf"]], ["hunt_cap", f["hc"]], ["success", f["succ"]],
             ["lifespan", f["span"]], ["nchildren", f["nch"]], ["birth_and_death", f["bd"]]]
    return [[k, d]]


def tree(c):
    ctl = [["duration", c["dur"]], ["startmonth", c["m0"]], ["startyear", 2000], ["decay", "never"]]
    if c["expl"] & 1:
        ctl.append(["explicit_inventory", True])
    if c["expl"] & 2:
        ctl.append(["explicit_inventory_compact", True])
    if c["solver"] == "greedy":
        ctl.append(["solver", [["config", [["greedy", [["preconditioner", "greedy"]]]]]]])
    elif c["solver"] == "coin":
        ctl.append(["solver", [["config", [["coin-or", [["timeout", 600]]]]]]])
    if c["seed"] is not None:
        ctl.append(["seed", c["seed"]])
    kinds = sorted({f["kind"] for f in c["facs"]} | {"NullRegion", "NullInst"})
    t = [["control", ctl], ["archetypes", [["spec", [["lib", "agents"], ["name", k]]] for k in kinds]]]
    for f in c["facs"]:
        t.append(["facility", [["name", f["name"]]] + ([["lifetime", f["life"]]] if f["life"] >= 0 else []) + [["config", fac_config(f)]]])
    for r in c["regions"]:
        x = [["name", r["name"]], ["config", [["NullRegion", None]]]]
        for i in r["insts"]:
            y = [["name", i["name"]]]
            if i["init"]:
                y.append(["initialfacilitylist", [["entry", [["prototype", p], ["number", n]]] for p, n in i["init"]]])
            x.append(["institution", y + [["config", [["NullInst", None]]]]])
        t.append(["region", x])
    for r in c["recipes"]:
        t.append(["recipe", [["name", r["name"]], ["basis", "mass"]] + [["nuclide", [["id", n], ["comp", q]]] for n, q in r["nucs"]]])
    return t


def text(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    return repr(v) if isinstance(v, float) else str(v)


def xml(t, ind=""):
    o = ""
    for k, v in t:
        if v is None:
            o += "%s<%s/>\n" % (ind, k)
        elif isinstance(v, list):
            o += "%s<%s>\n%s%s</%s>\n" % (ind, k, xml(v, ind + " "), ind, k)
        else:
            o += "%s<%s>%s</%s>\n" % (ind, k, SX.escape(text(v)), k)
    return o


def js(v):
    if v is None:
        return None
    if not isinstance(v, list):
        return text(v)
    d = {}
    for k, x in v:
        d.setdefault(k, []).append(js(x))
    return {k: x[0] if len(x) == 1 else x for k, x in d.items()}


def val(x):
    p = x.split(" ")
    if p[0] == "int":
        return int(p[1])
    if p[0] == "bool":
        return p[1] == "1"
    if p[0] in ("double", "float"):
        return float.fromhex(p[1]) if p[1].lstrip("-").startswith("0x") else float(p[1])
    if p[0] == "str":
        v = unhx(p[1])
        return v.decode(errors="replace") if isinstance(v, bytes) else v
    if p[0] == "mid":
        n = int(p[1])
        return {int(p[2 + 2 * i]): float.fromhex(p[3 + 2 * i]) for i in range(n)}
    return x


class Db(dict):
    """table -> list of rows, a row is a dict without SimId"""

    def rows(self, t):
        return self.get(t, [])

    def canon(self, t, f=None):
        return sorted(json.dumps(r, sort_keys=True) for r in self.rows(t) if f is None or f(r))


def dump(rig, path):
    lines = rig.run("h_dump", "dump %s %s" % (hx(path), "h5" if path.endswith(".h5") else "sqlite"))
    db, cur, fs = Db(), None, None
    for ln in lines:
        if ln.startswith("TABLE "):
            p = ln.split(" ")
            cur, fs = db.setdefault(p[1], []), p[2:]
        elif ln.startswith("V | "):
            vs = ln[4:].split(" | ")
            if len(vs) != len(fs):
                raise HarnessError("row of %d values for %d fields" % (len(vs), len(fs)))
            cur.append({f: val(v) for f, v in zip(fs, vs) if f != "SimId"})
            if "SimId" in fs and not hasattr(db, "simid"):
                db.simid = vs[fs.index("SimId")].split(" ")[1]
    return db


def cyclus(rig, d, args, what):
    b = rig.built
    e = {"PATH": os.environ.get("PATH", ""), "LC_ALL": "C", "CYCLUS_PATH": b["agents"], "HOME": d, "CYCLUS_RNG_SCHEMA": os.path.join(b["tree"], "share", "cyclus.rng.in"),
         "PAD": "x" * (17 * (len(what) * 7919 % 61))}
    try:
        p = subprocess.run([b["exe"], "--schema-path", os.path.join(b["tree"], "share", "cyclus.rng.in")] + args, cwd=d, env=e, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240)
    except subprocess.TimeoutExpired:
        raise HarnessError("%s: the simulation took too long" % what)
    if p.returncode != 0:
        raise Violation("%s: the executable ended with %d: %s" % (what, p.returncode, p.stdout.decode(errors="replace").strip().split("\n")[-1][-300:]))


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(abs(a), abs(b), 1.0)


def norm(nucs):
    d = {}
    for n, q in nucs:
        d[n] = d.get(n, 0) + q
    t = sum(d.values())
    return {n: q / t for n, q in d.items() if q > 0}


def judge(c, db, what):
    def bad(m):
        raise Violation("%s: %s" % (what, m))
    facs = {f["name"]: f for f in c["facs"]}
    dur = c["dur"]
    # who is there, and when
    ag = {}
    for r in db.rows("AgentEntry"):
        if r["AgentId"] in ag:
            bad("agent %d enters twice" % r["AgentId"])
        ag[r["AgentId"]] = dict(r, exit=None)
    for r in db.rows("AgentExit"):
        a = ag.get(r["AgentId"])
        if a is None or a["exit"] is not None:
            bad("agent %d leaves without being there" % r["AgentId"])
        a["exit"] = r["ExitTime"]
    want = []
    for r in c["regions"]:
        want.append((r["name"], None, 0, -1))
        for i in r["insts"]:
            want.append((i["name"], r["name"], 0, -1))
            for p, n in i["init"]:
                want += [(p, i["name"], 0, facs[p]["life"])] * n
    eco = any(f["kind"] in ("Prey", "Predator") for f in c["facs"])
    got = [(a["Prototype"], ag[a["ParentId"]]["Prototype"] if a["ParentId"] in ag else None, a["EnterTime"], a["Lifetime"]) for a in ag.values()
           if not (a["ParentId"] == -1 and a["Kind"] == "Facility")]
    if sorted(got, key=repr) != sorted(want, key=repr):
        bad("deployed %s, expected %s" % (sorted(got, key=repr), sorted(want, key=repr)))
    for i, a in ag.items():
        f = facs.get(a["Prototype"])
        if f is not None and f["kind"] in ("Prey", "Predator"):
            continue
        x = None if f is None or f["life"] < 0 or f["life"] > dur else f["life"] - 1
        if a["exit"] != x:
            bad("agent %d (%s) leaves at %s, expected %s" % (i, a["Prototype"], a["exit"], x))
    # resources and trades
    res = {r["ResourceId"]: r for r in db.rows("Resources")}
    if len(res) != len(db.rows("Resources")):
        bad("a resource state is recorded twice")
    creator = {r["ResourceId"]: r["AgentId"] for r in db.rows("ResCreators")}
    comps = {}
    for r in db.rows("Compositions"):
        comps.setdefault(r["QualId"], {})[r["NucId"]] = r["MassFrac"]
    recs = {r["name"]: norm(r["nucs"]) for r in c["recipes"]}
    out, inn, held, sold = {}, {}, {}, set()
    tids = sorted(r["TransactionId"] for r in db.rows("Transactions"))
    if tids != list(range(len(tids))):
        bad("transaction ids are %s" % tids)
    lastt = 0
    for r in sorted(db.rows("Transactions"), key=lambda r: r["TransactionId"]):
        t, q = r["Time"], res.get(r["ResourceId"])
        s, d = ag.get(r["SenderId"]), ag.get(r["ReceiverId"])
        w = "transaction %d at %d" % (r["TransactionId"], t)
        if t < lastt:
            bad("%s comes after one at %d" % (w, lastt))
        lastt = t
        if q is None or s is None or d is None:
            bad("%s: its resource or agents are not recorded" % w)
        for a in (s, d):
            if a["EnterTime"] > t or (a["exit"] is not None and a["exit"] < t):
                bad("%s: %s is not deployed then" % (w, a["Prototype"]))
        sf, df = facs[s["Prototype"]], facs[d["Prototype"]]
        if r["Commodity"] != sf.get("commod") or sf["kind"] == "Predator" or r["Commodity"] not in df.get("ins", [df.get("commod") if df["kind"] == "Predator" else None]):
            bad("%s: %s from %s to %s" % (w, r["Commodity"], s["Prototype"], d["Prototype"]))
        if creator.get(r["ResourceId"]) != r["SenderId"] or q["TimeCreated"] != t or (q["Parent1"], q["Parent2"]) != (0, 0) or r["ResourceId"] in sold:
            bad("%s: resource %s created by %s" % (w, q, creator.get(r["ResourceId"])))
        sold.add(r["ResourceId"])
        if q["Type"] != ("Product" if sf["kind"] == "Prey" else "Material"):
            bad("%s: it is a %s" % (w, q["Type"]))
        if q["Type"] == "Material":
            wc = recs.get(sf["rec"] or df.get("rec") if df["kind"] != "KFacility" else sf["rec"], {})
            gc = comps.get(q["QualId"], {})
            if set(gc) != set(wc) or any(not close(gc[n], wc[n]) for n in wc):
                bad("%s: composition %s, expected %s" % (w, gc, wc))
        k = (t, r["SenderId"])
        out[k] = out.get(k, 0) + q["Quantity"]
        inn.setdefault((t, r["ReceiverId"]), []).append((q["Quantity"], r["ResourceId"], r["Commodity"]))
        held.setdefault(r["ReceiverId"], []).append((t, r["ResourceId"]))
    for i, q in res.items():
        if i not in sold and (q["Quantity"] > EPS * (1 + 1e-9)):
            bad("resource %d of %g exists but was never traded" % (i, q["Quantity"]))
    # what agents could give and take
    total = {}
    ordinary = {i: a for i, a in ag.items() if a["Prototype"] in facs and facs[a["Prototype"]]["kind"] in ("Source", "Sink", "KFacility")}
    for t in range(dur):
        give, take = {}, {}
        for i, a in ordinary.items():
            f = facs[a["Prototype"]]
            if a["EnterTime"] > t or (a["exit"] is not None and a["exit"] < t):
                continue
            n = t - a["EnterTime"]
            if f["kind"] != "Sink":
                give[i] = [f["commod"], f["cap"] * f.get("kout", 1.0) ** n, out.get((t, i), 0.0)]
            if f["kind"] != "Source":
                sp = (1e299 if f["inv"] is None else f["inv"]) - total.get(i, 0.0)
                q = min(f["cap"] if f["kind"] == "Sink" else f["icap"] * f["kin"] ** n, max(sp, 0.0))
                take[i] = [f["ins"], q if q > EPS else 0.0, math.fsum(x[0] for x in inn.get((t, i), []))]
        for i, (cm, q, g) in give.items():
            if g > q * (1 + 1e-9) + 2 * EPS:
                bad("agent %d gives %g at %d, its capacity is %g" % (i, g, t, q))
        for i, (cm, q, g) in take.items():
            if g > q * (1 + 1e-9) + 2 * EPS:
                bad("agent %d takes %g at %d, it asked for %g" % (i, g, t, q))
            total[i] = total.get(i, 0.0) + g
        for i, (cs, q, g) in take.items():
            for j, (cm, q2, g2) in give.items():
                tol = 1e-5 + 1e-6 * max(q, q2)
                if cm in cs and q - g > tol and q2 - g2 > tol:
                    bad("at %d agent %d still wants %g of %s and agent %d still has %g" % (t, i, q - g, cm, j, q2 - g2))
    # what is held at the end and, if asked for, at every step
    inv = {}
    for r in db.rows("AgentStateInventories"):
        if r["SimTime"] == dur:
            inv.setdefault(r["AgentId"], []).append(r["ResourceId"])
        elif r["SimTime"] != 0:
            bad("a snapshot at %d" % r["SimTime"])
    for i, a in ordinary.items():
        w = sorted(x for _, x in held.get(i, []))
        g = sorted(x for x in inv.get(i, []) if res.get(x, {"Quantity": 1})["Quantity"] > EPS * (1 + 1e-9))
        if a["exit"] is None and g != w:
            bad("agent %d holds resources %s at the end, it received %s" % (i, g, w))
        if a["exit"] is not None and g:
            bad("agent %d has left but holds %s" % (i, g))
    if set(inv) - set(ordinary):
        bad("inventories of agents %s" % sorted(set(inv) - set(ordinary)))
    ei, ec = {}, {}
    for r in db.rows("ExplicitInventory"):
        k = (r["AgentId"], r["Time"])
        if r["NucId"] in ei.setdefault(k, {}):
            bad("nuclide twice in the explicit inventory of %s" % (k,))
        ei[k][r["NucId"]] = r["Quantity"]
    for r in db.rows("ExplicitInventoryCompact"):
        k = (r["AgentId"], r["Time"])
        if k in ec:
            bad("two compact inventories of %s" % (k,))
        ec[k] = r
    if (ei and not c["expl"] & 1) or (ec and not c["expl"] & 2):
        bad("explicit inventories that were not asked for")
    acc = {}
    for t in range(dur):
        for i, a in ordinary.items():
            if a["exit"] is not None and a["exit"] < t:
                if (i, t) in ei or (i, t) in ec:
                    bad("explicit inventory of agent %d at %d, which has left" % (i, t))
                continue
            h = acc.setdefault(i, {"q": 0.0, "n": {}, "z": 0.0})
            for q, x, _ in inn.get((t, i), []):
                h["q"] += q
                cmp_ = comps.get(res[x]["QualId"], {})
                for n, fr in cmp_.items():
                    h["n"][n] = h["n"].get(n, 0) + q * fr
                if not cmp_:
                    h["z"] += q
            if h["z"] > 0:
                continue     # material without composition
            if c["expl"] & 1:
                g = ei.get((i, t), {})
                if {n for n, q in g.items() if q > 3 * EPS} - set(h["n"]) or {n for n, q in h["n"].items() if q > 3 * EPS} - set(g) or any(
                        abs(g[n] - q) > 1e-8 * q + 2 * EPS * (t + 1) for n, q in h["n"].items() if n in g):
                    bad("explicit inventory of agent %d at %d is %s, it received %s" % (i, t, g, h["n"]))
            if c["expl"] & 2 and (h["q"] > 3 * EPS or (i, t) in ec):
                g = ec.get((i, t))
                if g is None or abs(g["Quantity"] - h["q"]) > 1e-8 * h["q"] + 2 * EPS * (t + 1):
                    bad("compact inventory of agent %d at %d is %s, it received %g" % (i, t, g and g["Quantity"], h["q"]))
                if h["q"] > 1e-2 and any(abs(g["Composition"].get(n, 0) - q / h["q"]) > 1e-6 for n, q in h["n"].items()):
                    bad("compact inventory of agent %d at %d is %s, it received %s" % (i, t, g["Composition"], h["n"]))
    if eco:
        ecology(c, facs, ag, inn, out, bad)
    fin = db.rows("Finish")
    if len(fin) != 1 or fin[0]["EarlyTerm"] or fin[0]["EndTime"] != dur - 1:
        bad("the simulation finished with %s" % fin)
    return len(tids), len(ag)


def ecology(c, facs, ag, inn, out, bad):
    dur = c["dur"]
    ate = {}
    for t in range(dur):
        births = {}
        npred, nfood, hunted, want = 0, 0, 0.0, 0.0
        for i, a in ag.items():
            f = facs.get(a["Prototype"])
            if f is None or f["kind"] not in ("Prey", "Predator") or a["EnterTime"] > t or (a["exit"] is not None and a["exit"] < t):
                continue
            age = t - a["EnterTime"]
            if f["kind"] == "Prey":
                eaten = out.get((t, i), 0.0)
                if eaten > 1 + EPS:
                    bad("prey %d is eaten %g times" % (i, eaten))
                dead = eaten > 0
                if (a["exit"] == t) != dead:
                    bad("prey %d leaves at %s, eaten %g at %d" % (i, a["exit"], eaten, t))
                if age % f["bf"] == 0 and (not dead or f["bd"]):
                    births[a["Prototype"]] = births.get(a["Prototype"], 0) + f["nch"]
                nfood += 1
                hunted += eaten
            else:
                got = math.fsum(x[0] for x in inn.get((t, i), []))
                npred += 1
                if got > EPS and age % f["hf"]:
                    bad("predator %d hunts at age %d" % (i, age))
                if got > f["hc"] + 2 * EPS:
                    bad("predator %d eats %g" % (i, got))
                want += f["hc"] if age % f["hf"] == 0 else 0
                ate[i] = ate.get(i, 0.0) + got
                dead = age >= f["span"]
                if (a["exit"] == t) != dead:
                    bad("predator %d of age %d leaves at %s" % (i, age, a["exit"]))
                if ate[i] >= f["full"] and (not dead or f["bd"]):
                    births[a["Prototype"]] = births.get(a["Prototype"], 0) + f["nch"]
                    ate[i] = 0.0
        full = all(f["succ"] == 1.0 for f in c["facs"] if f["kind"] == "Predator")
        if full and min(want, nfood) - hunted > 1e-4:
            bad("at %d predators want %g of %d prey but got %g" % (t, want, nfood, hunted))
        if t + 1 < dur:
            got = {}
            for a in ag.values():
                if a["EnterTime"] == t + 1:
                    got[a["Prototype"]] = got.get(a["Prototype"], 0) + 1
            if got != {k: v for k, v in births.items() if v}:
                bad("at %d %s are born, expected %s" % (t + 1, got, births))


class C20(Prop):
    id = "C20"
    harnesses = ("h_dump",)
    agents = True
    exe = True
    quick = 240
    thorough = 6000
    rule = ("scenario of 1-5 facility prototypes (sources, sinks, k-facilities, or prey and predators), 1-2 regions with 1-2 institutions, recipes, lifetimes, "
            "inventory limits and either solver, run with the executable as XML to SQLite, again as XML or JSON to SQLite or HDF5, and restarted from its start; "
            "non-trivial: at least 3 trades")
    assumptions = ("one trader per agent, default preferences, no decay, no Python agents",
                   "restarts of scenarios without agents that schedule others")

    def gen(self, s):
        c = {"dur": s.int(1, 8), "m0": s.int(1, 12), "expl": s.pick([0, 1, 2, 3]), "solver": s.pick(["greedy", "none", "coin"]), "seed": s.pick([None, 1, 77])}
        c["recipes"] = [recipe(s, i) for i in range(s.int(1, 2))]
        if s.bool(0.2):
            c["dur"] = s.int(1, 6)
            c["facs"] = [{"name": "hare", "kind": "Prey", "life": -1, "commod": "meat", "nch": s.int(0, 2), "bf": s.int(1, 3), "bd": s.bool(), "rec": ""},
                         {"name": "lynx", "kind": "Predator", "life": -1, "commod": "meat", "prey": "hare", "full": s.pick([1.0, 2.0]), "hf": s.int(1, 2), "hc": s.pick([1.0, 2.0]),
                          "succ": s.weighted([(2, 1.0), (1, 0.5)]), "span": s.int(1, 5), "nch": s.int(0, 2), "bd": s.bool(), "rec": ""}]
        else:
            c["facs"] = [gen_fac(s, i, c) for i in range(s.int(2, 5))]
            # connect at least one pair
            src = [f for f in c["facs"] if f["kind"] != "Sink"]
            snk = [f for f in c["facs"] if f["kind"] != "Source"]
            if src and snk and s.bool(0.9):
                a, b = s.pick(src), s.pick(snk)
                if a["commod"] not in b["ins"]:
                    b["ins"][0] = a["commod"]
        c["regions"] = []
        n = 0
        for i in range(s.int(1, 2)):
            r = {"name": "reg%d" % i, "insts": []}
            for j in range(s.int(1, 2)):
                init = []
                for f in c["facs"]:
                    if s.bool(0.75):
                        init.append([f["name"], s.int(1, 4)])
                r["insts"].append({"name": "inst%d" % n, "init": s.shuffle(init)})
                n += 1
            c["regions"].append(r)
        c["in2"] = s.pick(["xml", "json", "raw"])
        c["out2"] = s.pick(["sqlite", "h5"])
        # a restart at 0 cannot tell what was scheduled before step 0 from what was scheduled in it
        c["restart"] = s.bool(0.35) and c["facs"][0]["kind"] != "Prey"
        return c

    def check(self, c, rig):
        d = tempfile.mkdtemp(dir=rig.dir)
        try:
            return self.go(c, rig, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def go(self, c, rig, d):
        t = [["simulation", tree(c)]]
        with open(os.path.join(d, "a.xml"), "w") as f:
            f.write(xml(t))
        with open(os.path.join(d, "a.json"), "w") as f:
            json.dump(js(t), f, indent=1)
        cyclus(rig, d, ["-o", "a.sqlite", "a.xml"], "first run")
        a = dump(rig, os.path.join(d, "a.sqlite"))
        nt, na = judge(c, a, "output")
        o2 = "b." + c["out2"]
        if c["in2"] == "raw":
            cyclus(rig, d, ["-o", o2, "-f", "xml", "-i", xml(t)], "run of the text itself")
        else:
            cyclus(rig, d, ["-o", o2, "a." + c["in2"]], "run from %s to %s" % (c["in2"], c["out2"]))
        b = dump(rig, os.path.join(d, o2))
        if set(a) != set(b):
            raise Violation("the outputs of two runs have different tables: %s" % sorted(set(a) ^ set(b)))
        for k in sorted(a):
            x, y = a.canon(k), b.canon(k)
            if x != y:
                raise Violation("two runs differ in %s: %s against %s" % (k, [r for r in x if r not in y][:2], [r for r in y if r not in x][:2]))
        labels = [c["solver"], c["in2"], c["out2"], "eco" if c["facs"][0]["kind"] == "Prey" else "flow"] + (["expl"] if c["expl"] else [])
        if c["restart"]:
            labels.append("restart")
            u = a.simid
            u = "-".join([u[:8], u[8:12], u[12:16], u[16:20], u[20:]])
            cyclus(rig, d, ["-o", "r.sqlite", "--restart", "a.sqlite:%s:0" % u], "restart")
            r = dump(rig, os.path.join(d, "r.sqlite"))
            for k in ("Transactions", "Resources", "ResCreators", "AgentExit", "AgentEntry", "ExplicitInventory", "ExplicitInventoryCompact", "AgentStateInventories", "Finish"):
                f = (lambda q: q["EnterTime"] > 0) if k == "AgentEntry" else None
                x, y = a.canon(k, f), r.canon(k, f)
                if x != y:
                    raise Violation("a restart from the start differs in %s: %s against %s" % (k, [q for q in x if q not in y][:2], [q for q in y if q not in x][:2]))
        return Info(nt >= 3, labels)


PROP = C20()
