"""C02: the rows recorded for resources are their true lineage."""
import math
from pbt import Prop, Info, Violation, HarnessError
import reslib as L


class C02(Prop):
    id = "C02"
    harnesses = ("h_res",)
    quick = 6000
    thorough = 150000
    rule = ("random histories (3-22 operations by two agents at changing times: create, extract, "
            "composition-specific extract, absorb, squash, transmute, clone, package, repackage) over tracked "
            "and untracked materials and products; non-trivial: at least three resource rows with a parent")
    assumptions = ("no radioactive decay (its data files are absent from this sandbox)",
                   "the package name after packaging is removed without a row is not checked")

    def gen(self, s):
        return L.gen_history(s, rows=True)

    def check(self, case, rig):
        obs = rig.run("h_res", L.lines_of(case))
        agents, steps, comps, cend, drain = L.parse(obs)
        self.agents = agents
        seen = set()          # resource ids in the table
        comp_rows = {}        # qual id -> {nuc: frac}
        prod_rows = {}
        prev = {}
        tracked = {}
        time = 0
        withpar = 0
        labels = set()
        for i, op in enumerate(case["ops"]):
            if i not in steps:
                continue
            st = steps[i]
            where = "op %d %r: " % (i, op)
            if st.skip:
                continue
            if op[0] == "time" and st.ok:
                time = op[1]
            post = st.res
            tabs = {}
            for r in st.rows:
                tabs.setdefault(r["_table"], []).append(r)
            known = {"Resources", "ResCreators", "Compositions", "MaterialInfo", "Products"}
            for t in tabs:
                if t not in known and t != "Packages":
                    raise Violation(where + "unexpected row in table " + t)
            rows = tabs.get("Resources", [])
            if not st.ok:
                if any(t in tabs for t in known):
                    raise Violation(where + "failed (%s) but recorded %r" % (st.err, st.rows[0]))
                prev = post
                continue
            # --- tracking status of the new resources
            for h in post:
                if h not in prev:
                    if op[0] in ("mat", "prod"):
                        tracked[h] = True
                    elif op[0] in ("umat", "uprod", "clone"):
                        tracked[h] = False
                    else:
                        tracked[h] = tracked[op[1]]
            # --- rows are well formed
            for r in rows:
                rid = r["ResourceId"]
                if rid in seen:
                    raise Violation(where + "state id %d recorded twice" % rid)
                seen.add(rid)
                if r["TimeCreated"] != time:
                    raise Violation(where + "row at time %d says %d" % (time, r["TimeCreated"]))
                if r["Parent1"] or r["Parent2"]:
                    withpar += 1
            self.op_rows(op, rows, prev, post, st, tracked, where)
            self.clocks(op, prev, post, st, tracked, time, where)
            # --- the last row of each object describes it
            byobj = {}
            for r in rows:
                byobj.setdefault(r["ObjId"], []).append(r)
            objs = {post[h]["oid"]: h for h in post if tracked[h]}
            for oid, rs in byobj.items():
                if oid not in objs:
                    raise Violation(where + "row for an untracked or unknown object: %r" % (rs[0],))
                h = objs[oid]
                p = post[h]
                last = [r for r in rs if r["ResourceId"] == p["sid"]]
                if len(last) != 1:
                    raise Violation(where + "no row for the state %d of resource %d" % (p["sid"], h))
                r = last[0]
                ty = "Material" if p["type"] == "M" else "Product"
                if op[0] == "squash" and p["pkg"] == L.UNPK:
                    r = dict(r, PackageName=L.UNPK)
                for k, v in (("Quantity", p["qty"]), ("Type", ty), ("Units", p["units"]), ("PackageName", p["pkg"])):
                    if r[k] != v and not (k == "Quantity" and op[0] == "package" and p["qty"] <= L.EPS):
                        raise Violation(where + "row of resource %d has %s %r, it is %r" % (h, k, r[k], v))
                if p["type"] == "M" and r["QualId"] != p["qual"]:
                    raise Violation(where + "row of resource %d has quality id %r, it is %r" % (h, r["QualId"], p["qual"]))
            for h in post:
                if tracked[h] and h in prev and post[h]["sid"] != prev[h]["sid"] and post[h]["oid"] not in byobj:
                    raise Violation(where + "resource %d changed state without a row" % h)
            # --- side tables
            for r in tabs.get("Products", []):
                if r["QualId"] in prod_rows or r["Quality"] in prod_rows.values():
                    raise Violation(where + "product quality listed twice: %r" % r)
                prod_rows[r["QualId"]] = r["Quality"]
            for r in tabs.get("Compositions", []):
                c = comp_rows.setdefault(r["QualId"], {})
                if r["NucId"] in c:
                    raise Violation(where + "composition %d lists nuclide %d twice" % (r["QualId"], r["NucId"]))
                c[r["NucId"]] = r["MassFrac"]
            mi = {}
            for r in tabs.get("MaterialInfo", []):
                if r["ResourceId"] in mi:
                    raise Violation(where + "two MaterialInfo rows for one state")
                mi[r["ResourceId"]] = r["PrevDecayTime"]
            want = set(r["ResourceId"] for r in rows if r["Type"] == "Material")
            if set(mi) != want:
                raise Violation(where + "MaterialInfo for states %r, resource rows for %r" % (sorted(mi), sorted(want)))
            for oid, rs in byobj.items():
                p = post[objs[oid]]
                if p["type"] == "M" and p["sid"] in mi and mi[p["sid"]] != p["pdt"]:
                    raise Violation(where + "decay time recorded as %d, it is %d" % (mi[p["sid"]], p["pdt"]))
            for r in rows:
                if r["Type"] == "Material":
                    q = r["QualId"]
                    if q not in comp_rows and comps.get(q) != {}:
                        if q in comps:
                            raise Violation(where + "composition %d of a row is not listed" % q)
                    if q in comps and L.fracs(comps[q]) is not None:
                        f = L.fracs(comps[q])
                        g = comp_rows.get(q, {})
                        if set(f) != set(g) or any(abs(f[n] - g[n]) > 1e-9 for n in f):
                            raise Violation(where + "composition %d is %r, listed as %r" % (q, f, g))
                else:
                    if r["QualId"] not in prod_rows:
                        raise Violation(where + "product quality id %d is not listed" % r["QualId"])
                    h = objs[r["ObjId"]]
                    if prod_rows[r["QualId"]] != post[h]["quality"]:
                        raise Violation(where + "product quality %r listed as %r" %
                                        (post[h]["quality"], prod_rows[r["QualId"]]))
            cr = [(r["ResourceId"], r["AgentId"]) for r in tabs.get("ResCreators", [])]
            wc = []
            if op[0] in ("mat", "prod"):
                wc = [(post[st.ret[0]]["sid"], agents[op[1]])]
            if cr != wc:
                raise Violation(where + "creator rows %r, expected %r" % (cr, wc))
            labels.add(op[0])
            prev = post
        return Info(withpar >= 3, sorted(labels))

    def clocks(self, op, prev, post, st, tracked, time, where):
        """the time up to which a material has decayed: a part keeps it, a union has that of the larger part, a new
        composition is one of the present, and nothing else changes it"""
        for h in post:
            if post[h]["type"] != "M":
                continue
            was = [prev[h]["pdt"]] if h in prev else None
            if op[0] == "mat" and h not in prev:
                was = [time]
            elif op[0] in ("xq", "xres", "xc", "pkgx", "package") and h not in prev:
                was = [prev[op[1]]["pdt"]]
            elif op[0] == "abs" and h == op[1]:
                a, b = prev[h], prev[op[2]]
                was = [x["pdt"] for x in (a, b) if x["qty"] == max(a["qty"], b["qty"])]
            elif op[0] == "squash" and h in op[2:]:
                was = [prev[x]["pdt"] for x in op[2:]]
            elif op[0] == "trans" and h == op[1]:
                was = [max(prev[h]["pdt"], time)] if tracked[h] else None
            if was is not None and post[h]["pdt"] not in was:
                raise Violation(where + "resource %d has decayed up to %d, expected %r" % (h, post[h]["pdt"], was))

    def op_rows(self, op, rows, prev, post, st, tracked, where):
        """compare the (object, parents) of the rows with what the operation did"""
        n = op[0]
        got = sorted((r["ObjId"], r["ResourceId"], r["Parent1"], r["Parent2"]) for r in rows)

        def exp(lst):
            lst = sorted(lst)
            if got != lst:
                raise Violation(where + "recorded (object, state, parents) %r, expected %r" % (got, lst))

        if n in ("mat", "prod"):
            p = post[st.ret[0]]
            return exp([(p["oid"], p["sid"], 0, 0)])
        if n in ("xq", "xres", "xc", "pkgx") and tracked[op[1]]:
            h = op[1]
            c = post[st.ret[0]]
            w = [(c["oid"], c["sid"], prev[h]["sid"], 0)]
            if post[h]["qty"] > L.EPS:
                w.append((post[h]["oid"], post[h]["sid"], prev[h]["sid"], 0))
            return exp(w)
        if n == "abs" and tracked[op[1]]:
            a, b = op[1], op[2]
            return exp([(post[a]["oid"], post[a]["sid"], prev[a]["sid"], prev[b]["sid"])])
        if n == "trans" and tracked[op[1]]:
            h = op[1]
            return exp([(post[h]["oid"], post[h]["sid"], prev[h]["sid"], 0)])
        if n == "squash" and tracked[op[2]]:
            h = st.ret[0]
            if tracked[h] and post[h]["pkg"] != L.UNPK:
                raise Violation(where + "squashed resource is still packaged as %r" % post[h]["pkg"])
            cur = prev[h]["sid"]
            rs = {r["Parent1"]: r for r in rows}
            if len(rs) != len(rows):
                raise Violation(where + "two rows with one parent: %r" % got)
            left = [prev[x]["sid"] for x in op[2:] if x != h]
            steps = 0
            while cur in rs:
                r = rs[cur]
                steps += 1
                if r["ObjId"] != post[h]["oid"]:
                    raise Violation(where + "row of another object: %r" % r)
                if r["Parent2"]:
                    if r["Parent2"] not in left:
                        raise Violation(where + "unexpected second parent: %r" % r)
                    left.remove(r["Parent2"])
                cur = r["ResourceId"]
            if left or cur != post[h]["sid"] or steps != len(rows):
                raise Violation(where + "rows %r do not lead from %r to %r" % (got, prev[h]["sid"], post[h]["sid"]))
            return
        if n == "package" and tracked[op[1]]:
            h = op[1]
            kids = {post[x]["oid"]: post[x] for x in (st.ret or [])}
            cur = prev[h]["sid"]
            chain = [cur]
            mine = {r["Parent1"]: r for r in rows if r["ObjId"] == post[h]["oid"]}
            while cur in mine:
                if mine[cur]["Parent2"]:
                    raise Violation(where + "unexpected second parent: %r" % mine[cur])
                cur = mine[cur]["ResourceId"]
                chain.append(cur)
            if len(chain) - 1 != len([r for r in rows if r["ObjId"] == post[h]["oid"]]) or cur != post[h]["sid"]:
                raise Violation(where + "rows %r do not lead from %r to %r" % (got, prev[h]["sid"], post[h]["sid"]))
            krows = [r for r in rows if r["ObjId"] != post[h]["oid"]]
            if sorted(r["ObjId"] for r in krows) != sorted(kids):
                raise Violation(where + "rows for objects %r, packages are %r" %
                                (sorted(r["ObjId"] for r in krows), sorted(kids)))
            for r in krows:
                if r["Parent1"] not in chain or r["Parent2"]:
                    raise Violation(where + "package with parents %r, %r, not a state of the resource (%r)" %
                                    (r["Parent1"], r["Parent2"], chain))
            # each state of the source gave one package, in the order of the ids
            ps = [r["Parent1"] for r in sorted(krows, key=lambda r: r["ResourceId"])]
            if ps != sorted(ps) or (len(set(ps)) != len(ps) and post[h]["qty"] > L.EPS):
                raise Violation(where + "packages %r out of order" % ps)
            # quantities along the chain add up
            q = {prev[h]["sid"]: prev[h]["qty"]}
            q.update({r["ResourceId"]: r["Quantity"] for r in mine.values()})
            for c, nx in zip(chain, chain[1:]):
                took = math.fsum(r["Quantity"] for r in krows if r["Parent1"] == c)
                if not L.close(q[c] - took, q[nx], 1e-9, 1e-9):
                    raise Violation(where + "state of %r gave %r and became %r" % (q[c], took, q[nx]))
            if krows:
                tot = math.fsum([r["Quantity"] for r in krows] + [post[h]["qty"]])
                if not L.close(tot, prev[h]["qty"], 1e-9, 1e-9):
                    raise Violation(where + "rows sum to %r, was %r" % (tot, prev[h]["qty"]))
            return
        if n == "chpkg" and tracked[op[1]]:
            h = op[1]
            if not rows:
                if post[h]["sid"] != prev[h]["sid"]:
                    raise Violation(where + "new state without a row")
                if post[h]["pkg"] != prev[h]["pkg"] and post[h]["pkg"] != L.UNPK:
                    raise Violation(where + "packaged as %r without a row" % post[h]["pkg"])
                return
            return exp([(post[h]["oid"], post[h]["sid"], prev[h]["sid"], 0)])
        return exp([])


PROP = C02()
