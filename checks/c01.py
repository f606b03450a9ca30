"""C01: resource operations conserve quantity and nuclide mass; a failed one changes nothing."""
import math
from pbt import Prop, Info, Violation, HarnessError
import reslib as L

CREATES = ("mat", "umat", "prod", "uprod")


class C01(Prop):
    id = "C01"
    harnesses = ("h_res",)
    quick = 6000
    thorough = 150000
    rule = ("random histories (3-22 operations: create, extract, composition-specific extract, absorb, "
            "squash, transmute, clone, package, repackage, time steps) over materials and products with "
            "amounts tied to existing quantities (fraction, all, nearly all, just too much, below epsilon); "
            "non-trivial: at least two successful splitting/merging operations on non-zero quantities")
    assumptions = ("materials with a defined (non-empty) composition; no radioactive decay (its data files "
                   "are absent from this sandbox)",)

    def gen(self, s):
        return L.gen_history(s)

    def check(self, case, rig):
        obs = rig.run("h_res", L.lines_of(case))
        agents, steps, comps, cend, drain = L.parse(obs)
        ops = case["ops"]
        prev = {}
        ncmp = {}
        active = 0
        labels = set()
        compids = {}
        for i, op in enumerate(ops):
            if i not in steps:
                continue
            st = steps[i]
            name = op[0]
            where = "op %d %r: " % (i, op)
            if st.skip:
                continue
            if name == "comp":
                compids[op[1]] = st.compid
            post = st.res
            if not st.ok:
                labels.add("err:" + name)
                self.unchanged(prev, post, prev.keys(), where + "failed (%s) but " % st.err)
                self.expect_error(op, prev, comps, where, st, case)
                prev = post
                continue
            labels.add(name)
            for h, r in post.items():
                if not math.isfinite(r["qty"]) or r["qty"] < -L.EPS:
                    raise Violation(where + "resource %d has quantity %r" % (h, r["qty"]))
            self.no_error_expected(op, prev, comps, where)
            involved = set(self.handles(op))
            new = set(post) - set(prev)
            if set(prev) - set(post):
                raise HarnessError("resource vanished")
            if set(st.ret or []) - set(post):
                raise HarnessError("ret")
            self.unchanged(prev, post, [h for h in prev if h not in involved], where + "bystander ")
            if name in CREATES:
                q = op[1] if name in ("umat", "uprod") else op[2]
                r = post[st.ret[0]]
                if r["qty"] != q:
                    raise Violation(where + "created quantity %r" % r["qty"])
            elif name == "clone":
                a, b = post[op[1]], post[st.ret[0]]
                if a["qty"] != b["qty"] or a["qual"] != b["qual"] or a["quality"] != b["quality"] \
                        or a["type"] != b["type"]:
                    raise Violation(where + "clone differs: %r %r" % (a, b))
                self.unchanged(prev, post, [op[1]], where + "clone changed the original: ")
            elif name == "chpkg":
                for h in involved:
                    if prev[h]["qty"] != post[h]["qty"] or prev[h]["qual"] != post[h]["qual"]:
                        raise Violation(where + "repackaging changed the content")
            elif name == "trans":
                h = op[1]
                if post[h]["qty"] != prev[h]["qty"]:
                    raise Violation(where + "transmutation changed the quantity")
                if self.nm(post[h], comps) is not None and \
                        not self.eqmap(self.nm(post[h], comps),
                                       L.nucmass(post[h]["qty"], self.case_comp(case, op[2])), 1e-9):
                    raise Violation(where + "composition after transmutation is not the given one")
            elif involved:
                self.balance(op, prev, post, involved, new, st, comps, where, case)
                if name in ("xq", "xres", "xc", "pkgx"):
                    if op[2] > 0 and prev[op[1]]["qty"] > 0:
                        active += 1
                elif name in ("abs", "squash"):
                    if all(prev[h]["qty"] > 0 for h in involved):
                        active += 1
                elif name == "package" and len(new) > 1:
                    active += 1
                    labels.add("package>1")
            prev = post
        # compositions are values: nothing that happened may have changed one
        for k, (cid, mass) in cend.items():
            if compids.get(k) == cid:
                want = self.case_comp(case, k)
                if want != mass:
                    raise Violation("composition %d changed from %r to %r" % (k, want, mass))
        return Info(active >= 2, sorted(labels))

    @staticmethod
    def case_comp(case, k):
        for op in case["ops"]:
            if op[0] == "comp" and op[1] == k:
                return {op[3 + 2 * j]: op[4 + 2 * j] for j in range((len(op) - 3) // 2)}

    @staticmethod
    def handles(op):
        n = op[0]
        if n in ("xq", "xres", "xc", "trans", "clone", "pkgx", "chpkg", "package"):
            return [op[1]]
        if n == "abs":
            return [op[1], op[2]]
        if n == "squash":
            return op[2:]
        return []

    @staticmethod
    def unchanged(prev, post, hs, msg):
        for h in hs:
            a, b = prev[h], post[h]
            for f in ("qty", "qual", "quality", "pkg", "type", "oid"):
                if a[f] != b[f]:
                    raise Violation(msg + "resource %d changed %s: %r -> %r" % (h, f, a[f], b[f]))

    def nm(self, r, comps):
        if r["type"] == "P":
            return {r["quality"]: r["qty"]}
        return L.nucmass(r["qty"], comps[r["qual"]])

    @staticmethod
    def defined(r, comps):
        return r["type"] == "P" or L.fracs(comps[r["qual"]]) is not None

    @staticmethod
    def eqmap(a, b, tol):
        tot = sum(abs(x) for x in a.values()) + sum(abs(x) for x in b.values())
        return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol * tot + 1e-12 for k in set(a) | set(b))

    def balance(self, op, prev, post, involved, new, st, comps, where, case):
        name = op[0]
        thr = 0.0
        if name == "xc":
            thr = op[4] if len(op) > 4 else L.EPS
        before = math.fsum(prev[h]["qty"] for h in involved)
        after = math.fsum(post[h]["qty"] for h in involved | new)
        if not L.close(before, after, 1e-12, 1e-12):
            raise Violation(where + "total quantity %r -> %r" % (before, after))
        bm, am = {}, {}
        known = True
        nn = 0
        for h in involved:
            m = self.nm(prev[h], comps)
            if m is None:
                known = False
                break
            for k, v in m.items():
                bm[k] = bm.get(k, 0) + v
        for h in involved | new:
            m = self.nm(post[h], comps)
            if m is None:
                # tolerated only when everything in it was below the removal threshold
                if post[h]["qty"] > (len(bm) + 1) * thr + 1e-12 and known:
                    raise Violation(where + "resource %d lost its composition" % h)
                known = False
                break
            nn += len(m)
            for k, v in m.items():
                am[k] = am.get(k, 0) + v
        if known:
            tol = 1e-9 * max(before, 0) + 1e-12 + (len(bm) + 2) * thr * 1.01
            for k in set(bm) | set(am):
                if abs(bm.get(k, 0) - am.get(k, 0)) > tol:
                    raise Violation(where + "mass of %s: %r -> %r" % (k, bm.get(k, 0), am.get(k, 0)))
        if name in ("xq", "xres", "xc", "pkgx"):
            h, o = op[1], st.ret[0]
            if post[o]["qty"] != op[2] and not (
                    name == "pkgx" and op[2] > prev[h]["qty"] and abs(post[o]["qty"] - op[2]) <= 2 * L.EPS):
                raise Violation(where + "asked for %r, got %r" % (op[2], post[o]["qty"]))
            if len(st.ret) != 1 or o == h:
                raise Violation(where + "no new resource")
            if post[o]["type"] != prev[h]["type"] or post[o]["quality"] != prev[h]["quality"]:
                raise Violation(where + "extracted resource has another type or quality")
            if name != "xc":
                a = self.nm(post[o], comps)
                b = self.nm(dict(prev[h], qty=post[o]["qty"]), comps)
                if a is not None and b is not None and not self.eqmap(a, b, 1e-9):
                    raise Violation(where + "extracted part is made of %r, not %r" % (a, b))
            else:
                a = self.nm(post[o], comps)
                b = L.nucmass(op[2], self.case_comp(case, op[3]))
                if a is not None and b is not None and not self.eqmap(a, b, 1e-9):
                    raise Violation(where + "extracted part is made of %r, not %r" % (a, b))
        elif name == "abs":
            if post[op[2]]["qty"] != 0:
                raise Violation(where + "absorbed resource still holds %r" % post[op[2]]["qty"])
        elif name == "squash":
            if st.ret != [op[2]]:
                # the statement does not say which object carries the result
                pass
            if not L.close(post[st.ret[0]]["qty"], before, 1e-12):
                raise Violation(where + "squashed quantity %r, expected %r" % (post[st.ret[0]]["qty"], before))

    def expect_error(self, op, prev, comps, where, st, case):
        """errors the operation must not raise"""
        n = op[0]
        if n in CREATES or n in ("clone", "trans", "time", "comp", "squash"):
            raise Violation(where + "raised " + str(st.err))
        if n in ("xq", "xres", "pkgx") and op[2] <= prev[op[1]]["qty"]:
            raise Violation(where + "refused although %r is available" % prev[op[1]]["qty"])
        if n == "abs" and prev[op[1]]["quality"] == prev[op[2]]["quality"] and \
                self.defined(prev[op[1]], comps) and self.defined(prev[op[2]], comps):
            raise Violation(where + "absorbing raised " + str(st.err))
        if n == "xc" and op[2] <= prev[op[1]]["qty"]:
            thr = op[4] if len(op) > 4 else L.EPS
            have = self.nm(prev[op[1]], comps)
            want = L.nucmass(op[2], self.case_comp(case, op[3]))
            if have is not None and want is not None and \
                    all(have.get(k, 0) - v > -thr * 0.99 + 1e-9 * prev[op[1]]["qty"] for k, v in want.items()):
                raise Violation(where + "refused although every nuclide is available")
        if n == "package":
            raise Violation(where + "packaging raised " + str(st.err))

    def no_error_expected(self, op, prev, comps, where):
        """successes that must have been refused"""
        n = op[0]
        if n in ("xq", "xres", "xc") and op[2] > prev[op[1]]["qty"]:
            raise Violation(where + "extracted more than the %r available" % prev[op[1]]["qty"])
        if n == "pkgx" and op[2] > prev[op[1]]["qty"] + 2 * L.EPS:
            raise Violation(where + "extracted more than the %r available" % prev[op[1]]["qty"])
        if n == "abs" and prev[op[1]]["quality"] != prev[op[2]]["quality"]:
            raise Violation(where + "merged products of different quality")


PROP = C01()
