"""C14: code generated for archetypes keeps every state variable.

A library of archetypes with random declarations is generated from the seed, run through the
preprocessor and compiled; the cases are values: read from an input document, cloned, saved and
restored, with inventories."""
import json
import os
from xml.sax.saxutils import escape

import archlib as A
import vallib as V
from pbt import Prop, Info, Violation, HarnessError, hx, unhx, fl

TIER_N = {"quick": 20, "thorough": 64}
_libs = {}


def lib(libseed, n):
    k = (libseed, n)
    if k not in _libs:
        _libs[k] = A.library(libseed, n)
    return _libs[k]


def g_text(s):
    """texts that an element can have: no leading or trailing space (left open), never empty"""
    r = V.g_str(s, " '\"<>&;\\%é,{}[]()ß=?#").strip()
    return r or "a"


def g_in(s, t, nuc, key=False):
    """an input value of the type"""
    if not isinstance(t, list):
        if t == "int" and nuc:
            return s.pick(list(A.NUCS))
        if t == "str" or t == "blob":
            return g_text(s)
        if t == "uuid":
            h = V.g_uuid(s)
            return "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
        v = V.g_prim(s, t, {})
        if key and t in ("float", "double"):
            v = (V.f32(v) if t == "float" else v) + 0.0   # no two equal keys
        return v
    if t[0] == "pair":
        return [g_in(s, t[1], nuc and nuc[1], key), g_in(s, t[2], nuc and nuc[2], key)]
    n = s.weighted([(4, s.int(1, 3)), (1, s.int(2, 6))])
    if t[0] == "map":
        out, seen = [], set()
        for _ in range(n):
            k = g_in(s, t[1], nuc and nuc[1], True)
            kk = json.dumps(A.resolve(t[1], k, nuc and nuc[1]))
            if kk in seen:
                continue
            seen.add(kk)
            out.append([k, g_in(s, t[2], nuc and nuc[2], key)])
        return out
    return [g_in(s, t[1], nuc and nuc[1], key or t[0] == "set") for _ in range(n)]


def leaf(s, t, v):
    pad = s.pick(["", "", " ", "\n  "])
    if t == "bool":
        x = s.pick(["1", "true"]) if v else s.pick(["0", "false"])
        return pad + x + pad
    if t in ("double", "float"):
        return pad + (repr(float(v)) if s.bool() else "%.17g" % v) + pad
    if t == "int" and not isinstance(v, str):
        return pad + str(v) + pad
    if t == "uuid":
        return v
    return escape(v)


def xml(s, t, v, nm):
    """elements of a value, nested as the schema wants it"""
    if not isinstance(t, list):
        return "<%s>%s</%s>" % (nm, leaf(s, t, v), nm)
    sp = s.pick(["", "\n", "  "])
    if t[0] == "pair":
        ch = [xml(s, t[1], v[0], nm[1]), xml(s, t[2], v[1], nm[2])]
        if s.bool(0.3):
            ch.reverse()
        return "<%s>%s</%s>" % (nm[0], sp + sp.join(ch), nm[0])
    if t[0] == "map":
        it = []
        for k, x in v:
            ch = [xml(s, t[1], k, nm[1]), xml(s, t[2], x, nm[2])]
            if s.bool(0.3):
                ch.reverse()
            it.append("<%s>%s</%s>" % (nm[0][1], sp + sp.join(ch), nm[0][1]))
        return "<%s>%s</%s>" % (nm[0][0], sp + sp.join(it), nm[0][0])
    return "<%s>%s</%s>" % (nm[0], sp + sp.join(xml(s, t[1], x, nm[1]) for x in v), nm[0])


def top(nm):
    while isinstance(nm, list):
        nm = nm[0]
    return nm


BAD = ["missing", "unknown", "twice", "type", "empty", "inner", "internal"]


class C14(Prop):
    id = "C14"
    harnesses = ("h_arch",)
    quick = 2500
    thorough = 12000
    rule = "an input document is read and at least 3 state variables have non-default values, or an invalid document is refused"
    assumptions = ("archetype declarations use the types the database supports (ResMap members excluded), no initializers and no unbalanced braces in annotation texts",
                   "texts in input have no leading or trailing white space")

    def setup(self, built):
        self.libseed = int(os.environ.get("VERIF_SEED", "1") or 1)
        tier = os.environ.get("PBT_TIER", "quick")
        self.n = TIER_N[tier]
        self.built_libs = {}
        self._build(self.libseed, self.n)

    def _build(self, seed, n):
        k = (seed, n)
        if k not in self.built_libs:
            archs = lib(seed, n)
            self.built_libs[k] = A.build_all(archs, "s%d_%d" % (seed, n))
        return self.built_libs[k]

    def gen(self, s):
        arch = s.int(0, self.n - 1)
        a = lib(self.libseed, self.n)[arch]
        c = {"lib": [self.libseed, self.n], "arch": arch, "style": s.int(0, 1 << 20), "proto": s.pick(["P", "my proto", "x<y&z"]),
             "lifetime": s.pick([None, 5, -1])}
        vals = {}
        capvars = [b["cap"] for b in a["bufs"]]
        for v in a["vars"]:
            if v["internal"]:
                continue
            if v["default"] is not None and s.bool(0.4):
                continue
            x = g_in(s, V.TYPES[v["t"]], v["nuc"])
            if v["schematype"] == "nonNegativeInteger":
                x = 0 if x == -2147483648 else abs(x)
            if v["name"] in capvars:
                x = abs(x) if x == x else 1.0
            vals[v["name"]] = x
        c["vals"] = vals
        c["bad"] = None
        if s.bool(0.3):
            c["bad"] = [s.pick(BAD), s.int(0, 1000)]
        put = {}
        for v in a["vars"]:
            if s.bool(0.5) and v["name"] not in capvars:
                put[v["name"]] = V.g_val(s, V.TYPES[v["t"]], {"blob": lambda s_: V.g_blob(s_)})
        c["put"] = put
        c["inv"] = []
        for b in a["bufs"]:
            cap = b["cap"]
            if isinstance(cap, str):
                d = [v for v in a["vars"] if v["name"] == cap][0]["default"]
                cap = vals.get(cap, d)
            qs = []
            for _ in range(s.int(0, 4)):
                q = s.pick([0.25, 0.5, 0.125])
                if cap is None or sum(qs) + q <= cap:
                    qs.append(q)
            c["inv"].append([b["name"], b["r"], qs])
        return c

    def document(self, c, a, bad):
        """-> (text of the config element, is it valid), deterministic"""
        import random
        from pbt import Src
        s = Src(random.Random("doc/%s" % c["style"]))
        els = []
        for v in a["vars"]:
            if v["name"] not in c["vals"]:
                continue
            t = V.TYPES[v["t"]]
            nm = A.names(t, v["name"], v["alias"])
            els.append((v, xml(s, t, c["vals"][v["name"]], nm)))
        valid = True
        if bad:
            kind, r = bad
            req = [k for k, (v, e) in enumerate(els) if v["default"] is None]
            if kind == "missing" and req:
                els.pop(req[r % len(req)])
                valid = False
            elif kind == "unknown":
                els.append((None, "<nosuch>1</nosuch>"))
                valid = False
            elif kind == "twice" and els:
                els.append(els[r % len(els)])
                valid = False
            elif kind == "type":
                k = [i for i, (v, e) in enumerate(els) if v["t"] in ("int", "double", "float", "bool") and not v["nuc"]]
                if k:
                    v = els[k[r % len(k)]][0]
                    n = top(A.names(V.TYPES[v["t"]], v["name"], v["alias"]))
                    els[k[r % len(k)]] = (v, "<%s>%s</%s>" % (n, ["abc", "1 2", "--1", ""][r % 4], n))
                    valid = False
            elif kind == "empty":
                k = [i for i, (v, e) in enumerate(els) if isinstance(V.TYPES[v["t"]], list)]
                if k:
                    v = els[k[r % len(k)]][0]
                    n = top(A.names(V.TYPES[v["t"]], v["name"], v["alias"]))
                    els[k[r % len(k)]] = (v, "<%s/>" % n)
                    valid = False
            elif kind == "inner":
                k = [i for i, (v, e) in enumerate(els) if isinstance(V.TYPES[v["t"]], list)]
                if k:
                    v, e = els[k[r % len(k)]]
                    n = top(A.names(V.TYPES[v["t"]], v["name"], v["alias"]))
                    els[k[r % len(k)]] = (v, e.replace("<%s>" % n, "<%s><nosuch>1</nosuch>" % n, 1))
                    valid = False
            elif kind == "internal":
                k = [v for v in a["vars"] if v["internal"]]
                if k:
                    v = k[r % len(k)]
                    t = V.TYPES[v["t"]]
                    x = g_in(s, t, v["nuc"])
                    if v["schematype"]:
                        x = abs(x)
                    els.append((v, xml(s, t, x, A.names(t, v["name"], v["alias"]))))
                    valid = False
        els = [e for _, e in els]
        els = s.shuffle(els)
        return "<%s>%s</%s>" % (a["name"], "\n".join(els), a["name"]), valid

    def check(self, c, rig):
        a = lib(*c["lib"])[c["arch"]]
        so, err = self._build(*c["lib"])[c["arch"]]
        if so is None:
            raise Violation("the archetype %s cannot be preprocessed or compiled:\n%s\n%s" % (a["name"], err[:1500], A.header(a)[:6000]))
        labels = []
        doc, valid = self.document(c, a, c["bad"])
        L = ["lib %s %s" % (so, a["name"]), "schema %s %s" % (a["name"], hx(doc))]
        if not valid:
            out = rig.run("h_arch", "\n".join(L))
            if "SCHEMA 0" not in out:
                raise Violation("the schema of %s accepts an input it should not (%s): %s\n%s" % (a["name"], c["bad"], doc[:1500], out[-3:]))
            return Info(True, ["refused:" + c["bad"][0]])
        lt = "" if c["lifetime"] is None else "<lifetime>%d</lifetime>" % c["lifetime"]
        full = "<facility><name>%s</name>%s<config>%s</config></facility>" % (escape(c["proto"]), lt, doc)
        L.append("infile a %s" % hx(full))
        L.append("clone b a")
        L.append("snap c b")
        for n, v in c["put"].items():
            t = V.TYPES[[x for x in a["vars"] if x["name"] == n][0]["t"]]
            L.append("put b %s %s" % (n, " ".join(V.enc(t, v))))
        L.append("show b")
        L.append("show a")
        L.append("clone d b")
        L.append("snap e b")
        for bi, (bn, r, qs) in enumerate(c["inv"]):
            for qi, q in enumerate(qs):
                L.append("push b %s %s r%d_%d %s" % (bn, r, bi, qi, fl(q)))
        L.append("inv b")
        for bn, r, qs in c["inv"]:
            L.append("buf b %s" % bn)
        L.append("initinv e b")
        L.append("ann")
        out = rig.run("h_arch", "\n".join(L))
        # --- expected
        vals = {}
        for v in a["vars"]:
            t = V.TYPES[v["t"]]
            n = v["name"]
            x = A.resolve(t, c["vals"][n] if n in c["vals"] else v["default"], v["nuc"])
            if v["derived"]:
                x = int(x / 2) + 7
            vals[n] = x
        vals2 = dict(vals)
        for n, v in c["put"].items():
            vals2[n] = v
        types = {v["name"]: V.TYPES[v["t"]] for v in a["vars"]}

        def enc(n, v):
            t = types[n]
            return " ".join(V.canon(V.enc(t, A_f32(t, v))))
        lifetime = -1 if c["lifetime"] is None else c["lifetime"]
        spec = ":%s:%s" % (a["name"], a["name"])
        got = parse(out)
        if got["schema"] != "1":
            raise Violation("the schema of %s refuses a valid input: %s" % (a["name"], doc[:2500]))
        if got["fail"]:
            raise Violation("%s: %s\ninput %s" % (a["name"], got["fail"], doc[:2500]))
        want = [("a", vals), ("b", vals), ("c", vals), ("b", vals2), ("a", vals), ("d", vals2), ("e", vals2)]
        if [g["id"] for g in got["agents"]] != [w[0] for w in want]:
            raise HarnessError("agents %s" % [g["id"] for g in got["agents"]])
        what = {0: "read from input", 1: "cloned", 2: "restored from a snapshot", 3: "set", 4: "left alone", 5: "cloned after changes",
                6: "restored after changes"}
        dbl = {b["name"]: b["cap"] for b in a["bufs"]}
        for k, (g, (i, w)) in enumerate(zip(got["agents"], want)):
            if g["proto"] != c["proto"] or g["lifetime"] != lifetime or g["spec"] != spec or g["kind"] != {"Institution": "Inst"}.get(a["kind"], a["kind"]):
                raise Violation("%s %s: prototype %r lifetime %s spec %s kind %s, expected %r %s %s %s" % (
                    a["name"], what[k], g["proto"], g["lifetime"], g["spec"], g["kind"], c["proto"], lifetime, spec, a["kind"]))
            for n in w:
                e = enc(n, w[n])
                if g["vars"].get(n) != e:
                    raise Violation("%s: %s, %s %s: has %s, expected %s (%s)\n%s" % (
                        a["name"], what[k], A.cpptype(types[n]), n, g["vars"].get(n), e, w[n], A.header(a)[:5000]))
            for b, cap in dbl.items():
                if k in (3, 4):
                    continue
                src = w if k != 5 else vals     # a clone copies the capacity, a restored agent computes it
                e = 1e300 if cap is None else (src[cap] if isinstance(cap, str) else cap)
                if isinstance(cap, str) and not (e >= 0):
                    continue
                if float.fromhex(g["caps"][b]) != e:
                    raise Violation("%s: %s, capacity of %s is %s, expected %s" % (a["name"], what[k], b, float.fromhex(g["caps"][b]), e))
        cols = {v["name"]: v for v in a["vars"]}
        for cs in got["cols"]:
            names_ = [n for n, _ in cs]
            exp = ["SimId", "AgentId", "SimTime"] + list(cols)
            if sorted(names_) != sorted(exp):
                raise Violation("%s: saved columns %s, expected %s" % (a["name"], names_, exp))
            for n, sh in cs:
                if n in cols:
                    v = cols[n]
                    want_sh = [-1] * A.shape_len(V.TYPES[v["t"]])
                    for i, x in enumerate(v["shape"] or []):
                        want_sh[i] = x
                    if sh != want_sh:
                        raise Violation("%s: the shape of %s is saved as %s, annotated %s" % (a["name"], n, sh, v["shape"]))
        # inventories
        exp = {}
        for bi, (bn, r, qs) in enumerate(c["inv"]):
            exp[bn] = ["r%d_%d:%s" % (bi, qi, fl(q)) for qi, q in enumerate(qs)]
        caps = {b["name"]: (1e300 if b["cap"] is None else vals[b["cap"]] if isinstance(b["cap"], str) else b["cap"]) for b in a["bufs"]}
        small = any(sum(qs) > min(caps[bn], vals2[cap] if isinstance(cap, str) else 1e300)
                    for (bn, r, qs), cap in zip(c["inv"], [b["cap"] for b in a["bufs"]]))
        if not small:
            for i, w in (("b", exp), ("e", exp)):
                for bn in w:
                    g = [x for x in got["inv"] if x[0] == i and x[1] == bn]
                    if not g or [norm(x) for x in g[-1][2]] != w[bn]:
                        raise Violation("%s: the inventory %s of %s is %s, expected %s" % (
                            a["name"], bn, "the agent" if i == "b" else "the restored agent", g, w[bn]))
            extra = [x for x in got["inv"] if x[1] not in exp]
            if extra:
                raise Violation("%s: inventories of no buffer: %s" % (a["name"], extra))
            for bn in exp:
                g = [x for x in got["buf"] if x[1] == bn][0][2]
                if [norm(x) for x in g] != exp[bn]:
                    raise Violation("%s: saving the inventories changed buffer %s to %s, was %s" % (a["name"], bn, g, exp[bn]))
        # annotations
        ann = json.loads(got["ann"].decode("utf8"))
        lastidx = -1
        for k, v in enumerate(a["vars"]):
            d = ann["vars"].get(v["name"])
            if not isinstance(d, dict):
                raise Violation("%s: no annotations of %s" % (a["name"], v["name"]))
            if v["doc"] is not None and d.get("doc") != v["doc"]:
                raise Violation("%s: the doc of %s is %r, annotated %r" % (a["name"], v["name"], d.get("doc"), v["doc"]))
            if not isinstance(d.get("index"), int) or d["index"] <= lastidx:
                raise Violation("%s: the index of %s is %s, after %s: not in order of declaration" % (a["name"], v["name"], d.get("index"), lastidx))
            lastidx = d["index"]
            if v["default"] is not None and not isinstance(types[v["name"]], list) and d.get("default") != v["default"]:
                raise Violation("%s: the annotated default of %s is %r, was %r" % (a["name"], v["name"], d.get("default"), v["default"]))
            al = v["alias"]
            if al is not None and A.top_alias(al) != v["name"] and ann["vars"].get(A.top_alias(al)) != v["name"]:
                raise Violation("%s: the alias of %s is not annotated" % (a["name"], v["name"]))
        if ann.get("entity") != a["kind"].lower() or ann.get("doc") != "archetype " + a["name"]:
            raise Violation("%s: class annotations %s %s" % (a["name"], ann.get("entity"), ann.get("doc")))
        for v in a["vars"]:
            if v["name"] in c["vals"] and isinstance(types[v["name"]], list):
                labels.append("type:" + types[v["name"]][0])
        if c["inv"]:
            labels.append("inventories")
        return Info(len(c["vals"]) >= 3, sorted(set(labels)) + ["style:" + a["style"]])


def A_f32(t, v):
    """input texts of floats are rounded to single precision"""
    if not isinstance(t, list):
        return V.f32(v) if t == "float" else v
    if t[0] == "pair":
        return [A_f32(t[1], v[0]), A_f32(t[2], v[1])]
    if t[0] == "map":
        return [[A_f32(t[1], k), A_f32(t[2], x)] for k, x in v]
    return [A_f32(t[1], x) for x in v]


def norm(x):
    n, q = x.split(":")
    return "%s:%s" % (n, fl(float.fromhex(q)))


def parse(out):
    g = {"agents": [], "cols": [], "inv": [], "buf": [], "schema": None, "fail": None, "ann": b"{}"}
    last = None
    for l in out:
        t = l.split()
        if not t:
            continue
        if len(t) > 2 and t[2] == "FAILED" or len(t) > 1 and t[1] == "FAILED":
            g["fail"] = "%s fails: %s" % (" ".join(t[:2]), unhx(t[-1]).decode("utf8", "replace"))
            return g
        if t[0] == "SCHEMA":
            g["schema"] = t[1]
        elif t[0] == "AGENT":
            g["agents"].append({"id": t[1], "proto": unhx(t[2]).decode(), "lifetime": int(t[3]), "spec": unhx(t[4]).decode(), "kind": t[5],
                                "vars": {}, "caps": {}})
            last = None
        elif t[0] == "var":
            g["agents"][-1]["vars"][t[1]] = " ".join(V.canon(t[2:]))
        elif t[0] == "cap":
            g["agents"][-1]["caps"][t[1]] = t[2]
        elif t[0] == "col":
            if last is None:
                last = []
                g["cols"].append(last)
            last.append((t[1], [] if t[2] == "-" else [int(x) for x in t[2].split(",")]))
        elif t[0] == "INV":
            g["inv"].append((t[1], t[2], t[3:]))
        elif t[0] == "BUF":
            g["buf"].append((t[1], t[2], t[3:]))
        elif t[0] == "ANN":
            g["ann"] = unhx(t[1])
    return g


PROP = C14()
