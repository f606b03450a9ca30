"""Generated archetypes: a declaration model, its C++ header, its input documents."""
import hashlib
import json
import os
import random
import re
import subprocess
import concurrent.futures
import fcntl

import build as B
import vallib as V
from pbt import Src, hx, fl

CPP = {"bool": "bool", "int": "int", "float": "float", "double": "double", "str": "std::string",
       "blob": "cyclus::Blob", "uuid": "boost::uuids::uuid", "vec": "std::vector", "set": "std::set",
       "list": "std::list", "pair": "std::pair", "map": "std::map"}
NUCS = {"U235": 922350000, "u-238": 922380000, "Pu239": 942390000, "942400000": 942400000, "922350": 922350000,
        "H1": 10010000, "Am242M": 952420001, "Cs137": 551370000}
SAFE = "abcxyz_ABC019 .,-+()[]:/'"


def cpptype(t, s=None):
    """C++ spelling of a type; s varies the white space"""
    if not isinstance(t, list):
        return CPP[t]
    sep = s.pick([", ", ",", " , "]) if s else ", "
    op = s.pick(["<", "< "]) if s else "<"
    return CPP[t[0]] + op + sep.join(cpptype(x, s) for x in t[1:]) + " >"


def nleaves(t):
    return 1 if not isinstance(t, list) else sum(nleaves(x) for x in t[1:])


def shape_len(t):
    """number of entries of a shape"""
    if not isinstance(t, list):
        return 1
    return 1 + sum(shape_len(x) for x in t[1:])


def text(s, odd=0.3):
    k = s.weighted([(3, "w"), (1, "e"), (2 * odd, "q")])
    if k == "e":
        return ""
    if k == "w":
        return s.pick(["enriched_u", "kg", "a b", "0", "1e3", "true", "x" * 60])
    return "".join(s.list(lambda: s.pick("ab \"\\'<>&%;:{}é\t#?"), 1, 8))


def balanced(x):
    """texts in annotations have balanced braces"""
    return x.replace("{", "(").replace("}", ")")


def g_default(s, t, nuc):
    """a default for type t (JSON-able), or None when defaults of the type cannot be annotated"""
    if not isinstance(t, list):
        if t == "int" and nuc:
            return s.pick([x for x in NUCS if x not in ("922350", "942400000")] + [922350000, 10010000])
        if t == "str" or t == "blob":
            return balanced(text(s))
        if t == "uuid":
            h = V.g_uuid(s)
            return "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
        if t == "double" or t == "float":
            v = s.weighted([(2, s.pick([0.0, 1.0, -2.5, 1e-5, 1e299, 0.1])), (1, s.real(-1e6, 1e6)), (1, s.int(-5, 50))])
            return V.f32(v) if t == "float" and isinstance(v, float) else v
        return V.g_prim(s, t, {})
    if t[0] == "pair":
        a, b = g_default(s, t[1], nuc and nuc[1]), g_default(s, t[2], nuc and nuc[2])
        return [a, b]
    n = s.int(0, 3)
    if t[0] == "map":
        if isinstance(t[1], list):
            return []   # pairs
        out = []
        for _ in range(n):
            k = g_default(s, t[1], nuc and nuc[1])
            out.append([k, g_default(s, t[2], nuc and nuc[2])])
        seen, o2 = set(), []
        for k, v in out:
            kk = NUCS.get(k, k) if nuc and nuc[1] else k
            if kk not in seen:
                seen.add(kk)
                o2.append([k, v])
        return o2
    return [g_default(s, t[1], nuc and nuc[1]) for _ in range(n)]


def pylit(t, v):
    """Python literal of a default"""
    if not isinstance(t, list):
        return repr(v)
    if t[0] == "pair":
        return "(%s, %s)" % (pylit(t[1], v[0]), pylit(t[2], v[1]))
    if t[0] == "map":
        return "{%s}" % ", ".join("%s: %s" % (pylit(t[1], k), pylit(t[2], x)) for k, x in v)
    return "[%s]" % ", ".join(pylit(t[1], x) for x in v)


def resolve(t, v, nuc):
    """default or input value -> the value of the variable (canonical for vallib)"""
    if not isinstance(t, list):
        if nuc and t == "int" and isinstance(v, str):
            return NUCS[v]
        if t == "uuid":
            return v.replace("-", "")
        if t == "blob":
            return v.encode("utf8").decode("latin1")
        return float(v) if t in ("float", "double") else v
    if t[0] == "pair":
        return [resolve(t[1], v[0], nuc and nuc[1]), resolve(t[2], v[1], nuc and nuc[2])]
    if t[0] == "map":
        d = {}
        for k, x in v:
            k = resolve(t[1], k, nuc and nuc[1])
            d[json.dumps(k)] = [k, resolve(t[2], x, nuc and nuc[2])]   # the last one counts
        return sorted(d.values(), key=lambda e: V.key(t[1], e[0]))
    r = [resolve(t[1], x, nuc and nuc[1]) for x in v]
    if t[0] == "set":
        d = {json.dumps(x): x for x in r}
        r = sorted(d.values(), key=lambda e: V.key(t[1], e))
    return r


def g_nuc(s, t, top=True):
    """which ints of a type are nuclides: nested like the type, or None"""
    if t == "int":
        return True
    if not isinstance(t, list):
        return None
    r = [None] + [g_nuc(s, x, False) for x in t[1:]]
    return r if any(r[1:]) else None


def ui_of(t, nuc):
    if not isinstance(t, list):
        return "nuclide" if nuc else None
    return [{"map": "oneOrMore", "pair": "pair"}.get(t[0], "oneOrMore")] + \
        [ui_of(x, n) for x, n in zip(t[1:], (nuc or [None] * len(t))[1:])]


def g_alias(s, t, name, p=0.35):
    """nested alias, as annotated (may leave parts out); None for default"""
    nm = s.pick(["x", "y", "entry", "thing", "w1"]) + str(s.int(0, 9))
    if not isinstance(t, list):
        return nm if s.bool(p) else None
    parts = [g_alias(s, x, None, p) for x in t[1:]]
    first = nm if s.bool(p) else None
    if t[0] == "map":
        item = s.pick(["it", "row"]) if s.bool(0.3) else None
        first = [first, item] if item else first
        # a map's key and value need different names
        if isinstance(parts[0], str) and parts[0] == top_alias(parts[1]):
            parts[0] = parts[0] + "k"
    if t[0] == "pair" and top_alias(parts[0]) is not None and top_alias(parts[0]) == top_alias(parts[1]):
        if isinstance(parts[0], str):
            parts[0] += "p"
        else:
            parts[0] = None
    if not any(p_ is not None for p_ in parts) and first is None:
        return None
    while parts and parts[-1] is None and s.bool(0.5):
        parts.pop()
    if not parts and isinstance(first, str) and s.bool():
        return first
    return [first] + parts


def top_alias(a):
    while isinstance(a, list):
        a = a[0]
    return a


DEF = {"vec": ["val"], "set": ["val"], "list": ["val"], "pair": ["first", "second"], "map": ["key", "val"]}


def names(t, name, al):
    """full element names: a string for leaves, [top(, item), children...]"""
    if not isinstance(t, list):
        return al or name
    if al is None or isinstance(al, str):
        al = [al]
    al = list(al) + [None] * (len(t) - len(al))
    top = al[0]
    item = None
    if isinstance(top, list):
        item = top[1] if len(top) > 1 else None
        top = top[0]
    r = [[top or name, item or "item"] if t[0] == "map" else (top or name)]
    for x, d, a in zip(t[1:], DEF[t[0]], al[1:]):
        r.append(names(x, d, a))
    return r


def g_var(s, name, tid):
    t = V.TYPES[tid]
    v = {"name": name, "t": tid}
    nuc = g_nuc(s, t) if s.bool(0.25) else None
    v["nuc"] = nuc
    d = g_default(s, t, nuc) if s.bool(0.5) else None
    v["default"] = d
    v["internal"] = bool(d is not None and s.bool(0.15))
    al = g_alias(s, t, name)
    if al is not None:
        # the top-level name is always given; unique, possibly the variable's own
        def fix(a):
            if a is None:
                return name
            if isinstance(a, str):
                return a + "_" + name
            return [fix(a[0])] + a[1:]
        al = fix(al)
    v["alias"] = al
    v["schematype"] = None
    if tid == "int" and not nuc and s.bool(0.2):
        v["schematype"] = "nonNegativeInteger"
        if d is not None:
            v["default"] = abs(d) if d != -2147483648 else 0
    v["shape"] = None
    if s.bool(0.2):
        n = shape_len(t)
        v["shape"] = [s.pick([-1, -1, 1, 5, 8]) for _ in range(s.int(1, n))]
    v["doc"] = balanced(text(s, 1)) if s.bool(0.4) else None
    v["derived"] = bool(tid == "int" and not nuc and v["default"] is None and s.bool(0.3))
    if tid == "int" and v["internal"] and s.bool():
        v["derived"] = True
    return v


def g_arch(rnd, idx, tids):
    s = Src(rnd)
    a = {"name": "A%d" % idx, "kind": s.weighted([(4, "Facility"), (1, "Institution"), (1, "Region")]),
         "ns": s.pick(["", "nsx", "outer"]), "style": s.pick(["all", "split", "sep"]), "seed": s.int(0, 1 << 30)}
    a["vars"] = [g_var(s, s.pick(["v", "qty_", "Xx", "my_var"]) + str(k), tid) for k, tid in enumerate(tids)]
    bufs = []
    for k in range(s.int(0, 2)):
        cap = s.weighted([(1, None), (2, s.pick([1.0, 12.5, 1e5])), (1, "var")])
        if cap == "var":
            ds = [v["name"] for v in a["vars"] if v["t"] == "double" and not (v["default"] is not None and not v["default"] >= 0)]
            cap = s.pick(ds) if ds else 3.0
        bufs.append({"name": "buf%d" % k, "r": s.pick(["Material", "Product"]), "cap": cap})
    a["bufs"] = bufs
    a["track"] = s.bool(0.3) and any(b["r"] == "Material" for b in a["bufs"])
    return a


def library(libseed, n, per=8):
    rnd = random.Random("lib/%s" % libseed)
    pool = []
    while len(pool) < n * per:
        ids = list(V.TYPES)
        rnd.shuffle(ids)
        # scalars are the most used ones
        ids += ["bool", "int", "float", "double", "str", "blob", "uuid", "int", "double", "vi", "ss"]
        pool += ids
    head = pool[:n * per]
    rnd.shuffle(head)
    return [g_arch(rnd, i, head[i * per:(i + 1) * per]) for i in range(n)]


def annotation(v, s, earlier):
    t = V.TYPES[v["t"]]
    items = []
    if v["default"] is not None:
        lit = pylit(t, v["default"])
        same = [e for e in earlier if e["default"] is not None and V.TYPES[e["t"]] == t and e["default"] == v["default"]]
        if same and s.bool(0.5):
            lit = "%s['default']" % same[0]["name"]
        items.append('"default": ' + lit)
    if v["internal"]:
        items.append('"internal": True')
    if v["alias"] is not None:
        items.append('"alias": %r' % (v["alias"],))
    if v["nuc"]:
        items.append('"uitype": %r' % (ui_of(t, v["nuc"]),))
    elif s.bool(0.2):
        items.append('"uitype": %r' % (ui_of(t, None) if isinstance(t, list) else None,))
        if items[-1].endswith("None"):
            items.pop()
    if v["schematype"]:
        items.append('"schematype": %r' % v["schematype"])
    if v["shape"] is not None:
        items.append('"shape": %r' % v["shape"])
    if v["doc"] is not None:
        items.append('"doc": %s' % json.dumps(v["doc"]))
    if v["derived"]:
        items.append('"derived_init": "%s = %s / 2 + 7;"' % (v["name"], v["name"]))
    if s.bool(0.3):
        items.append('"tooltip": "tip; for %s"' % v["name"])
    if s.bool(0.2):
        items.append('"units": "kg/m^2"')
    items = s.shuffle(items)
    brk = s.pick([", ", ", \\\n      "])
    return "{" + brk.join(items) + "}"


def header(a):
    s = Src(random.Random(a["seed"]))
    L = ["#ifndef V14_%s_H_" % a["name"].upper(), "#define V14_%s_H_" % a["name"].upper(),
         '#include "cyclus.h"', '#include "v14.h"', ""]
    if s.bool(0.5):
        L += ["#pragma cyclus exec from sidecar import CY_LARGE_DOUBLE, CY_LARGE_INT", ""]
    if a["ns"]:
        L += ["namespace %s {" % a["ns"], ""]
    for k in range(s.int(0, 2)):
        L.append("// a comment; with { braces }")
    cls = a["name"]
    ctypes = {}
    for v in a["vars"]:
        ctypes[v["name"]] = cpptype(V.TYPES[v["t"]], s)
    L += ["class %s : public cyclus::%s, public v14::Shower {" % (cls, a["kind"]), " public:",
          "  %s(cyclus::Context* ctx) : cyclus::%s(ctx) {%s}" % (cls, a["kind"], " tracker0.Init({%s}, 1e9); " % ", ".join(
              "&" + b["name"] for b in a["bufs"] if b["r"] == "Material") if a["track"] else ""),
          "  virtual ~%s() {}" % cls, ""]
    meths = ["initfromcopy", "initfromdb", "infiletodb", "clone", "schema", "annotations", "initinv", "snapshotinv", "snapshot"]
    if a["style"] == "all":
        L.append("  #pragma cyclus")
    elif a["style"] == "split":
        L.append("  #pragma cyclus decl")
    else:
        for m in s.shuffle(meths):
            L.append("  #pragma cyclus %s %s" % (s.pick(["def", "def", "decl"]), m))
    L.append("")
    L.append('  #pragma cyclus note {"doc": "archetype %s", "extra": {"k": [1, 2]}}' % cls)
    L.append("")
    if a["kind"] == "Facility":
        L += ["  virtual void Tick() {}", "  virtual void Tock() {}"]
    L += ["  virtual std::string Show();", "  virtual void Put(const std::string& var, const std::string& enc);",
          "  virtual cyclus::toolkit::ResBuf<cyclus::Material>* MatBuf(const std::string& n);",
          "  virtual cyclus::toolkit::ResBuf<cyclus::Product>* ProdBuf(const std::string& n);", ""]
    acc = s.pick([None, " private:", " protected:"])
    if acc:
        L.append(acc)
        L.append("  friend class cyclus::%s;" % a["kind"])
    done = []
    for v in a["vars"]:
        if s.bool(0.2):
            L.append("  /// documented: %s" % v["name"])
        L.append("  #pragma cyclus var " + annotation(v, s, done))
        k = s.weighted([(8, 0), (1, 1), (1, 2)])
        if k:
            L.append("" if k == 1 else "  // the number of things; see below")
        L.append("  %s %s;" % (ctypes[v["name"]], v["name"]))
        if s.bool(0.3):
            L.append("")
        done.append(v)
    for b in a["bufs"]:
        cap = b["cap"]
        c = "" if cap is None else '"capacity": %s' % (repr(cap) if isinstance(cap, str) else repr(cap))
        L.append("  #pragma cyclus var {%s}" % c)
        L.append("  cyclus::toolkit::ResBuf<cyclus::%s> %s;" % (b["r"], b["name"]))
    if a["track"]:
        L.append("  #pragma cyclus var {\"tooltip\": \"tracker\"}")
        L.append("  cyclus::toolkit::TotalInvTracker tracker0;")
    L += ["};", ""]
    if a["ns"]:
        L.append("}  // namespace " + a["ns"])
    L += ["", "#endif", ""]
    return "\n".join(L)


def source(a):
    """must follow the same choices as header() for the style "sep" """
    q = (a["ns"] + "::" if a["ns"] else "") + a["name"]
    h = header(a)
    L = ['#include "%s.h"' % a["name"], ""]
    if a["ns"]:
        L += ["namespace %s {" % a["ns"], ""]
    c = a["name"]
    if a["style"] == "split":
        for m in ["initfromcopy", "initfromdb", "infiletodb", "clone", "schema", "annotations", "initinv", "snapshotinv", "snapshot"]:
            L.append("#pragma cyclus def %s %s" % (m, q))
    elif a["style"] == "sep":
        for m in re.findall(r"#pragma cyclus decl (\w+)", h):
            L.append("#pragma cyclus def %s %s" % (m, q))
    L.append("")
    L.append("std::string %s::Show() {" % c)
    L.append("  std::string o;")
    for v in a["vars"]:
        L.append('  v14::E("%s", %s, o);' % (v["name"], v["name"]))
    for b in a["bufs"]:
        L.append('  v14::C("%s", %s.capacity(), o);' % (b["name"], b["name"]))
    L.append("  return o;")
    L.append("}")
    L.append("void %s::Put(const std::string& var, const std::string& enc) {" % c)
    for v in a["vars"]:
        L.append('  if (var == "%s") { v14::D(%s, enc); return; }' % (v["name"], v["name"]))
    L.append("}")
    for r, f in (("Material", "MatBuf"), ("Product", "ProdBuf")):
        L.append("cyclus::toolkit::ResBuf<cyclus::%s>* %s::%s(const std::string& n) {" % (r, c, f))
        for b in a["bufs"]:
            if b["r"] == r:
                L.append('  if (n == "%s") return &%s;' % (b["name"], b["name"]))
        L.append("  return NULL;")
        L.append("}")
    L.append('extern "C" v14::Shower* Show14(cyclus::Agent* a) { return dynamic_cast<%s*>(a); }' % c)
    L.append('extern "C" cyclus::Agent* Construct14(cyclus::Context* ctx) { return new %s(ctx); }' % c)
    if a["ns"]:
        L += ["", "}  // namespace " + a["ns"]]
    return "\n".join(L) + "\n"


def build_one(a, tag):
    """-> (path of the shared library, None) or (None, error text)"""
    src = os.path.join(B.BLD, "arch", tag, "src")
    gen = os.path.join(B.BLD, "arch", tag, "gen")
    obj = os.path.join(B.BLD, "arch", tag, "obj")
    out = os.path.join(B.BLD, "arch", tag, "lib")
    for d in (src, gen, obj, out):
        os.makedirs(d, exist_ok=True)
    n = a["name"]
    hp, cp = os.path.join(src, n + ".h"), os.path.join(src, n + ".cc")
    B._write_if_diff(hp, header(a).encode())
    B._write_if_diff(cp, source(a).encode())
    try:
        key = _cykey([hp, cp])
        st = os.path.join(gen, n + ".key")
        gh, gc = os.path.join(gen, n + ".h"), os.path.join(gen, n + ".cc")
        if not (os.path.exists(st) and open(st).read() == key and os.path.exists(gh) and os.path.exists(gc)):
            inc = [os.path.join(B.VERIF, "harness"), src, "/usr/include/libxml2"]
            B.cycpp(hp, gh, inc)
            B.cycpp(cp, gc, inc)
            with open(st, "w") as f:
                f.write(key)
        o = os.path.join(obj, n + ".o")
        B._compile((gc, o, ["-I" + gen]))
        so = os.path.join(out, "lib%s.so" % n)
        B._link(B.GXX + ["-shared", "-Wl,--allow-shlib-undefined", "-o", so, o, "-L" + B.OUT, "-lcyclus",
                         "-Wl,-rpath," + B.OUT] + B.LIBS, so, [o])
        return so, None
    except B.BuildError as e:
        return None, str(e)[-3000:]


_key_cache = {}


def _cykey(files):
    if "tree" not in _key_cache:
        import glob
        h = hashlib.sha1()
        for p in sorted(glob.glob(os.path.join(B.TREE, "src", "**", "*.h*"), recursive=True) +
                        [os.path.join(B.TREE, "cli", "cycpp.py"), os.path.join(B.TREE, "cli", "sidecar.py"),
                         os.path.join(B.VERIF, "harness", "v14.h"), os.path.join(B.VERIF, "harness", "h_val.h"),
                         os.path.join(B.VERIF, "harness", "h_common.h")]):
            with open(p, "rb") as fh:
                h.update(p.encode() + hashlib.sha1(fh.read()).digest())
        _key_cache["tree"] = h.hexdigest()
    h = hashlib.sha1(_key_cache["tree"].encode())
    for p in files:
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def build_all(archs, tag):
    os.makedirs(os.path.join(B.BLD, "arch"), exist_ok=True)
    with open(os.path.join(B.BLD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with concurrent.futures.ThreadPoolExecutor(B.NPROC) as ex:
            return list(ex.map(lambda a: build_one(a, tag), archs))
