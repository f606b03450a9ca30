"""Generators, encoders and comparison of recorder values; type ids as in h_val.h."""
import math
import struct
from pbt import hx, fl

# structure of each type id: scalar name or [container, ...]
PRIM = {"B": "bool", "i": "int", "f": "float", "d": "double", "s": "str", "b": "blob", "u": "uuid"}
TYPES = {k: k for k in ("bool", "int", "float", "double", "str", "blob", "uuid")}
for c, n in (("v", "vec"), ("s", "set"), ("l", "list")):
    for p in "ifdsbu":
        TYPES[c + p] = [n, PRIM[p]]
TYPES["lB"] = ["list", "bool"]
for k in "is":
    for p in "Bifdsbu":
        TYPES["p" + k + p] = ["pair", PRIM[k], PRIM[p]]
        TYPES["m" + k + p] = ["map", PRIM[k], PRIM[p]]
TYPES["pdd"] = ["pair", "double", "double"]
TYPES["mPisd"] = ["map", ["pair", "int", "str"], "double"]
TYPES["msvd"] = ["map", "str", ["vec", "double"]]
TYPES["msmid"] = ["map", "str", ["map", "int", "double"]]
TYPES["msPdmid"] = ["map", "str", ["pair", "double", ["map", "int", "double"]]]
TYPES["misX"] = ["map", "int", ["map", "str", "double"]]
TYPES["msvPiPss"] = ["map", "str", ["vec", ["pair", "int", ["pair", "str", "str"]]]]
TYPES["lpii"] = ["list", ["pair", "int", "int"]]
TYPES["mspsvd"] = ["map", "str", ["pair", "str", ["vec", "double"]]]
TYPES["msmsi"] = ["map", "str", ["map", "str", "int"]]
TYPES["vPPddmsd"] = ["vec", ["pair", ["pair", "double", "double"], ["map", "str", "double"]]]
TYPES["piPss"] = ["pair", "int", ["pair", "str", "str"]]
TYPES["PPddmsd"] = ["pair", ["pair", "double", "double"], ["map", "str", "double"]]
TYPES["pdmid"] = ["pair", "double", ["map", "int", "double"]]
TYPES["vpiPss"] = ["vec", ["pair", "int", ["pair", "str", "str"]]]
TYPES["psvd"] = ["pair", "str", ["vec", "double"]]
TYPES["mPssi"] = ["map", ["pair", "str", "str"], "int"]
TYPES["msmsd"] = ["map", "str", ["map", "str", "double"]]

SQLITE = ["bool", "int", "float", "double", "str", "blob", "uuid", "si", "ss", "li", "ls", "vi", "vd", "vs", "mid", "mii", "mis",
          "msi", "msd", "mss", "msvd", "msmid", "msPdmid", "misX", "msvPiPss", "mspsvd", "lpii", "msmsi", "vPPddmsd", "mPssi", "msmsd"]
HDF5 = list(TYPES)


def f32(x):
    try:
        y = struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return 0.0
    return y if math.isfinite(y) else 0.0


def g_str(s, text=None, maxlen=None):
    k = s.weighted([(4, "ab"), (2, "word"), (1, "odd"), (1, "empty"), (0.3, "long")])
    if k == "empty":
        r = ""
    elif k == "ab":
        r = "".join(s.list(lambda: s.pick("ab0"), 1, 4))
    elif k == "word":
        r = s.pick(["commod", "Source", "u235", "spent fuel", "x_y-z", "1", "01", "1e3", "None", "true", "shape"])
    elif k == "odd":
        r = "".join(s.list(lambda: s.pick(text or " '\"<>&;\\%é,{}[]()\n\tß=?#"), 1, 6))
    else:
        r = s.pick(["q", "zy"]) * s.int(30, 300)
    if maxlen is not None:
        while len(r.encode("utf8")) > maxlen:
            r = r[:-1]
    return r


def g_int(s):
    return s.weighted([(4, s.int(-5, 20)), (2, s.int(-100000, 100000)), (1, s.pick([2147483647, -2147483648, 0, 65536, 922350000]))])


def g_blob(s, bad=""):
    r = bytes(s.list(lambda: s.weighted([(3, s.int(97, 99)), (1, s.int(1, 255))]), 0, 8))
    return r.decode("latin1")


def g_uuid(s, z=True):
    k = s.weighted([(3, "r"), (1, "n"), (1, "z")])
    if k == "n":
        return "00" * 16
    if k == "z":
        return "".join(s.pick(["00", "01", "ff"]) for _ in range(16))
    return "".join("%02x" % s.int(0, 255) for _ in range(16))


def g_prim(s, t, o):
    if t == "bool":
        return s.bool()
    if t == "int":
        return g_int(s)
    if t == "float":
        return f32(s.anydouble())
    if t == "double":
        return s.anydouble()
    if t == "str":
        return g_str(s, o.get("text"), o.get("maxlen"))
    if t == "blob":
        return (o.get("blob") or g_blob)(s)
    if t == "uuid":
        return g_uuid(s)
    raise KeyError(t)


def key(t, v):
    """order and identity of set elements and map keys"""
    if isinstance(t, list):
        return tuple(key(a, b) for a, b in zip(t[1:], v))
    if t == "str":
        return v.encode("utf8")
    if t == "blob":
        return v.encode("latin1")
    return v


def g_val(s, t, o):
    """o: options; n(path) gives the exact size of containers, or None for any"""
    if not isinstance(t, list):
        return g_prim(s, t, o)
    if t[0] == "pair":
        return [g_val(s, t[1], o), g_val(s, t[2], o)]
    n = o.get("n")
    cnt = n if n is not None else s.weighted([(1, 0), (5, s.int(1, 3)), (1, s.int(2, 8))])
    if t[0] in ("vec", "list"):
        return [g_val(s, t[1], o) for _ in range(cnt)]
    out, seen = [], set()
    tries = 0
    while len(out) < cnt:
        kt = t[1]
        k = g_val(s, kt, o)
        tries += 1
        if n is not None and tries > 6:   # an exact number of different keys is needed
            k = distinct(kt, len(out))
        kk = key(kt, k)
        if kk in seen:
            if n is None:
                cnt -= 1
            continue
        seen.add(kk)
        out.append(k if t[0] == "set" else [k, g_val(s, t[2], o)])
    out.sort(key=lambda e: key(t[1], e if t[0] == "set" else e[0]))
    return out


def distinct(t, i):
    if isinstance(t, list):
        return [distinct(x, i) for x in t[1:]]
    return {"int": 1000 + i, "str": "%c%d" % (107 + i % 10, i), "float": 1000.5 + i, "double": 1000.5 + i, "bool": bool(i % 2),
            "blob": "q%d" % i, "uuid": "%032x" % (i + 7)}[t]


def enc(t, v):
    if not isinstance(t, list):
        if t == "bool":
            return ["1" if v else "0"]
        if t == "int":
            return [str(v)]
        if t in ("float", "double"):
            return [fl(v)]
        if t == "str":
            return [hx(v)]
        if t == "blob":
            return [v.encode("latin1").hex() or "-"]
        return [v]
    if t[0] == "pair":
        return enc(t[1], v[0]) + enc(t[2], v[1])
    r = [str(len(v))]
    for e in v:
        if t[0] == "map":
            r += enc(t[1], e[0]) + enc(t[2], e[1])
        else:
            r += enc(t[1], e)
    return r


def enc_id(tid, v):
    return " ".join(enc(TYPES[tid], v))


def canon(toks):
    """normal form of an encoded value (numbers as hex floats may be written differently)"""
    out = []
    for x in toks:
        if "0x" in x or x in ("inf", "-inf", "nan"):
            out.append(fl(float.fromhex(x)))
        else:
            out.append(x)
    return out
