"""C24: input trees, agent specs, commodity-recipe contexts and time series."""
import struct

from pbt import Prop, Info, Violation, fl, unfl, hx

NAMES = ["a", "b", "name", "lib", "val", "alias", "path"]
TEXTS = ["x", "fuel", "1", "0", "true", "false", "-3", "2.5", "1e3", " 7 ", "two words", "\u00fc", "A&B", "T", "12x", "\n4\n", "0x10", "1.0", "TRUE", "2147483648"]
WORDS = ["", "u", "a/b", "my-lib", "x.y", "Agent", "a:b", "p_q"]
COMM = ["uox", "mox", "waste", "", "two words"]


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def g_tree(s, d=0):
    """[name, text] or [name, [children]]"""
    n = s.pick(NAMES)
    if d < 3 and s.bool(0.75 if d == 0 else 0.3):
        k = s.int(0, 5) if s.bool(0.95) else s.int(9, 13)
        return [n, [g_tree(s, d + 1) for _ in range(k)]]
    return [n, s.pick(TEXTS)]


def xesc(x):
    return x.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def xml(e, pad):
    n, c = e
    if isinstance(c, str):
        return "<%s>%s</%s>" % (n, xesc(c), n)
    return "<%s>%s%s</%s>" % (n, "".join(("\n  " if pad else "") + xml(x, pad) for x in c), "\n" if pad and c else "", n)


def find(e, q):
    """the elements a path leads to, in document order"""
    cur = [e]
    for p in q.split("/"):
        cur = [x for y in cur if isinstance(y[1], list) for x in y[1] if p in ("*", x[0])]
    return cur


def num(t, x):
    """the value that a text denotes, None if it denotes none, or () where that is not specified"""
    x = x.strip()
    if t == "int":
        try:
            v = int(x) if x.lstrip("+-").isdigit() else None
        except ValueError:
            v = None
        return v if v is not None and -2 ** 31 <= v < 2 ** 31 else None
    if x.startswith("0x"):
        return ()
    try:
        v = float(x)
    except ValueError:
        return None
    return f32(v) if t == "float" else v


class C24(Prop):
    id = "C24"
    harnesses = ("h_tool",)
    quick = 6000
    thorough = 200000
    rule = ("document trees of up to 4 levels with repeated names, asked by path, index and type; agent specs from text, parts and elements; "
            "histories of up to 14 operations on commodity-recipe contexts with copies, data base and input round trips; time series of 1-3 agents over "
            "1-6 steps with listeners; non-trivial: a path with several matches, 3 or more operations, or 2 or more values recorded")
    assumptions = ("indices are not negative", "each time series has values of one type")

    def gen(self, s):
        k = s.weighted([(4, "tree"), (1, "spec"), (2, "crc"), (2, "ts")])
        if k == "tree":
            t = g_tree(s)
            if isinstance(t[1], str):
                t = ["r", [t]]
            ops, subs = [], ["0"]
            for _ in range(s.int(2, 14)):
                o = s.weighted([(2, "sub"), (2, "n"), (0.7, "ne"), (1.5, "en"), (6, "q"), (3, "opt"), (0.5, "specx")])
                r = s.pick(subs)
                q = "/".join(s.weighted([(6, s.pick(NAMES)), (1, "*")]) for _ in range(s.weighted([(4, 1), (2, 2), (1, 3)])))
                i = s.weighted([(4, 0), (3, s.int(0, 3)), (1, s.int(4, 12))])
                ty = s.pick(["int", "double", "float", "bool", "str", "str"])
                if o == "sub":
                    ops.append([o, str(len(subs)), r, q, i])
                    subs.append(str(len(subs)))
                elif o == "n":
                    ops.append([o, r, q])
                elif o == "ne" or o == "specx":
                    ops.append([o, r])
                elif o == "en":
                    ops.append([o, r, i])
                elif o == "q":
                    ops.append([o, ty, r, q, i])
                else:
                    ops.append([o, ty, r, q, {"int": lambda: s.int(-9, 99), "double": lambda: s.int(-9, 99) / 4.0, "float": lambda: s.int(-9, 99) / 4.0,
                                              "bool": lambda: int(s.bool()), "str": lambda: s.pick(TEXTS)}[ty]()])
            return {"kind": k, "tree": t, "pad": s.bool(0.4), "ops": ops}
        if k == "spec":
            return {"kind": k, "ops": [["spec1", ":".join(s.pick(WORDS[:6]) for _ in range(s.weighted([(5, 3), (1, 2), (1, 4)])))] if s.bool() else
                                       ["spec4", s.pick(WORDS), s.pick(WORDS), s.pick(WORDS), s.pick(WORDS)] for _ in range(s.int(2, 6))]}
        if k == "crc":
            ops = [["crc", "c0"]]
            n = 1
            for _ in range(s.int(2, 14)):
                o = s.weighted([(1, "crc"), (1, "cclone"), (5, "cadd"), (2, "crec"), (3, "cres"), (2, "cupd"), (2, "crem"), (2, "ceq"), (2, "csave"), (1, "cfile")])
                c = "c%d" % s.int(0, n - 1)
                w = lambda: s.pick(COMM)
                if o == "crc":
                    ops.append([o, "c%d" % n])
                elif o in ("cclone", "csave"):
                    ops.append([o, "c%d" % n, c])
                elif o == "cfile":
                    ops.append([o, "c%d" % n, [[s.pick(COMM[:3]) for _ in range(4)] for _ in range(s.int(1, 4))]])
                elif o == "cadd":
                    ops.append([o, c, w(), w(), w(), w()])
                elif o == "crec":
                    known = [x[2] for x in ops if x[0] == "cadd" and x[1] == c]
                    if known:
                        ops.append([o, c, s.pick(known), w()])
                elif o in ("cres", "cupd"):
                    ops.append([o, c, s.int(0, 3), w()])
                elif o == "crem":
                    ops.append([o, c, s.int(0, 3)])
                else:
                    ops.append([o, c, "c%d" % s.int(0, n - 1)])
                if o in ("crc", "cclone", "csave", "cfile"):
                    n += 1
            return {"kind": k, "ops": ops}
        series = {x: s.pick(["double", "float", "int", "bool", "str"]) for x in s.subset(["demand", "flow", "x y", "Power"]) or ["flow"]}
        if "Power" in series:
            series["Power"] = "double"
        lis = [s.pick(list(series) + ["Power"]) for _ in range(s.int(0, 4))]
        dur, na = s.int(1, 6), s.int(1, 3)
        ev = []
        for _ in range(s.int(1, 14)):
            n = s.pick(list(series) + ["power", "swu", "feed", "power0"])
            ty = series.get(n, n)
            v = {"int": lambda: s.int(-5, 2000000000), "bool": lambda: int(s.bool()), "str": lambda: s.pick(TEXTS),
                 "float": lambda: fl(s.int(-99, 999) / 8.0)}.get(ty, lambda: fl(s.weighted([(3, s.int(-99, 999) / 8.0), (1, s.real(-1e9, 1e9))])))()
            ev.append([s.int(0, dur - 1), s.int(0, na - 1), n, ty, v, s.pick(["", "MWe", "kg SWU", "\u00b5g"]), int(s.bool(0.4))])
        return {"kind": k, "dur": dur, "agents": na, "listen": [[x, series.get(x, "double")] for x in lis], "ev": ev}

    def check(self, c, rig):
        return getattr(self, "check_" + c["kind"])(c, rig)

    def ask(self, rig, L, want):
        out = rig.run("h_tool", "\n".join(L))
        if len(out) != len(L):
            raise Violation("%d answers to %d requests: %s" % (len(out), len(L), out[-2:]))
        for l, w, a in zip(L, want, out):
            if w is None:
                continue
            ok = a.startswith("ERR") if w == "ERR" else a == w
            if not ok and callable(w):
                ok = w(a)
            if not ok:
                show = " ".join(bytes.fromhex(x).decode("utf8", "replace") if len(x) % 2 == 0 and len(x) > 1 and all(h in "0123456789abcdef" for h in x)
                                else x for x in l.split())
                raise Violation("%s gives %s, expected %s" % (show[:600], a[:300], "something else" if callable(w) else w[:300]))

    def check_tree(self, c, rig):
        L, W = ["xml 0 %s" % hx(xml(c["tree"], c["pad"]))], ["OK"]
        known = {"0": c["tree"]}
        several = False

        def text(e):
            """the text of an element, None if it is not just text"""
            return e[1] if isinstance(e[1], str) else None

        for o in c["ops"]:
            k = o[0]
            r = o[2] if k in ("sub", "q", "opt") else o[1]
            if r not in known:
                continue
            e = known[r]
            kids = e[1] if isinstance(e[1], list) else []
            if k == "sub":
                m = find(e, o[3])
                several |= len(m) > 1
                if o[4] < len(m):
                    known[o[1]] = m[o[4]]
                L.append("sub %s %s %s %d" % (o[1], r, hx(o[3]), o[4]))
                W.append("OK" if o[4] < len(m) else "ERR")
            elif k == "n":
                L.append("n %s %s" % (r, hx(o[2])))
                W.append("N %d" % len(find(e, o[2])))
            elif k == "ne":
                L.append("ne " + r)
                W.append("N %d" % len(kids))
            elif k == "en":
                L.append("en %s %d" % (r, o[2]))
                W.append("V " + hx(kids[o[2]][0]) if o[2] < len(kids) else "ERR")
            elif k == "specx":
                get = lambda n, d: d if len(find(e, n)) != 1 else text(find(e, n)[0])
                m = find(e, "name")
                ag = text(m[0]) if m else None
                v = [get("path", ""), get("lib", ag), ag, get("alias", ag)]
                L.append("specx " + r)
                W.append("ERR" if any(x is None for x in v) else self.spec(v))
            else:
                ty, q = o[1], o[3]
                m = find(e, q)
                several |= len(m) > 1
                i = o[4] if k == "q" else 0
                L.append("%s %s %s %s %s" % (k, ty, r, hx(q), i if k == "q" else hx(o[4]) if ty == "str" else o[4] if ty in ("int", "bool") else fl(o[4])))
                if k == "opt" and (len(m) == 0 or len(m) > 1 and ty != "bool"):
                    v = o[4]
                    W.append(self.val(ty, v))
                    continue
                if k == "opt" and len(m) > 1:
                    W.append(None)
                    continue
                t = text(m[i]) if i < len(m) else None
                if t is None or c["pad"] and t == "" or t == "":
                    W.append("ERR")
                elif ty == "str":
                    W.append("V " + hx(t))
                elif ty == "bool":
                    b = t.strip()
                    if k == "q":
                        W.append("V 1" if b in ("true", "1") else "V 0" if b in ("false", "0") else "ERR" if num("double", b) is None else None)
                    else:
                        W.append("V 1" if b.lower() in ("true", "t", "1") else "V 0" if b.lower() in ("false", "f", "0") else None)
                else:
                    v = num(ty, t)
                    W.append(None if v == () else "ERR" if v is None else self.val(ty, v))
        self.ask(rig, L, W)
        return Info(several, ["tree"])

    def val(self, ty, v):
        if ty in ("double", "float"):
            return lambda a, v=v: a.startswith("V ") and unfl(a[2:]) == v
        return "V " + (hx(v) if ty == "str" else str(int(v)))

    def spec(self, v):
        full = ":".join(v[:3])
        san = full
        for ch in "/-:.":
            san = san.replace(ch, "_")
        return "SPEC " + " ".join(hx(x) for x in v + [full, san])

    def check_spec(self, c, rig):
        L, W = [], []
        for o in c["ops"]:
            L.append(o[0] + " " + " ".join(hx(x) for x in o[1:]))
            if o[0] == "spec1":
                p = o[1].split(":")
                W.append(self.spec(p + [p[2]]) if len(p) == 3 else "ERR")
            else:
                W.append(self.spec([o[1], o[2] or o[3], o[3], o[4] or o[3]]))
        self.ask(rig, L, W)
        return Info(True, ["spec"])

    def check_crc(self, c, rig):
        L, W = [], []
        st = {}

        def show(n):
            ins, rs = st[n]["in"], st[n]["res"]
            o = lambda v: hx(v)
            b = sorted(ins, key=lambda x: x.encode())
            outs = sorted(st[n]["out"], key=lambda x: x.encode())
            L.append("cshow " + n)
            W.append(" ".join(["CRC", str(len(b))] + [o(x) for x in b] + [str(len(outs))] + [o(x) for x in outs] +
                              [o(y) for x in b for y in (ins[x][1], ins[x][0], ins[x][2])] + [o(rs.get(i, "")) for i in range(4)]))
        cnt = 0
        for o in c["ops"]:
            k, n = o[0], o[1]
            line = None
            if k == "crc":
                st[n] = {"in": {}, "out": set(), "res": {}}
            elif k == "cclone":
                st[n] = {"in": dict(st[o[2]]["in"]), "out": set(st[o[2]]["out"]), "res": dict(st[o[2]]["res"])}
            elif k == "csave":
                a = st[o[2]]
                # only what is in the map of commodities is saved
                st[n] = {"in": dict(a["in"]), "out": {v[1] for v in a["in"].values()}, "res": dict(a["res"])}
                if not a["in"]:
                    # nothing to look for in the data base
                    del st[n]
                    st[n] = {"in": {}, "out": set(), "res": {}}
                    line = "crc " + n
                else:
                    line = "csave %s %s :memory:" % (n, o[2])
            elif k == "cfile":
                st[n] = {"in": {v[0]: (v[1], v[2], v[3]) for v in o[2]}, "out": {v[2] for v in o[2]}, "res": {}}
                x = "<f>" + "".join("<fuel>" + "".join("<%s>%s</%s>" % (t, xesc(y), t) for t, y in
                                                       zip(("incommodity", "inrecipe", "outcommodity", "outrecipe"), v)) + "</fuel>" for v in o[2]) + "</f>"
                L.append("xml t%s %s" % (n, hx(x)))
                W.append("OK")
                line = "cfile %s t%s :memory:" % (n, n)
            elif k == "cadd":
                st[n]["in"][o[2]] = (o[3], o[4], o[5])
                st[n]["out"].add(o[4])
            elif k == "crec":
                v = st[n]["in"][o[2]]
                st[n]["in"][o[2]] = (o[3],) + v[1:]
            elif k in ("cres", "cupd"):
                st[n]["res"][o[2]] = o[3]
            elif k == "crem":
                st[n]["res"].pop(o[2], None)
            else:
                a, b = st[n], st[o[2]]
                L.append("ceq %s %s" % (n, o[2]))
                W.append("N %d" % int(a["in"] == b["in"] and a["res"] == b["res"] and len(a["out"]) == len(b["out"])))
                continue
            if line is None:
                line = " ".join([k, n] + [x if k == "cclone" else str(x) if isinstance(x, int) else hx(x) for x in o[2:]])
            L.append(line)
            W.append("OK")
            cnt += 1
            for m in sorted(st):
                show(m)
        self.ask(rig, L, W)
        return Info(cnt >= 3, ["crc"])

    def check_ts(self, c, rig):
        L = ["listen %s %s" % (hx(n), t) for n, t in c["listen"]]
        nl = len(L)
        for t, a, n, ty, v, u, ph in c["ev"]:
            L.append("ts %d %d %s %s %s %s %d" % (t, a, hx(n), ty, hx(v) if ty == "str" else v, hx(u), ph))
        L.append("run %d %d" % (c["dur"], c["agents"]))
        out = rig.run("h_tool", "\n".join(L))
        if out[:nl] != ["OK"] * nl or not out[nl:] or not out[nl].startswith("IDS") or out[-1] != "DONE":
            raise Violation("the run fails: %s" % out[-2:])
        ids = [int(x) for x in out[nl].split()[1:]]
        got = [x for x in out[nl + 1:-1] if x.startswith("HEARD") or x.startswith("ROW TimeSeries")]
        # per agent and phase in order; agents within a phase in any order
        per = {}
        table = {"power": "Power", "power0": "Power", "swu": "EnrichmentSWU", "feed": "EnrichmentFeed"}
        for ph in (0, 1):
            for t, a, n, ty, v, u, p in c["ev"]:
                if p != ph:
                    continue
                name = table.get(n, n)
                ty = "double" if n in table else ty
                u = "" if n == "power0" else u
                val = hx(v) if ty == "str" else str(v) if ty in ("int", "bool") else v
                row = ["ROW", name, ids[a], t, ty, val, u]
                heard = [["HEARD", i, ids[a], t, ty, val, name] for i in range(len([1 for x, _ in c["listen"] if x == name]))]
                per.setdefault((t, ph, ids[a]), []).extend([row] + heard)
        seen = {}
        for g in got:
            if g.startswith("HEARD"):
                w = g.split()
                key, x = (int(w[3]), int(w[2])), ["HEARD", int(w[1]), int(w[2]), int(w[3]), None, w[4], bytes.fromhex(w[5]).decode() if w[5] != "-" else ""]
            else:
                m = [p.split() for p in g.split(" | ")]
                d = {p[0]: p[1:] for p in m[1:]}
                if [p[0] for p in m[1:]] != ["AgentId", "Time", "Value", "Units"]:
                    raise Violation("a time series has the columns %s" % m)
                key = (int(d["Time"][1]), int(d["AgentId"][1]))
                x = ["ROW", g.split(" | ")[0][len("ROW TimeSeries"):], key[1], key[0], d["Value"][0], d["Value"][1],
                     bytes.fromhex(d["Units"][1]).decode() if d["Units"][1] != "-" else ""]
            seen.setdefault(key, []).append(x)
        want = {}
        for (t, ph, a), v in sorted(per.items()):
            want.setdefault((t, a), []).extend(v)
        same = lambda x, y: len(x) == len(y) and all(
            p[:4] == q[:4] and p[6] == q[6] and (p[4] is None or p[4] == q[4]) and
            (unfl(p[5]) == unfl(q[5]) if q[4] in ("double", "float") else p[5] == q[5]) for p, q in zip(x, y))
        for key in set(seen) | set(want):
            if not same(seen.get(key, []), want.get(key, [])):
                raise Violation("at time %d agent %d recorded and told %s, expected %s" % (key + (seen.get(key), want.get(key))))
        return Info(len(c["ev"]) >= 2, ["ts"])


PROP = C24()
