"""Generated database histories and their model, for the SQLite and HDF5 back ends."""
import operator
from pbt import Violation, Info, hx
import vallib as V

OPS = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}
COLS = ["AgentId", "Time", "Quantity", "Commodity", "col_a", "b", "Value", "Recipe", "x9"]
TABS = ["Transactions", "T1", "AgentState_agents_x", "res", "Inv"]
MORECOLS = ["Units", "d4", "flag", "SimTime", "e_e", "Lifetime", "zz"]
MORETABS = ["Resources", "Products", "AgentEntry", "T2", "Info"]


def nodes(t):
    if not isinstance(t, list):
        return [t]
    r = [t[0]]
    for x in t[1:]:
        r += nodes(x)
    return r


def g_shaped(s, t, o, shp):
    """a value of type t that fits the shape (one entry per node, preorder); -> value; consumes shp"""
    n = shp.pop(0)
    if not isinstance(t, list):
        if t == "str":
            return V.g_prim(s, t, dict(o, maxlen=n) if n > 0 else o)
        return V.g_prim(s, t, o)
    if t[0] == "pair":
        a = g_shaped(s, t[1], o, shp)
        return [a, g_shaped(s, t[2], o, shp)]
    cnt = n if n > 0 else s.weighted([(1, 0), (5, s.int(1, 3)), (1, s.int(2, 7))])
    out, seen = [], set()
    base = list(shp)
    used = None
    tries = 0
    i = 0
    while i < cnt or used is None:
        sub = list(base)
        k = g_shaped(s, t[1], o, sub)
        if t[0] == "map":
            v = g_shaped(s, t[2], o, sub)
        used = len(base) - len(sub)
        if i >= cnt:
            break
        if t[0] in ("set", "map"):
            kk = V.key(t[1], k)
            tries += 1
            if kk in seen:
                if n <= 0:
                    cnt -= 1
                    continue
                if tries > 6:
                    k = small_distinct(t[1], i)
                    kk = V.key(t[1], k)
                    if kk in seen:
                        continue
                else:
                    continue
            seen.add(kk)
        out.append(k if t[0] != "map" else [k, v])
        i += 1
    del shp[:used]
    if t[0] in ("set", "map"):
        out.sort(key=lambda e: V.key(t[1], e if t[0] == "set" else e[0]))
    return out


def small_distinct(t, i):
    if isinstance(t, list):
        return [small_distinct(x, i) for x in t[1:]]
    return V.distinct(t, i) if t != "str" else chr(65 + i)


def gen_db(s, kind, types, o, shapes):
    tabs = {}
    many = s.bool(0.06)
    names = s.shuffle(TABS + MORETABS)[:s.int(4, 10)] if many else s.shuffle(TABS)[:s.int(1, 3)]
    for n in names:
        cols = []
        wide = not many and s.bool(0.1)
        for c in s.shuffle(COLS + MORECOLS)[:s.int(6, 16)] if wide else s.shuffle(COLS)[:s.int(1, 5)]:
            tid = s.pick(types) if s.bool(0.7) else s.pick(["int", "double", "str"])
            t = V.TYPES[tid]
            shp = None
            if shapes and s.bool(0.5):
                shp = []
                for x in nodes(t):
                    shp.append(s.int(1, 3) if x in ("vec", "list", "set", "map") and s.bool() else
                               s.int(1, 12) if x == "str" and s.bool() else s.pick([-1, -1, 0]))
            cols.append([c, tid, shp])
        tabs[n] = cols
    uuids = [V.g_uuid(s) for _ in range(2)]
    inject = s.bool(0.8)
    ops = []
    nsess = s.weighted([(2, 1), (3, 2), (1, 3)])
    seenvals = {}
    big = s.bool(0.04)
    for k in range(nsess):
        ops.append(["open", s.pick(uuids) if inject else "-", s.weighted([(2, 1), (3, s.int(2, 9)), (2, 1000)])])
        for _ in range(s.int(1, 24 if many else 14)):
            what = s.weighted([(8, "datum"), (1, "flush"), (2, "query"), (0.5, "schema"), (0.5, "tables"), (1 if big else 0, "bulk")])
            n = s.pick(names)
            if what == "datum":
                for _ in range(s.weighted([(5, 1), (1, 4)])):
                    vals = []
                    for c, tid, shp in tabs[n]:
                        old = seenvals.setdefault((n, c), [])
                        if old and s.bool(0.3):
                            v = s.pick(old)
                        else:
                            t = V.TYPES[tid]
                            v = g_shaped(s, t, o, list(shp)) if shp else V.g_val(s, t, o)
                            old.append(v)
                        vals.append(v)
                    ops.append(["datum", n, vals])
            elif what == "query":
                ops.append(["query"] + gen_query(s, kind, tabs, seenvals, n, uuids if inject else None, o))
            elif what == "bulk":
                ops.append(["bulk", "Big", s.pick([1, 5, 1000, 1023, 1024, 1025, 2048, 2049]), s.int(0, 3)])
            elif what == "schema":
                ops.append(["schema", n])
            else:
                ops.append([what])
        ops.append(["close"])
    # read everything back
    ops.append(["open", uuids[0] if inject else "-", 5])
    for n in names:
        ops.append(["query", n, None])
        ops.append(["schema", n])
        for _ in range(s.int(1, 3)):
            ops.append(["query"] + gen_query(s, kind, tabs, seenvals, n, uuids if inject else None, o))
    if big:
        ops.append(["query", "Big", None])
        ops.append(["query", "Big", [["n", s.pick(list(OPS)), "int", s.int(0, 2100)], ["s", "==", "str", "s%d" % s.int(0, 6)]]])
    ops.append(["tables"])
    ops.append(["query", "NoSuchTable", None])
    ops.append(["close"])
    return {"tabs": tabs, "inject": inject, "ops": ops}


def gen_query(s, kind, tabs, seenvals, n, uuids, o):
    conds = []
    for _ in range(s.weighted([(1, 0), (4, 1), (2, 2), (1, 3)])):
        if uuids and s.bool(0.15):
            conds.append(["SimId", s.pick(["==", "!="]), "uuid", s.pick(uuids)])
            continue
        c, tid, shp = s.pick(tabs[n])
        t = V.TYPES[tid]
        old = seenvals.get((n, c), [])
        v = s.pick(old) if old and s.bool(0.75) else V.g_val(s, t, o)
        ordered = kind == "hdf5" or not isinstance(t, list)
        conds.append([c, s.pick(list(OPS) if ordered else ["==", "!="]), tid, v])
    if not conds:
        return [n, s.pick([None, []])]
    return [n, conds]


def text(kind, c):
    out = []
    for op in c["ops"]:
        if op[0] == "open":
            out.append("open %s %s %d" % (kind, op[1], op[2]))
        elif op[0] == "datum":
            cols = c["tabs"][op[1]]
            p = ["datum", op[1], str(len(cols))]
            for (name, tid, shp), v in zip(cols, op[2]):
                p += [hx(name), tid, str(-1 if shp is None else len(shp))] + [str(x) for x in shp or []] + [V.enc_id(tid, v)]
            out.append(" ".join(p))
        elif op[0] == "query":
            p = ["query", op[1], str(-1 if op[2] is None else len(op[2]))]
            for f, o, tid, v in op[2] or []:
                p += [hx(f), o, tid, V.enc_id(tid, v)]
            out.append(" ".join(p))
        else:
            out.append(" ".join(map(str, op)))
    return out


def ckey(t, v, kind):
    """comparable form of a value"""
    if not isinstance(t, list):
        return V.key(t, v)
    if kind == "sqlite":
        return V.canon(V.enc(t, v))
    if t[0] == "map":
        return [[ckey(t[1], a, kind), ckey(t[2], b, kind)] for a, b in v]
    if t[0] == "pair":
        return [ckey(t[1], v[0], kind), ckey(t[2], v[1], kind)]
    return [ckey(t[1], e, kind) for e in v]


def check_db(kind, c, obs, zero):
    """zero(tid, toks) -> toks as stored"""
    per = []
    for ln in obs:
        if ln.startswith("OP "):
            per.append([])
        else:
            per[-1].append(ln)
    ops = c["ops"]
    if len(per) != len(ops):
        raise Violation("only %d of %d operations were done" % (len(per), len(ops)))
    rows = {}
    sid = None
    pend = []
    cap = 1
    labels = set()
    dbt = {}
    nq = nsel = 0
    bigcols = [["n", "int", None], ["d", "double", None], ["s", "str", None]]

    def cols(n):
        cs = bigcols if n == "Big" else c["tabs"][n]
        return ([["SimId", "uuid", None]] if c["inject"] else []) + cs

    def add(n, vals):
        nonlocal pend
        pend.append((n, ([sid] if c["inject"] else []) + vals))
        if len(pend) >= max(cap, 1):
            flush()

    def flush():
        nonlocal pend
        for n, v in pend:
            rows.setdefault(n, []).append(v)
        pend = []
    for i, op in enumerate(ops):
        got = per[i]
        err = got[0] if got and got[0].startswith("ERR") else None
        where = "operation %d (%s)" % (i, " ".join(map(str, op[:2])))
        if op[0] == "open":
            sid, cap, pend = op[1], op[2], []
        elif op[0] == "close" or op[0] == "flush":
            flush()
        elif op[0] == "datum":
            add(op[1], op[2])
        elif op[0] == "bulk":
            for j in range(op[2]):
                b = op[3] + j
                add(op[1], [b, b / 8.0, "s%d" % (b % 7)])
            labels.add("many rows")
        if op[0] in ("query", "schema", "types") and not rows.get(op[1]):
            if op[0] == "query" and err is None:
                raise Violation("%s: a table that does not exist was queried without an error" % where)
            continue
        if op[0] in ("schema", "types") and err is None and op[1] not in rows:
            continue
        if err is not None:
            raise Violation("%s failed: %s" % (where, bytes.fromhex(err.split()[2]).decode("utf8", "replace") if len(err.split()) > 2 and err.split()[2] != "-" else err))
        if op[0] == "query":
            n = op[1]
            cs = cols(n)
            f = got[0].split()[1:]
            names, types = f[0::2], f[1::2]
            if names != [hx(x[0]) for x in cs]:
                raise Violation("%s: fields %s, expected %s" % (where, names, [hx(x[0]) for x in cs]))
            if dbt.setdefault(n, types) != types:
                raise Violation("%s: column types %s, were %s before" % (where, types, dbt[n]))
            idx = {x[0]: k for k, x in enumerate(cs)}
            exp = []
            for r in rows[n]:
                ok = True
                for fld, o, tid, v in op[2] or []:
                    t = V.TYPES[tid]
                    if not OPS[o](ckey(t, r[idx[fld]], kind), ckey(t, v, kind)):
                        ok = False
                if ok:
                    exp.append([(x[1], zero(x[1], V.canon(V.enc(V.TYPES[x[1]], val)))) for x, val in zip(cs, r)])
            have = []
            for ln in got[1:]:
                have.append([(p.split()[0], zero(p.split()[0], V.canon(p.split()[1:]))) for p in ln.split(" | ")[1:]])
            if have != exp:
                k = next((j for j in range(min(len(have), len(exp))) if have[j] != exp[j]), min(len(have), len(exp)))
                d = ""
                if k < len(have) and k < len(exp):
                    j = next((j for j in range(len(cs)) if j >= len(have[k]) or have[k][j] != exp[k][j]), None)
                    d = " in column %s: got %s, expected %s" % (cs[j], have[k][j:j + 1], exp[k][j])
                raise Violation("%s with %s returned %d rows, expected %d; first difference at row %d%s" % (
                    where, op[2], len(have), len(exp), k, d))
            nq += 1
            if op[2] and 0 < len(exp) < len(rows[n]):
                nsel += 1
                labels.add("selective query")
            for x in cs:
                labels.add("type " + x[1] + (" shaped" if x[2] and any(y > 0 for y in x[2]) else ""))
        elif op[0] == "schema":
            cs = cols(op[1])
            for k, ln in enumerate(got):
                t = ln.split()
                if t[:4] != ["COL", hx(op[1]), hx(cs[k][0]), str(k)] or (op[1] in dbt and dbt[op[1]][k] != t[4]):
                    raise Violation("%s: column %d is %s, expected %s of type %s" % (where, k, ln, cs[k], dbt.get(op[1])))
                if kind == "hdf5" and t[5:] != [str(y) for y in cs[k][2] or [-1]]:
                    raise Violation("%s: column %d has shape %s, expected %s" % (where, k, t[5:], cs[k][2]))
            if len(got) != len(cs):
                raise Violation("%s: %d columns, expected %d" % (where, len(got), len(cs)))
        elif op[0] == "tables":
            e = sorted("TABLE " + hx(n) for n in rows)
            if sorted(got) != e:
                raise Violation("%s: %s, expected %s" % (where, sorted(got), e))
    return Info(nq > 0 and any(len(r) > 1 for r in rows.values()), sorted(labels))
