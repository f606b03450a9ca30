"""h_py.py: serves cases that use the Python package; same protocol as the C++ harnesses, one JSON line per case,
one forked process per case."""
import json
import os
import resource
import shutil
import signal
import struct
import sys
import tempfile
import uuid

_real = os.dup(1)
_nul = os.open(os.devnull, os.O_RDWR)
os.dup2(_nul, 1)
os.dup2(_nul, 2)
import numpy as np  # noqa
import pandas as pd  # noqa
import cyclus.lib as lib  # noqa
import cyclus.memback as memback  # noqa
import cyclus.typesystem as ts  # noqa

OBS = None


class Bad(Exception):
    pass


def out(*a):
    OBS.write(json.dumps(a) + "\n")
    OBS.flush()


P = {"bool": "bool", "int": "int", "float": "float", "double": "double", "str": "std::string", "blob": "cyclus::Blob",
     "uuid": "boost::uuids::uuid"}
C = {"vec": "std::vector", "set": "std::set", "list": "std::list", "pair": "std::pair", "map": "std::map"}


def norm(t):
    return P[t] if not isinstance(t, list) else (C[t[0]],) + tuple(norm(x) for x in t[1:])


def dec(t, v):
    """case value -> Python value"""
    if not isinstance(t, list):
        if t == "blob":
            return v.encode("latin1")
        if t == "uuid":
            return uuid.UUID(hex=v)
        if t in ("double", "float"):
            return float.fromhex(v)
        return v
    if t[0] == "pair":
        return (dec(t[1], v[0]), dec(t[2], v[1]))
    if t[0] in ("vec", "list"):
        return [dec(t[1], x) for x in v]
    if t[0] == "set":
        return {dec(t[1], x) for x in v}
    return {dec(t[1], k): dec(t[2], x) for k, x in v}


def skey(x):
    return json.dumps(x)


def enc(t, v):
    """what Python got -> canonical JSON, with the kind of value where it is wrong"""
    if not isinstance(t, list):
        if t == "bool":
            return bool(v) if isinstance(v, (bool, np.bool_)) else ["not a bool", repr(v)]
        if t == "int":
            return int(v) if isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_)) else ["not an int", repr(v)]
        if t in ("double", "float"):
            return float(v).hex() if isinstance(v, (float, np.floating)) else ["not a float", repr(v)]
        if t == "str":
            return str(v) if isinstance(v, str) else ["not a str", repr(v)]
        if t == "blob":
            return v.decode("latin1") if isinstance(v, bytes) else ["not bytes", repr(v)]
        if t == "uuid":
            return v.hex if isinstance(v, uuid.UUID) else ["not a uuid", repr(v)]
        raise Bad(t)
    if t[0] == "pair":
        return [enc(t[1], v[0]), enc(t[2], v[1])] if isinstance(v, tuple) and len(v) == 2 else ["not a pair", repr(v)]
    if t[0] in ("vec", "list"):
        return [enc(t[1], x) for x in v] if isinstance(v, (list, np.ndarray)) else ["not a sequence", repr(v)]
    if t[0] == "set":
        return sorted((enc(t[1], x) for x in v), key=skey) if isinstance(v, (set, frozenset)) else ["not a set", repr(v)]
    return sorted(([enc(t[1], k), enc(t[2], x)] for k, x in v.items()), key=skey) if isinstance(v, dict) else ["not a dict", repr(v)]


def frame(df, types):
    if df is None:
        return None
    cols = list(df.columns)
    return [cols, [[enc(types[c], df[c].iloc[i]) for c in cols] for i in range(len(df))]]


def run_rec(c, tmp):
    rec = lib.Recorder(inject_sim_id=c["inject"])
    rec.dump_count = c["dump"]
    out("sim", rec.sim_id.hex, rec.dump_count, bool(rec.inject_sim_id))
    backs = []
    for i, b in enumerate(c["backs"]):
        if b["k"] == "sqlite":
            x = lib.SqliteBack(os.path.join(tmp, "b%d.sqlite" % i))
        elif b["k"] == "h5":
            x = lib.Hdf5Back(os.path.join(tmp, "b%d.h5" % i))
        else:
            x = memback.MemBack(registry=b["reg"], fallback=None if b["fb"] is None else backs[b["fb"]])
        rec.register_backend(x)
        backs.append(x)
    types = {}
    for name, cols in c["tabs"]:
        types[name] = dict({"SimId": "uuid"}, **{n: t for n, t, _ in cols})
    for op in c["ops"]:
        try:
            if op[0] == "row":
                name, cols = c["tabs"][op[1]]
                d = rec.new_datum(name)
                for (n, t, how), v in zip(cols, op[2]):
                    d.add_val(n, dec(t, v), type=norm(t) if how is None else getattr(ts, how))
                d.record()
            elif op[0] == "flush":
                rec.flush()
            elif op[0] == "query":
                rec.flush()
                conds = None if op[3] is None else [(f, o, dec(types[op[2]][f], v)) for f, o, v in op[3]]
                out("rows", frame(backs[op[1]].query(op[2], conds=conds), types.get(op[2])))
            elif op[0] == "tables":
                rec.flush()
                out("tables", sorted(backs[op[1]].tables))
            elif op[0] == "registry":
                rec.flush()
                backs[op[1]].registry = op[2]
                out("registry", sorted(backs[op[1]].registry), bool(backs[op[1]].store_all_tables))
            else:
                raise Bad(op[0])
        except Bad:
            raise
        except Exception as e:
            out("error", type(e).__name__, str(e)[:200])
    rec.close()
    out("end")


# ---- simulations with archetypes in Python
SV = {"bool": "Bool", "int": "Int", "float": "Float", "double": "Double", "str": "String", "uuid": "Uuid", "blob": "Blob"}
SC = {"vec": "Vector", "set": "Set", "list": "List", "pair": "Pair", "map": "Map"}
LOG = []
CTX = {}


def svname(t):
    return SV[t] if not isinstance(t, list) else SC[t[0]] + "".join(svname(x) for x in t[1:])


def state(self, spec):
    return [[n, enc(t, getattr(self, n))] for n, t, _d, _a in spec["vars"]]


def make_class(spec):
    from cyclus import agents
    base = {"fac": agents.Facility, "inst": agents.Institution, "region": agents.Region}[spec["kind"]]
    d = {}
    for n, t, default, alias in spec["vars"]:
        kw = {}
        if default is not None:
            kw["default"] = dec(t, default)
        if alias is not None:
            kw["alias"] = json.loads(json.dumps(alias))
        d[n] = getattr(ts, svname(t))(doc="a variable", **kw)

    def who(self):
        return [self.id, self.prototype, self.context.time]

    def build(self, parent):
        base.build(self, parent)
        LOG.append(["build", self.id, self.prototype, None if parent is None else parent.id])

    def build_notify(self, *a):
        LOG.append(["child", self.id])

    def decom_notify(self, *a):
        LOG.append(["childgone", self.id])

    def tick(self):
        LOG.append(["tick"] + who(self) + [state(self, spec), self.lifetime, self.enter_time, self.parent_id])
        for n, t, _d, _a in spec["vars"]:   # in-place and by assignment
            if n in spec["upd"]:
                v = getattr(self, n)
                if t == "int":
                    setattr(self, n, v + 1)
                elif t == "str":
                    setattr(self, n, v + "+")
                elif t == ["vec", "int"]:
                    setattr(self, n, list(v) + [int(self.context.time)])

    def tock(self):
        LOG.append(["tock"] + who(self) + [state(self, spec)])

    def decision(self):
        LOG.append(["decision"] + who(self))
    d.update(build=build, build_notify=build_notify, decom_notify=decom_notify, tick=tick, tock=tock, decision=decision)
    if spec.get("trade") == "sell":
        d["commod"] = ts.String(doc="commodity")
        d["cap"] = ts.Double(doc="per step")

        def bids(self, requests):
            reqs = requests.get(self.commod, None)
            if not reqs:
                return
            b = []
            for r in reqs:
                o = mk(self, min(r.target.quantity, self.cap), False)
                b.append({"request": r, "offer": o})
            return {"bids": b, "constraints": self.cap}

        def trades(self, trades):
            return {t: mk(self, t.amt, True) for t in trades}

        def mk(self, q, tracked):
            if spec["prod"]:
                return ts.Product.create(self, q, "fine") if tracked else ts.Product.create_untracked(q, "fine")
            c = {922350000: 0.25, 922380000: 0.75}
            return ts.Material.create(self, q, c) if tracked else ts.Material.create_untracked(q, c)
        if spec["prod"]:
            d.update(get_product_bids=bids, get_product_trades=trades)
        else:
            d.update(get_material_bids=bids, get_material_trades=trades)
    elif spec.get("trade") == "buy":
        d["commod"] = ts.String(doc="commodity")
        d["cap"] = ts.Double(doc="per step")
        d["size"] = ts.Double(doc="inventory")
        d["inv"] = (ts.ResBufProductInv if spec["prod"] else ts.ResBufMaterialInv)(capacity="size")

        def requests(self):
            q = min(self.cap, self.inv.space)
            if q <= 0:
                return []
            t = ts.Product.create_untracked(q, "fine") if spec["prod"] else ts.Material.create_untracked(q, {922350000: 1.0})
            return {"commodities": [{self.commod: t}], "constraints": q}

        def accept(self, responses):
            for x in responses.values():
                self.inv.push(x)
            LOG.append(["inv"] + who(self) + [float(self.inv.quantity).hex(), int(self.inv.count), float(self.inv.capacity).hex()])
        if spec["prod"]:
            d.update(get_product_requests=requests, accept_product_trades=accept)
        else:
            d.update(get_material_requests=requests, accept_material_trades=accept)
    return type(spec["name"], (base,), d)


def anyenc(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v).hex()
    if isinstance(v, uuid.UUID):
        return v.hex
    if isinstance(v, bytes):
        return v.decode("latin1")
    if isinstance(v, dict):
        return sorted(([anyenc(k), anyenc(x)] for k, x in v.items()), key=skey)
    if isinstance(v, (set, frozenset)):
        return sorted((anyenc(x) for x in v), key=skey)
    if isinstance(v, (list, tuple, np.ndarray)):
        return [anyenc(x) for x in v]
    return str(v)


def run_sim(c, tmp):
    import types
    from cyclus.simstate import SimState
    m = types.ModuleType("vmod")
    m.__file__ = os.path.join(tmp, "vmod.py")
    sys.modules["vmod"] = m
    for spec in c["classes"]:
        k = make_class(spec)
        k.__module__ = "vmod"
        setattr(m, spec["name"], k)
    st = SimState(input_file=c["xml"], input_format="xml", output_path="o." + c["out"], memory_backend=True, registry=c["reg"],
                  schema_path=c["schema"])
    try:
        st.load()
        st.run()
    except Exception as e:
        out("error", type(e).__name__, str(e)[:300])
        return
    for x in LOG:
        out(*x)
    ft = sorted(st.file_backend.tables)
    out("tables", ft, sorted(st.memory_backend.tables))
    for n in ft:
        f = st.file_backend.query(n)
        g = st.memory_backend.query(n)
        out("table", n, list(f.columns), [[anyenc(x) for x in r] for r in f.itertuples(index=False)],
            None if g is None else list(g.columns), None if g is None else [[anyenc(x) for x in r] for r in g.itertuples(index=False)])
    out("end")


RUN = {"rec": run_rec, "sim": run_sim}


def main():
    global OBS
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    w = os.fdopen(_real, "w", buffering=1)
    lines = []
    for line in sys.stdin:
        line = line.rstrip("\n")
        if line != "ENDCASE":
            lines.append(line)
            continue
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                os.close(r)
                OBS = os.fdopen(wr, "w")
                resource.setrlimit(resource.RLIMIT_CPU, (120, 120))
                signal.alarm(800)
                tmp = tempfile.mkdtemp(dir=os.getcwd())
                case = json.loads("\n".join(lines))
                os.chdir(tmp)
                try:
                    RUN[case["kind"]](case, tmp)
                except Bad as e:
                    out("bad", str(e))
                    rc = 99
                except BaseException as e:
                    import traceback
                    out("uncaught", type(e).__name__, str(e)[:300], traceback.format_exc()[-600:])
                    rc = 98
                OBS.flush()
            finally:
                os._exit(rc)
        os.close(wr)
        with os.fdopen(r) as f:
            for ln in f:
                w.write(ln)
        _, st = os.waitpid(pid, 0)
        for d in os.listdir("."):
            if os.path.isdir(d):
                shutil.rmtree(d, ignore_errors=True)
        if os.WIFEXITED(st):
            k = os.WEXITSTATUS(st)
            w.write("ENDOBS ok\n" if k == 0 else "ENDOBS harness case\n" if k == 99 else "ENDOBS exit %d\n" % k)
        else:
            w.write("ENDOBS signal %d\n" % os.WTERMSIG(st))
        w.flush()
        lines = []


main()
