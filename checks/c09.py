"""C09: the recorder delivers every datum once, whole and in order."""
from pbt import Prop, Info, Violation, hx, fl
import vallib as V

NAMES = ["a", "Quantity", "b", "Time", "ObjId", "a_longer_field_name_than_any_small_string", "AgentId", "x"]


class C09(Prop):
    id = "C09"
    harnesses = ("h_rec",)
    quick = 12000
    thorough = 400000
    rule = ("a recorder made by any of its constructors and up to 40 operations: data of 0-14 values of every type with and without "
            "shapes, bulk data, flushes, changes of the buffer size (0-12, or the default), switching the simulation id on and off, "
            "registering up to 3 back ends (also twice, also late), closing and destroying; non-trivial: data are delivered at "
            "least twice")
    assumptions = ("a datum is recorded before the next one is asked for",
                   "changing the buffer size discards what is buffered, as documented")

    def gen(self, s):
        new = s.weighted([(4, "count"), (2, "uuid"), (1, "default"), (1, "bool")])
        ops = [["new", new] + ([s.weighted([(1, 0), (2, 1), (4, s.int(2, 12))])] if new == "count" else
                               [V.g_uuid(s)] if new == "uuid" else [int(s.bool())] if new == "bool" else [])]
        if new != "count" and s.bool(0.7):
            ops.append(["dump", s.int(0, 12)])
        if s.bool(0.9):
            ops.append(["reg", 0])
        big = new != "count" and s.bool(0.03)
        for _ in range(s.int(1, 40)):
            k = s.weighted([(12, "datum"), (3, "bulk"), (2, "flush"), (0.7, "dump"), (0.5, "inject"), (1, "reg"), (0.3, "close"),
                            (0.3 if big else 0, "huge")])
            if k == "datum":
                vals = []
                for j in range(s.weighted([(1, 0), (6, s.int(1, 5)), (1, s.int(6, 14))])):
                    tid = s.pick(list(V.TYPES)) if s.bool(0.5) else s.pick(["int", "double", "str", "bool"])
                    shp = s.weighted([(3, None), (1, s.list(lambda: s.int(-1, 9), 0, 4))])
                    vals.append([s.pick("cs"), s.pick(NAMES), tid, shp, V.g_val(s, V.TYPES[tid], {})])
                ops.append(["datum", s.pick(["T", "Resources", "a_title_longer_than_a_small_string", ""]), vals])
            elif k == "bulk":
                ops.append(["bulk", s.pick(["B", "T"]), s.int(1, 30), s.int(0, 1000)])
            elif k == "huge":
                ops.append(["bulk", "B", s.pick([9999, 10000, 10001, 20000]), 5])
            elif k == "dump":
                ops.append(["dump", s.int(0, 12)])
            elif k == "inject":
                ops.append(["inject", int(s.bool())])
            elif k == "reg":
                ops.append(["reg", s.int(0, 2)])
            else:
                ops.append([k])
        ops.append(["end"])
        return {"ops": ops}

    def text(self, ops):
        out = []
        for op in ops:
            if op[0] == "datum":
                p = ["datum", hx(op[1]), str(len(op[2]))]
                for mode, name, tid, shp, v in op[2]:
                    p += [mode, hx(name), tid, str(-1 if shp is None else len(shp))] + [str(x) for x in shp or []]
                    p.append(V.enc_id(tid, v))
                out.append(" ".join(p))
            else:
                out.append(" ".join(map(str, op)))
        return out

    def check(self, c, rig):
        ops = c["ops"]
        obs = rig.run("h_rec", self.text(ops))
        per = []
        for ln in obs:
            if ln.startswith("OP "):
                per.append([])
            else:
                per[-1].append(ln)
        if len(per) != len(ops):
            raise Violation("only %d of %d operations were done" % (len(per), len(ops)))
        labels = set()
        backs, buf = [], []
        cap, inj, sid = 10000, True, None
        ndel = 0
        for i, op in enumerate(ops):
            got = list(per[i])
            exp = []          # rows and flushes expected now, per back end in order

            def deliver(flush):
                nonlocal ndel, buf
                rows, buf = buf, []
                if rows and backs:
                    ndel += 1
                for b in backs:
                    exp.extend((b, r) for r in rows)
                    if flush and rows:
                        exp.append((b, "FL"))

            def add(title, vals):
                if inj:
                    vals = [[hx("SimId"), [], "uuid", [sid]]] + vals
                buf.append([hx(title)] + vals)
                if len(buf) >= max(cap, 1):
                    deliver(False)
            if op[0] == "new":
                t = got.pop(0).split()
                sid = t[1]
                cap = op[2] if op[1] == "count" else 10000
                inj = bool(op[2]) if op[1] == "bool" else True
                if op[1] == "uuid" and sid != op[2]:
                    raise Violation("the recorder has simulation id %s, was given %s" % (sid, op[2]))
                if t[2:] != [str(cap), str(int(inj))]:
                    raise Violation("new recorder has %s, expected buffer size %d, id injection %s" % (t[2:], cap, inj))
            elif op[0] == "inject":
                if bool(op[1]) != inj:
                    deliver(True)
                    inj = bool(op[1])
                    labels.add("id switched")
            elif op[0] == "dump":
                if got.pop(0) != "DC %d" % op[1]:
                    raise Violation("dump_count() is not the %d just set" % op[1])
                cap, buf = op[1], []
            elif op[0] == "reg":
                if buf:
                    labels.add("registered with data pending")
                backs.append(op[1])
            elif op[0] == "flush":
                deliver(True)
            elif op[0] == "close":
                deliver(True)
                backs = []
                labels.add("closed")
            elif op[0] == "end":
                if buf:
                    labels.add("pending at the end")
                deliver(True)
            elif op[0] == "bulk":
                for j in range(op[2]):
                    add(op[1], [[hx("n"), [], "int", [str(op[3] + j)]]])
            elif op[0] == "datum":
                add(op[1], [[hx(n), shp or [], tid, V.canon(V.enc(V.TYPES[tid], v))] for _, n, tid, shp, v in op[2]])
                labels.add("wide" if len(op[2]) > 8 else "narrow")
            # flushes are compared only where they must happen: after delivering on request
            have = []
            for ln in got:
                if ln.startswith("FL "):
                    have.append((int(ln[3:]), "FL"))
                    continue
                if not ln.startswith("R "):
                    raise Violation("operation %d: unexpected %s" % (i, ln))
                parts = [p.split() for p in ln.split(" | ")]
                if len(parts[0]) != 3:
                    raise Violation("operation %d: a delivered datum has different numbers of values, shapes and fields: %s" % (i, ln))
                row = [parts[0][2]]
                for p in parts[1:]:
                    if p[0] != p[1]:
                        raise Violation("operation %d: field name is %s in fields() and %s in vals()" % (i, p[0], p[1]))
                    ns = int(p[2])
                    row.append([p[0], [int(x) for x in p[3:3 + ns]], p[3 + ns], V.canon(p[4 + ns:])])
                have.append((int(parts[0][1]), row))
            for b in sorted(set([x[0] for x in have] + [x[0] for x in exp])):
                h = [x[1] for x in have if x[0] == b]
                e = [x[1] for x in exp if x[0] == b]
                hr, er = [x for x in h if x != "FL"], [x for x in e if x != "FL"]
                if hr != er:
                    k = next((j for j in range(min(len(hr), len(er))) if hr[j] != er[j]), min(len(hr), len(er)))
                    raise Violation("operation %d (%s): back end %d got %d rows, expected %d; first difference at %d: got %s, expected %s" % (
                        i, op[0], b, len(hr), len(er), k, hr[k:k + 1], er[k:k + 1]))
                if "FL" in e and (not h or h[-1] != "FL"):
                    raise Violation("operation %d (%s): back end %d was not flushed after the rows" % (i, op[0], b))
        return Info(ndel >= 2, sorted(labels))


PROP = C09()
