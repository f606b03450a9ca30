"""C11: HDF5 output reads back what was recorded."""
from pbt import Prop
import backlib
import vallib as V

CONT = ("vec", "list", "set", "map")


class C11(Prop):
    id = "C11"
    harnesses = ("h_back",)
    quick = 4000
    thorough = 100000
    rule = ("1-3 tables of 1-5 columns over all HDF5 types, with and without shapes (every mixture of fixed and variable length), "
            "written in 1-3 sessions of one file through recorders with different buffer sizes, some with thousands of rows around "
            "multiples of the chunk size, queried in between and after reopening with 0-3 conditions; non-trivial: a table with "
            "more than one row is queried")
    assumptions = ("values fit the shape of their column: containers of a fixed size have that size, strings are at most as long",
                   "text and blobs contain no NUL", "table names do not end in Keys or Vals, which the back end uses itself")

    def gen(self, s):
        return backlib.gen_db(s, "hdf5", V.HDF5, {}, True)

    def check(self, c, rig):
        return backlib.check_db("hdf5", c, rig.run("h_back", backlib.text("hdf5", c)), lambda tid, toks: toks)

    def known(self, c, msg):
        """F1: the first non-empty value of a container inside a container, of a column of which earlier sessions of the
        file wrote only empty outer containers"""
        if "could not select hyperslab of value array" not in msg:
            return None
        sess, seen = 0, {}
        for op in c["ops"]:
            if op[0] == "open":
                sess += 1
            elif op[0] == "datum":
                for (n, tid, shp), v in zip(c["tabs"][op[1]], op[2]):
                    t = V.TYPES[tid]
                    if isinstance(t, list) and t[0] in CONT and any(x in CONT for x in backlib.nodes(t)[1:]):
                        k = (op[1], n)
                        first = seen.setdefault(k, sess)
                        if v:
                            if first > 0 and first < sess:
                                return "F1"
                            seen[k] = -1
        return None


PROP = C11()
