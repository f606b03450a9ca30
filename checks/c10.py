"""C10: SQLite output reads back what was recorded."""
from pbt import Prop
import backlib
import vallib as V


def zero(tid, toks):
    """SQLite keeps no sign of a zero"""
    return ["0x0.0p+0"] if toks == ["-0x0.0p+0"] and tid in ("double", "float") else toks


class C10(Prop):
    id = "C10"
    harnesses = ("h_back",)
    quick = 6000
    thorough = 200000
    rule = ("1-3 tables of 1-5 columns over all SQLite types with generated values (extreme numbers, empty and nested containers, "
            "text with quotes, markup and non-ASCII characters), written in 1-3 sessions of one file through recorders with different buffer "
            "sizes and simulation ids, queried in between and after reopening with 0-3 conditions; non-trivial: a table with more "
            "than one row is queried")
    assumptions = ("numbers are finite, text has no control characters but tab and line feed",
                   "order conditions on containers are not claimed, equality is")

    def gen(self, s):
        return backlib.gen_db(s, "sqlite", V.SQLITE, {}, False)

    def check(self, c, rig):
        return backlib.check_db("sqlite", c, rig.run("h_back", backlib.text("sqlite", c)), zero)


PROP = C10()
