"""C18: nuclide names."""
from pbt import Prop, Info, Violation, hx, unhx

SYM = ("H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn "
       "Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf "
       "Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn - Fl - Lv").split()
Z = {z + 1: x for z, x in enumerate(SYM) if x != "-"}
ZS = sorted(Z)


def nid(z, a, m=0):
    return z * 10000000 + a * 10000 + m


class C18(Prop):
    id = "C18"
    harnesses = ("h_nuc",)
    quick = 6000
    thorough = 60000
    rule = "every case has at least one nuclide and one text"
    assumptions = ("nuclides have a charge number of a named element, mass number between it and three times it (1 to 3 for hydrogen), metastable state 0 to 5",)

    def gen(self, s):
        nucs = []
        for _ in range(s.int(1, 8)):
            z = s.weighted([(3, s.pick(ZS)), (1, s.pick([1, 2, 8, 9, 10, 92, 94, 95, 99, 100, 101, 109, 112, 114, 116]))])
            lo, hi = (1, 3) if z == 1 else (z, 3 * z)
            a = s.weighted([(3, s.int(lo, hi)), (2, min(hi, max(lo, int(2.5 * z)))), (0.5, lo), (0.5, hi)])
            m = s.weighted([(3, 0), (3, 1), (1, s.int(2, 5))])
            if s.bool(0.05):
                z, a, m = 95, 242, s.int(0, 1)
            nucs.append([z, a, m])
        texts = []
        for _ in range(s.int(1, 5)):
            z = s.pick(ZS)
            sym = Z[z]
            a = s.int(z, 3 * z)
            k = s.pick(["sym", "small", "big", "tail", "empty", "punct", "mismatch", "letters"])
            t = {"sym": lambda: s.pick(["Xx", "Qz", "Jj", "Uq", "A"]) + str(a), "small": lambda: sym + str(s.int(0, z - 1)),
                 "big": lambda: sym + str(7 * z + s.int(1, 50)), "tail": lambda: sym + str(a) + s.pick(["x", "q", "g"]), "empty": lambda: "",
                 "punct": lambda: s.pick(["?%s%d", "%s_%d", "%s %d", "*", "_%s%d", "%s.%d"]).replace("%s", sym).replace("%d", str(a)),
                 "mismatch": lambda: "%d-%s-%d" % (ZS[(ZS.index(z) + s.int(1, len(ZS) - 1)) % len(ZS)], sym, a),
                 "letters": lambda: s.pick(["hello", "uranium", "foo", "Plutonium", "nuc"])}[k]()
            texts.append([k, t])
        return {"nucs": nucs, "texts": texts, "how": [s.pick("sc") for _ in range(12)]}

    def fixed_cases(self):
        """every nuclide in states 0 to 2"""
        al = [[z, a, m] for z in ZS for a in (range(1, 4) if z == 1 else range(z, 3 * z + 1)) for m in (0, 1, 2)]
        for i in range(0, len(al), 50):
            yield {"nucs": al[i:i + 50], "texts": [], "how": list("scscscscscsc")}

    def check(self, c, rig):
        L, E = [], []

        def ask(f, arg, want, why=None):
            """want: int, str, bool or a set of error names"""
            if isinstance(arg, int):
                L.append("f %s i %d" % (f, arg))
            else:
                L.append("f %s %s %s" % (f, c["how"][len(L) % 12], hx(arg)))
            E.append((f, arg, want))
        labels = set()
        for z, a, m in c["nucs"]:
            n = nid(z, a, m)
            g = nid(z, a)
            el = nid(z, 0)
            sy = Z[z]
            nm = sy + str(a) + ("M" if m else "")
            back = nid(z, a, min(m, 1))     # names tell ground state and metastable only
            ask("id", n, n)
            ask("isnuclide", n, True)
            ask("iselement", n, False)
            ask("znum", n, z)
            ask("anum", n, a)
            ask("snum", n, m)
            ask("name", n, nm)
            ask("groundstate", n, g)
            for t in (nm, sy + "-" + str(a) + ("m" if m else ""), nm.lower(), nm.upper()):
                ask("id", t, back)
                ask("isnuclide", t, True)
                ask("name", t, nm)
                ask("znum", t, z)
                ask("anum", t, a)
                ask("snum", t, min(m, 1))
            if not m:
                ask("id", "%d%s" % (a, sy), g)
                ask("id", str(n), n)
            # numbers
            zam = z * 10000 + a * 10 + m
            ask("zzaaam", n, zam)
            ask("zzaaam_to_id", zam, n)
            ask("zzaaam_to_id", str(zam), n)
            ask("id", zam, n)
            ask("zzzaaa", n, z * 1000 + a)
            ask("zzzaaa_to_id", z * 1000 + a, g)
            cin = a * 10000 + z * 10 + m
            ask("cinder", n, cin)
            ask("cinder_to_id", cin, n)
            ask("cinder_to_id", str(cin), n)
            sza = m * 1000000 + z * 1000 + a
            ask("sza", n, sza)
            ask("sza_to_id", sza, n)
            ask("sza_to_id", str(sza), n)
            mm = 1 - m if (z, a) == (95, 242) and m < 2 else m
            mc = z * 1000 + a + (300 + 100 * mm if mm else 0)
            if a + 300 + 100 * mm < 1000:      # the form has three digits for mass and state
                ask("mcnp", n, mc)
            if a + 300 + 100 * mm < 1000 and (mm < 2 or a + 100 > 3 * z):
                ask("mcnp_to_id", mc, n)
                ask("mcnp_to_id", str(mc), n)
            # texts
            zl = "%d-%s-%d%s" % (z, sy, a, "m" if m else "")
            ask("zzllaaam", n, zl)
            ask("zzllaaam_to_id", zl, back)
            ask("id", zl, back)
            sp = "%s-%d%s" % (sy, a, "m" if m else "")
            ask("serpent", n, sp)
            ask("serpent_to_id", sp, back)
            ni = "%d%s" % (a, sy)
            ask("nist", n, ni)
            ask("nist_to_id", ni, g)
            al = "%s:%d" % (sy.lower(), a)
            ask("alara", n, al)
            ask("alara_to_id", al, g)
            # from a name
            for f, w in (("zzaaam", z * 10000 + a * 10 + min(m, 1)), ("zzzaaa", z * 1000 + a), ("sza", min(m, 1) * 1000000 + z * 1000 + a),
                         ("serpent", sp), ("nist", ni), ("alara", al), ("zzllaaam", zl), ("cinder", a * 10000 + z * 10 + min(m, 1)), ("groundstate", g)):
                ask(f, nm, w)
            # the element
            ask("id", el, el)
            ask("id", z, el)
            ask("id", sy, el)
            ask("iselement", el, True)
            ask("isnuclide", el, False)
            ask("iselement", sy, True)
            ask("isnuclide", sy, False)
            ask("name", el, sy)
            ask("serpent", el, sy + "-nat")
            ask("serpent_to_id", sy + "-nat", el)
            ask("nist", el, sy)
            ask("nist_to_id", sy, el)
            ask("alara", el, sy.lower())
            ask("alara_to_id", sy.lower(), el)
            ask("zzaaam", el, z * 10000)
            ask("mcnp", el, z * 1000)
            ask("mcnp_to_id", z * 1000, el)
            ask("cinder", el, z * 10)
            ask("sza", el, z * 1000)
            if z > 100 and a >= 100 and m == 0:
                ask("ensdf_to_id", "%03d%02d" % (a, z - 100), g)
            ask("fluka", n, None)
            labels.add("state:%d" % min(m, 2))
            if z > 100:
                labels.add("heavy")
        for k, t in c["texts"]:
            ask("isnuclide", t, False)
            if k not in ("small", "big"):
                ask("id", t, ("not", "indet"))
            labels.add("refused:" + k)
        out = rig.run("h_nuc", "\n".join(L))
        fk = []
        for (f, arg, want), l in zip(E, out):
            t = l.split()
            if want is None:
                if t[0] == "R":
                    fk.append((arg, unhx(t[1]).decode()))
                elif t[0:2] != ["ERR", "not"]:
                    raise Violation("%s(%r) fails: %s" % (f, arg, l))
                continue
            if isinstance(want, tuple):
                if t[0] != "ERR" or t[1] not in want:
                    raise Violation("%s(%r) should be refused, gives %s" % (f, arg, l))
                continue
            if t[0] != "R":
                raise Violation("%s(%r) fails (%s), expected %s" % (f, arg, l, want))
            got = unhx(t[1]).decode("utf8", "replace") if isinstance(want, str) else bool(int(t[1])) if isinstance(want, bool) else int(t[1])
            if got != want:
                raise Violation("%s(%r) gives %r, expected %r" % (f, arg, got, want))
        if fk:
            out = rig.run("h_nuc", "\n".join("f fluka_to_id s %s" % hx(x) for _, x in fk))
            for (n, x), l in zip(fk, out):
                if l.split() != ["R", str(n)]:
                    raise Violation("FLUKA name %s of %d converts back to %s" % (x, n, l))
            labels.add("fluka")
        return Info(True, sorted(labels))


PROP = C18()
