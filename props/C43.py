"""emission-line names"""
import io

import numpy as np

from symx.pe import PH, outcome, REPO

CAT = REPO + "/dsps/data/emlines_info.dat"
ASSUMPTIONS = ["a relative difference between 0.999e-6 and 1.001e-6 may count either way (rounding and the choice of reference value)"]


def near(E, a, b):
    d = abs(a - b)
    return d <= 0.999e-6 * b, d >= 1.001e-6 * b


def _goals(E, refs, names, w, got):
    """got names the only catalogue line within a part in a million of w, or is empty"""
    yes = [near(E, r, w)[0] for r in refs]
    no = [near(E, r, w)[1] for r in refs]
    n = len(refs)
    g = {}
    if isinstance(got, str) and got == "":
        # empty: no line clearly matches alone
        for i in range(n):
            g[f"line {i} is not the only match"] = E.implies(E.all([no[j] for j in range(n) if j != i]), E.neg(yes[i]))
        return g
    hits = [i for i in range(n) if names[i] == got]
    g["a catalogue name"] = len(hits) == 1
    if len(hits) == 1:
        i = hits[0]
        g["the named line matches"] = E.neg(no[i])
        g["no other line matches"] = E.all([E.neg(yes[j]) for j in range(n) if j != i])
    return g


def small(n):
    names = [f"line{i}" for i in range(n)]

    def body(E):
        import dsps.data_loaders.retrieve_fsps_data as m
        refs = E.reals("ref", n, 900, 1e7)
        w = E.real("w", 900, 1e7)
        with E.module(m):
            nm = m.np.array(names)
            kind, got = outcome(m._get_matched_emline_name, refs, nm, w)
        if kind == "raise":
            return {"matching succeeds": False}
        return _goals(E, refs, names, w, got)
    return body


def shipped(lo, hi):
    def body(E):
        import dsps.data_loaders.retrieve_fsps_data as m
        w = E.real("w", lo, hi)
        rows = [line.strip().split(",") for line in open(CAT)]
        with E.module(m):
            kind, r = outcome(m.get_fsps_emline_info)
            if kind == "raise":
                return {"the shipped catalogue is read": False}
            refs, nms = r
            kind, got = outcome(m._get_matched_emline_name, refs, nms, w)
        if kind == "raise":
            return {"matching succeeds": False}
        rw = [float(r[0]) for r in rows]
        g = {"catalogue wavelengths": len(refs) == len(rw) and bool(np.all(np.asarray(refs, float) == np.array(rw))),
             "catalogue names": [str(q) for q in nms] == [r[1] for r in rows]}
        sel = [i for i in range(len(rw)) if lo * 0.999 <= rw[i] <= hi * 1.001]
        g.update(_goals(E, [rw[i] for i in sel], [rows[i][1] for i in sel], w, got))
        return g
    return body


def build(lines):
    """wavelengths close to catalogue lines: names and values in the given order"""
    def body(E):
        import dsps.data_loaders.retrieve_fsps_data as m
        rows = [line.strip().split(",") for line in open(CAT)]
        order = []
        left = list(lines)
        for q in range(len(lines)):
            order.append(left.pop(E.choice(f"pick{q}", len(left))))
        ws = []
        for i in order:
            r = float(rows[i][0])
            ws.append(E.real(f"w{i}", r * (1 - 0.9e-6), r * (1 + 0.9e-6)))
        with E.module(m):
            arr = m.np.array(ws)
            kind, r = outcome(m._get_emline_wave_namedtuple, arr)
        if kind == "raise":
            return {"names can be assigned": False}
        g = {"names in the order of the wavelengths": list(r._fields) == [ident(rows[i][1]) for i in order], "one entry per line": len(r) == len(order)}
        if len(r) == len(order):
            g["values kept"] = E.all([E.eq(a, b) for a, b in zip(r, ws)])
        return g
    return body


def ident(s):
    return s.replace(".", "p").replace("-", "_").replace(" ", "_").replace("[", "").replace("]", "")


class Rec:
    def __init__(self, name, fields):
        self._fields = list(fields)

    def __call__(self, *v):
        self.values = v
        return self


class F(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def readlines(self):
        return list(self)

    def read(self):
        s = ""
        for q in self:
            s = s + q
        return s


def parse(n, m1=False):
    def body(E):
        import dsps.data_loaders.load_emline_info as m1
        import dsps.data_loaders.retrieve_fsps_data as m2
        s = E.string("name", n, without=",")
        lines = ["1215.67," + s + "\n", "6562.8,Halpha 6563\n", "5006.84,[O III] 5007\n"]

        def op(fn, *a, **k):
            return F(lines) if E.sym else io.StringIO("".join(lines))
        op.__doc__ = "the catalogue holds a line with an arbitrary name"
        w = E.array([6562.8, 1215.67])
        with E.module(m1, m2, open=op, namedtuple=Rec):
            k1, r1 = outcome(m1.read_emlines_info_fsps, "catalogue", testmode=True)
            k2, r2 = outcome(m2._get_emline_wave_namedtuple, w)
        if k1 == "raise" or k2 == "raise":
            return {"both parsers accept the catalogue": False}
        d, arr = r1
        keys = list(d)
        # stated independently: bracket characters dropped, separators replaced, outer blanks of the line dropped
        t = s.rstrip()
        want = ident(t)
        E_eq = lambda a, b: a == b  # noqa: E731
        return {"lines kept in order": len(keys) == 3 and keys[1:] == ["Halpha_6563", "O_III_5007"],
                "name as documented": E_eq(keys[0], want),
                "values": list(d.values()) == [1215.67, 6562.8, 5006.84] and [float(q) for q in arr] == [1215.67, 6562.8, 5006.84],
                "both parsers agree": E_eq(r2._fields[1], keys[0]),
                "other line's name": r2._fields[0] == "Halpha_6563",
                "values in the given order": list(r2.values) == [6562.8, 1215.67]}
    return body


def harnesses(tier):
    q = tier == "quick"
    hs = [PH(f"small{n}", small(n), bounds=f"catalogue of {n} lines and wavelength all symbolic in [900,1e7]") for n in ((2, 4) if q else (1, 2, 3, 5, 7))]
    hs += [PH("build", build((10, 3, 50) if q else (10, 3, 50, 120)), bounds="every order of a few catalogue lines, wavelengths within 0.9e-6"),
           PH("parse", parse(3), bounds="every line name of 3 printable characters other than the comma")]
    rw = sorted(float(line.split(",")[0]) for line in open(CAT))
    cuts = [900.0] + [(rw[i - 1] + rw[i]) / 2 for i in range(14, len(rw) - 7, 14)] + [1e7]
    hs += [PH(f"shipped{k}", shipped(a, b), bounds=f"shipped catalogue, every wavelength in [{a:g},{b:g}]", wall=300, cost=5)
           for k, (a, b) in enumerate(zip(cuts, cuts[1:]))]
    if not q:
        hs += [PH("parse4", parse(4), bounds="every line name of 4 printable characters other than the comma", wall=600, max_paths=20000)]
    return hs
