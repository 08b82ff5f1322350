"""Runs DataSet.tla events on real pyGSTi data sets and records what is observed."""
import collections, io, os, pickle, copy, random, warnings
from fractions import Fraction
import numpy as np
import pygsti
from pygsti.objects import DataSet, Circuit
from pygsti.objects import dataset as dsmod
import vf

OUT = [("0",), ("00",), ("01",), ("1",), ("10",), ("11",), ("p", "0"), ("p", "1")]   # numbered in sorting order
assert OUT == sorted(OUT)
OIDX = {o: i for i, o in enumerate(OUT)}

CIRCS = collections.OrderedDict([
    ("A", Circuit("Gx:0Gy:1@(0,1)")),
    ("B", Circuit("{}@(0,1)")),
    ("C", Circuit("GxGyGx")),
    ("D", Circuit("Gcnot:0:1Gx:0@(0,1)")),
    ("F", Circuit("Gx:0Gy:1@(0,1,2)")),
    ("G", Circuit("{}")),
    ("H", Circuit("[Gx:0Gy:1]Gx:0@(0,1)")),
    ("I", Circuit("Gx:0@(0)")),
    ("J", Circuit("Gy:1Gx:0@(0,1)")),
    ("Q", Circuit("GyGxGy")),
])
BASE = [n for n in CIRCS if n.isupper()]
FILTERS = [([0], [0]), ([1], [1]), ([1], [0]), ([0], [1]), ([0, 1], [0, 1]), ([1, 0], [1, 0]), ([0, 1], [1, 0]), ([1, 0], [0, 1]), ([0, 1], [5, 7])]


def _images():
    """names for the circuits that the others turn into when restricted to some of their lines"""
    have = set(CIRCS.values())
    for n in ("A", "B", "D", "H", "J"):
        for keep, new in FILTERS:
            to = dict(zip(keep, new))
            layers = [[(g.name,) + tuple(to[q] for q in g.sslbls) for g in l.components if set(g.sslbls) <= set(keep)] for l in CIRCS[n]]
            c = Circuit([l if len(l) != 1 else l[0] for l in layers], line_labels=tuple(new))
            if c not in have:
                have.add(c)
                CIRCS["z%d" % len(CIRCS)] = c


_images()
TAB = [[n, list(c.line_labels), [[[g.name, list(g.sslbls)] for g in l.components] for l in c]] for n, c in CIRCS.items()
       if n.islower() or n in ("A", "B", "D", "H", "J")]
GATES = {n: [str(l) for l in c] for n, c in CIRCS.items()}
MAXOCC = 6


def tagged(c, k):
    return c if k == 0 else c + Circuit(("#%d" % k,), line_labels=c.line_labels)


KEY = {}
for _n, _c in CIRCS.items():
    for _k in range(MAXOCC + 1):
        KEY[tagged(_c, _k)] = (_n, _k)
AUX = {"": {}, "a1": {"k": 1}, "a2": {"k": 2, "z": "w"}, "a3": {"k": [1, 2]}}


def enc(x, unit):
    """exact encoding of a number in 1/unit steps; anything else becomes a string, which no expected value equals"""
    y = float(x) * unit
    if y == int(y) and abs(y) < 2 ** 31 - 1:
        return int(y)
    return "not a multiple of 1/%d: %r" % (unit, x)


def encb(b):
    return bool(b)


class Mixed(Exception):
    pass


def key_of(c):
    try:
        return list(KEY.get(c, ("?" + str(c), 0)))
    except TypeError:
        return ["?" + str(c), 0]


def out_of(o):
    return OIDX.get(o, -2)


def aux_of(a):
    for k, v in AUX.items():
        if a == v:
            return k
    return "?" + str(a)


def frac(x):
    if x != x or x in (float("inf"), float("-inf")):
        return [-7, 1]
    f = Fraction(float(x)).limit_denominator(5000)
    if abs(float(f) - float(x)) > 1e-12:
        return [-7, 1]
    return [f.numerator, f.denominator]


def items_of(row):
    return [[out_of(o), enc(t, 2), enc(n, 4)] for (o, t, n) in row]


def cd(d):
    return [[out_of(o), enc(n, 4)] for o, n in d.items()]


DEAD = dict(live=False, rows=[], ols=[], static=False, pol="agg", reps=False, n=0, has=[])
POL = {"agg": "aggregate", "over": "overwrite", "keep": "keepseparate"}
LOP = {v: k for k, v in POL.items()}


def canon(row):
    d = {}
    for o, t, n in items_of(row):
        if isinstance(n, str) or isinstance(t, str):
            return [[o, t, n]]
        d[(t, o)] = d.get((t, o), 0) + n
    return [[o, t, n] for (t, o), n in sorted(d.items()) if n != 0]


def project_multi(m):
    keys = [] if m.cirIndex is None else list(m.cirIndex.keys())
    sets = []
    for nm, ds in m.items():
        ds2 = m[nm]
        rows = [canon(ds[c]) for c in keys]
        if rows != [canon(ds2[c]) for c in keys] or list(ds.keys()) != keys:
            rows = ["two ways of getting a member disagree"]
        sets.append([nm, rows, LOP[ds.collisionAction]])
    return dict(live=True, multi=True, keys=[key_of(c) for c in keys], sets=sets,
                aux=[aux_of(dict(m.auxInfo[c]) if c in m.auxInfo else {}) for c in keys])


def project(ds):
    if ds is None:
        return DEAD
    if isinstance(ds, pygsti.objects.MultiDataSet):
        return project_multi(ds)
    rows = []
    has = []
    reps = None
    for c in ds.keys():
        row = ds[c]
        k = key_of(c)
        rows.append(k + [items_of(row), aux_of(dict(ds.auxInfo[c]) if c in ds.auxInfo else {})])
        has.append(bool(c in ds))
    return dict(live=True, rows=rows, ols=[out_of(o) for o in ds.get_outcome_labels()], static=bool(ds.bStatic),
                pol=LOP[ds.collisionAction], reps=(ds.repData is not None), n=len(ds), has=has)


PROBE_T = [0, 1, 2, 3, 4]     # halves


def read_row(ds, row, rng):
    """every documented way of reading a row"""
    pool = sorted(set([out_of(o) for o in ds.get_outcome_labels()] + [0, 3, 7]))
    o = dict(pool=pool)
    d = items_of(row)
    o["counts"] = cd(row.counts)
    o["all"] = cd(row.allcounts)
    o["tot"] = enc(row.total, 4)
    o["len"] = len(row)
    o["dict"] = cd(row.as_dict())
    o["outs"] = [out_of(x) for x in row.outcomes]
    o["idx"] = [[out_of(row[i][0]), enc(row[i][1], 2), enc(row[i][2], 4)] for i in range(len(row))]

    def look(x):
        lbl = OUT[x]
        if len(lbl) == 1 and rng.random() < 0.5:
            lbl = lbl[0]
        try:
            return enc(row[lbl], 4)
        except KeyError:
            return -1
    o["look"] = [look(x) for x in pool]
    o["isin"] = [bool(OUT[x] in row) for x in pool]
    tot = sum(x[2] for x in d if not isinstance(x[2], str))
    o["frac"] = [[out_of(k)] + frac(v) for k, v in row.fractions.items()] if tot > 0 else []
    o["frac1"] = [frac(row.fraction(OUT[x])) for x in pool] if tot > 0 else []
    whole = all(not isinstance(x[2], str) and x[2] % 4 == 0 for x in d)
    if whole:
        a, b, c = row.get_expanded_ol(), row.get_expanded_oli(), row.get_expanded_times()
        e = [[out_of(x), enc(t, 2)] for x, t in zip(a, c)]
        if len(a) != len(b) or len(a) != len(c) or any(ds.ol[int(i)] != x for i, x in zip(b, a)):
            e = "expanded forms disagree"
        o["exp"] = e if isinstance(e, list) else [[-9, -9]]
    else:
        o["exp"] = []
    o["at"] = [[t, cd(row.counts_at_time(t / 2.0))] for t in PROBE_T] + [[t, cd(row[t / 2.0])] for t in (0, 3)]
    srt = all(d[i][1] <= d[i + 1][1] for i in range(len(d) - 1))
    if srt:
        o["times"] = [enc(t, 2) for t in row.get_times()]
        o["nt"] = int(row.get_number_of_times())
        ts, ser = row.get_timeseries()
        o["series"] = [[enc(t, 2), cd(s)] for t, s in zip(ts, ser)]
        ts, reps = row.get_reps_timeseries()
        o["reps"] = [[enc(t, 2), enc(r, 4)] for t, r in zip(ts, reps)]
        ts, serd = row.get_timeseries_for_outcomes()
        o["outser"] = [[out_of(x), [enc(v, 4) for v in s]] for x, s in serd.items()]
        if len(ts) != o["nt"]:
            o["outser"] = [[-9, []]]
        o["const"] = bool(row.has_constant_totalcounts()) if d else True

        def ser1(lbl, *a):
            t, c = row.timeseries(lbl, *a)
            return [[enc(x, 2), enc(y, 4)] for x, y in zip(t, c)]
        o["one"] = [[x, ser1(OUT[x])] for x in pool if OUT[x] in ds.get_outcome_labels()] + [[-1, ser1("all")]]
        ts = sorted(rng.sample(range(0, 8), rng.randint(1, 4)))
        o["ts"] = ts
        tsr = [t / 2.0 for t in ts]
        o["samp"] = [[x, ser1(OUT[x], tsr)] for x in pool if OUT[x] in ds.get_outcome_labels()] + [[-1, ser1("all", tsr)]]
        if o["nt"] >= 2:
            f = frac(row.get_meantimestep())
            o["step"] = [2 * f[0], f[1]]
        else:
            o["step"] = [0, 1]
    else:
        o.update(times=[], nt=0, series=[], reps=[], outser=[], const=True, one=[], ts=[], samp=[], step=[0, 1])
    if rng.random() < 0.3:
        str(row), row.to_str("time-dependent"), row.to_str("time-independent")
    return o


def read_ds(ds, rng):
    g = {}
    rows = []
    ks = list(ds.keys())
    order = list(range(len(ks)))
    got = {}
    if rng.random() < 0.5:
        rng.shuffle(order)           # reading order must not matter
    via = {}
    for c, row in ds.items():
        via[c] = row
    for i in order:
        c = ks[i]
        k = KEY.get(c)
        r = rng.random()
        if k is not None and r < 0.3:
            row = ds.get_row(CIRCS[k[0]], occurrence=k[1])
        elif r < 0.5:
            row = via[c]
        else:
            row = ds[c]
        got[i] = read_row(ds, row, rng)
    g["rows"] = [got[i] for i in range(len(ks))]
    g["vals"] = [enc(r.total, 4) for r in ds.values()]
    g["strip"] = [key_of(c) for c in ds.keys(stripOccurrenceTags=True)]
    st2 = [key_of(c) for c, _ in ds.items(stripOccurrenceTags=True)]
    if st2 != g["strip"] and ds.collisionAction == "keepseparate":
        g["strip"] = [["items() and keys() disagree", 0]]
    present = set(ks)
    g["absent"] = [list(k) for c, k in KEY.items() if c not in present and c in ds]
    g["gates"] = [str(l) for l in ds.get_gate_labels(prefix=None) if not str(l).startswith("#")]
    g["cg"] = [GATES[KEY[c][0]] if c in KEY else [] for c in ks]
    g["triv"] = bool(ds.has_trivial_timedependence())
    g["dof"] = [0, 0, 0, 0]
    g["ct"] = g["ctt"] = True
    if ks and all(len(ds[c]) > 0 for c in ks):
        g["ct"] = bool(ds.has_constant_totalcounts())
        if all(list(ds[c].time) == sorted(ds[c].time) for c in ks):
            g["ctt"] = bool(ds.has_constant_totalcounts_pertime())
            g["dof"] = [int(ds.get_degrees_of_freedom(method=m, aggregate_times=a))
                        for m in ("all_outcomes-1", "present_outcomes-1") for a in (True, False)]
    if rng.random() < 0.3:
        str(ds)
    return g


class World(object):
    def __init__(self, slots, rng, tmp):
        self.p = [None] * (slots + 1)
        self.rng = rng
        self.tmp = tmp
        self.last = [DEAD] * (slots + 1)
        self.nfile = 0

    def lbl(self, o):
        l = OUT[o]
        return l[0] if (len(l) == 1 and self.rng.random() < 0.5) else l

    def circ(self, n):
        c = CIRCS[n]
        r = self.rng.random()
        if r < 0.15 and n in ("C", "Q", "G"):
            return tuple(c)     # circuits may be given as plain tuples
        return c

    def cdict(self, cnts, ordered):
        items = [(OUT[o], n / 4.0) for o, n in cnts]
        r = self.rng.random()
        if r < 0.5 and all(len(o) == 1 for o, _ in items):
            items = [(o[0], n) for o, n in items]
        if ordered:
            return collections.OrderedDict(items)
        if all(a[0] < b[0] for a, b in zip(items, items[1:])):   # plain dict: keys are sorted
            self.rng.shuffle(items)
            return dict(items)
        return collections.OrderedDict(items)

    def raw(self, d):
        return [self.lbl(x[0]) for x in d], [x[1] / 2.0 for x in d], [x[2] / 4.0 for x in d]

    def aux(self, a):
        return None if a == "-" else copy.deepcopy(AUX[a])

    def run(self, e):
        """executes one event; returns the event with what was observed"""
        e = dict(e)
        if e["op"] == "read":
            e["raised"] = False
            try:
                e["got"] = read_ds(self.p[e["s"]], self.rng)
            except Exception as ex:
                e["raised"] = True
                e["got"] = dict(rows=[])
                e["err"] = "%s: %s" % (type(ex).__name__, ex)
            return e
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                getattr(self, "do_" + e["op"])(e)
            e["raised"] = False
        except vf.Timeout:
            raise
        except Exception as ex:
            e["raised"] = True
            e["err"] = "%s: %s" % (type(ex).__name__, str(ex)[:300])
        e["obs"] = []
        for s in range(1, len(self.p)):
            try:
                pr = project(self.p[s])
            except Exception as ex:
                pr = dict(DEAD, live=True, n=-1, err="%s: %s" % (type(ex).__name__, str(ex)[:200]))
            if pr != self.last[s]:
                self.last[s] = pr
                e["obs"].append(dict(pr, slot=s))
        return e

    # operations -------------------------------------------------------------
    def do_new(self, e):
        if e["ols"]:
            self.p[e["s"]] = DataSet(outcomeLabels=[self.lbl(o) for o in e["ols"]], collisionAction=POL[e["pol"]])
        else:
            self.p[e["s"]] = DataSet(collisionAction=POL[e["pol"]])

    def do_addc(self, e):
        ds = self.p[e["s"]]
        kw = {}
        if not e["zero"] or self.rng.random() < 0.3:
            kw["recordZeroCnts"] = e["zero"]
        if e["aux"] != "-":
            kw["aux"] = self.aux(e["aux"])
        ds.add_count_dict(self.circ(e["c"]), self.cdict(e["cnts"], e["ordered"]), **kw)

    def do_addraw(self, e):
        ds = self.p[e["s"]]
        kw = dict(overwriteExisting=e["over"], recordZeroCnts=e["zero"], aux=self.aux(e["aux"]))
        d = e["d"]
        # whole series of dictionaries when the records allow it
        groups = []
        for x in d:
            if groups and groups[-1][0] == x[1] and x[0] not in [y[0] for y in groups[-1][1]]:
                groups[-1][1].append((x[0], x[2]))
            else:
                groups.append((x[1], [(x[0], x[2])]))
        if e["hasr"] and self.rng.random() < 0.5:
            dicts = []
            for _, g in groups:
                dicts.append(self.cdict(g, True))
            ds.add_series_data(self.circ(e["c"]), dicts, [t / 2.0 for t, _ in groups], **kw)
        else:
            ols, ts, reps = self.raw(d)
            ds.add_raw_series_data(self.circ(e["c"]), ols, ts, reps if e["hasr"] else None, **kw)

    def do_setrow(self, e):
        ds = self.p[e["s"]]
        ols, ts, reps = self.raw(e["d"])
        val = self.cdict(e["cnts"], True) if e["dict"] else ((ols, ts, reps) if e["hasr"] else (ols, ts))
        ds.set_row(self.circ(e["c"]), val, occurrence=e["occ"])

    def do_assign(self, e):
        ds = self.p[e["s"]]
        ols, ts, reps = self.raw(e["d"])
        val = self.cdict(e["cnts"], True) if e["dict"] else ((ols, ts, reps) if e["hasr"] else (ols, ts))
        ds[self.circ(e["c"])] = val

    def do_scale(self, e):
        self.p[e["s"]].get_row(CIRCS[e["c"]], e["occ"]).scale(e["num"] / e["den"])

    def do_buildreps(self, e):
        self.p[e["s"]].build_repetition_counts()

    def do_setcount(self, e):
        self.p[e["s"]].get_row(CIRCS[e["c"]], e["occ"])[self.lbl(e["o"])] = e["n"] / 4.0

    def do_setitem(self, e):
        row = self.p[e["s"]].get_row(CIRCS[e["c"]], e["occ"])
        v = (self.lbl(e["o"]), e["t"] / 2.0, e["n"] / 4.0)
        if e["n"] == 4 and self.rng.random() < 0.5:
            v = v[:2]
        row[e["i"] - 1] = v

    def do_addaux(self, e):
        self.p[e["s"]].add_auxiliary_info(tagged(CIRCS[e["c"]], e["occ"]), self.aux(e["aux"]))

    def do_addfrom(self, e):
        f = self.p[e["s"]]
        (f.add_series_from_dataset if self.rng.random() < 0.5 else f.add_counts_from_dataset)(self.p[e["s2"]])

    def keys(self, e):
        return [tagged(CIRCS[c], k) for c, k in e["keys"]]

    def do_remove(self, e):
        ds = self.p[e["s"]]
        ks = self.keys(e)
        if len(ks) == 1 and e["miss"] == "raise" and self.rng.random() < 0.5:
            del ds[ks[0]]
        else:
            ds.remove(ks, e["miss"])

    def do_done(self, e):
        self.p[e["s"]].done_adding_data()

    def do_rename(self, e):
        self.p[e["s"]].rename_outcome_labels({self.lbl(a): self.lbl(b) for a, b in e["m"]})

    def procfn(self, m):
        d = {tagged(CIRCS[c], k): (CIRCS[n] if n else None) for c, k, n in m}
        return lambda c: d[c]

    def do_process(self, e):
        ds = self.p[e["s"]]
        d = {tagged(CIRCS[c], k): (CIRCS[n] if n else None) for c, k, n in e["m"]}
        ds.process_circuits(lambda c: d.get(c), aggregate=e["agg"])

    def do_copy(self, e):
        ds = self.p[e["s"]]
        c = ds.copy()
        if ds.bStatic:
            if c is not ds:
                c = c
            else:
                c = pickle.loads(pickle.dumps(c))
        self.p[e["s2"]] = c

    def do_copyns(self, e):
        self.p[e["s2"]] = self.p[e["s"]].copy_nonstatic()

    def do_trunc(self, e):
        ks = self.keys(e)
        if self.rng.random() < 0.2:
            ks = [tuple(c) if c in KEY and KEY[c][0] in ("C", "Q", "G") else c for c in ks]
        self.p[e["s2"]] = self.p[e["s"]].truncate(ks, e["miss"])

    def do_slice(self, e):
        a = None if e["agg"] == -1 else e["agg"] / 2.0
        self.p[e["s2"]] = self.p[e["s"]].time_slice(e["a"] / 2.0, e["b"] / 2.0, a)

    def mdict(self, e):
        tup = self.rng.random() < 0.5
        f = (lambda o: OUT[o]) if tup else (lambda o: OUT[o][0] if len(OUT[o]) == 1 else OUT[o])
        return collections.OrderedDict((f(n), [f(o) for o in olds]) for n, olds in e["m"])

    def do_merge(self, e):
        self.p[e["s2"]] = self.p[e["s"]].merge_outcomes(self.mdict(e), recordZeroCnts=e["zero"])

    def do_mergefn(self, e):
        self.p[e["s2"]] = pygsti.construction.merge_outcomes(self.p[e["s"]], self.mdict(e), recordZeroCnts=e["zero"])

    def do_filter(self, e):
        kw = {}
        if e["new"] != e["keep"] or self.rng.random() < 0.3:
            kw["new_sectors"] = tuple(e["new"])
        if e["pos"] != e["keep"] or self.rng.random() < 0.3:
            kw["sindices_to_keep"] = tuple(e["pos"])
        if not e["circ"]:
            kw["filtercircuits"] = False
        self.p[e["s2"]] = pygsti.construction.filter_dataset(self.p[e["s"]], tuple(e["keep"]), recordZeroCnts=e["zero"], **kw)

    def do_trim(self, e):
        self.p[e["s2"]] = pygsti.construction.trim_to_constant_numtimesteps(self.p[e["s"]])

    def do_mnew(self, e):
        self.p[e["s"]] = pygsti.objects.MultiDataSet()

    def do_madd(self, e):
        m = self.p[e["s2"]]
        if e["noaux"]:
            m.add_dataset(e["name"], self.p[e["s"]], update_auxinfo=False)
        elif self.rng.random() < 0.5:
            m.add_dataset(e["name"], self.p[e["s"]])
        else:
            m[e["name"]] = self.p[e["s"]]

    def do_maux(self, e):
        self.p[e["s"]].add_auxiliary_info(tagged(CIRCS[e["c"]], e["occ"]), self.aux(e["aux"]))

    def do_mcopy(self, e):
        self.p[e["s2"]] = self.p[e["s"]].copy()

    def do_mtogether(self, e):
        ds = self.p[e["s"]].get_datasets_aggregate(*e["names"])
        e["got"] = [sorted([x for x in items_of(ds[c]) if x[2] != 0], key=lambda x: (x[1], x[0])) for c in ds.keys()]

    def do_mstore(self, e):
        m = self.p[e["s"]]
        r = e["route"]
        self.nfile += 1
        fn = os.path.join(self.tmp, "m%d" % self.nfile)
        if r == "pickle":
            new = pickle.loads(pickle.dumps(m))
        elif r == "text":
            pygsti.io.write_multidataset(fn + ".txt", m)
            new = pygsti.io.load_multidataset(fn + ".txt", verbosity=0)
        else:
            fn += ".gz" if r == "savegz" else ""
            m.save(fn)
            if self.rng.random() < 0.5:
                new = pygsti.objects.MultiDataSet(fileToLoadFrom=fn)
            else:
                new = pygsti.objects.MultiDataSet()
                new.load(fn)
        self.p[e["s2"]] = new
        for f in os.listdir(self.tmp):
            os.remove(os.path.join(self.tmp, f))

    def do_free(self, e):
        self.p[e["s"]] = None

    def do_store(self, e):
        ds = self.p[e["s"]]
        r = e["route"]
        self.nfile += 1
        fn = os.path.join(self.tmp, "f%d" % self.nfile)
        if r == "save":
            if self.rng.random() < 0.5:
                b = io.BytesIO()
                ds.save(b)
                b.seek(0)
                new = DataSet()
                new.load(b)
            else:
                ds.save(fn)
                new = DataSet()
                new.load(fn)
        elif r == "savegz":
            ds.save(fn + ".gz")
            new = DataSet()
            new.load(fn + ".gz")
        elif r == "ctor":
            ds.save(fn)
            new = DataSet(fileToLoadFrom=fn)
        elif r == "pickle":
            new = pickle.loads(pickle.dumps(ds))
        elif r == "deepcopy":
            new = copy.deepcopy(ds)
        elif r == "json":
            new = pygsti.io.json.loads(pygsti.io.json.dumps(ds))
        elif r == "msgpack":
            new = pygsti.io.msgpack.loads(pygsti.io.msgpack.dumps(ds))
        else:
            fn += ".txt"
            pol = ds.collisionAction
            if r == "text":
                pygsti.io.write_dataset(fn, ds)
                new = pygsti.io.load_dataset(fn, collisionAction=pol, verbosity=0)
            elif r == "textx":
                pygsti.io.write_dataset(fn, ds, fixedColumnMode=False, withTimes=False)
                new = pygsti.io.load_dataset(fn, collisionAction=pol, verbosity=0, withTimes=False)
            else:
                pygsti.io.write_dataset(fn, ds, fixedColumnMode=False, withTimes=True)
                new = pygsti.io.load_dataset(fn, collisionAction=pol, verbosity=0)
        self.p[e["s2"]] = new
        for f in os.listdir(self.tmp):
            os.remove(os.path.join(self.tmp, f))
