"""Makes the circuit lists, structures and designs of GST with the real code and records them for GstListsTrace.tla (C15)."""
import itertools, warnings
import numpy as np
import vf
from pygsti.objects import Circuit, Label, DataSet, LsGermsStructure, LsGermsSerialStructure, ExplicitOpModel
from pygsti.construction import circuitconstruction as cc, stdlists
from pygsti.protocols import gst, protocol

NONE = dict(on=False, has=[])
TRUNC = ["whole germ powers", "truncated germ powers", "length as exponent"]


class World:
    """circuits are sequences of numbers; every number is a layer on the same lines"""

    def __init__(self, rng, kind=None):
        k = kind or rng.choice(["*", "*", "1", "2", "2"])
        if k == "*":
            self.labels, self.lines = [Label("Gx"), Label("Gy"), Label("Gz")], ("*",)
        elif k == "1":
            q = rng.choice([0, 3, "Q1"])
            self.labels, self.lines = [Label("Gx", q), Label("Gy", q), Label("Gz", q)], (q,)
        else:
            a, b = rng.choice([(0, 1), ("Q0", "Q1")])
            ls = [Label("Gx", a), Label("Gy", b), Label("Gcnot", (a, b)), Label([("Gx", a), ("Gy", b)]), Label("Gcnot", (b, a))]
            rng.shuffle(ls)
            self.labels, self.lines = ls[:3], (a, b)
        self.single = k != "2"
        self.idx = {l: i + 1 for i, l in enumerate(self.labels)}

    def c(self, xs):
        return Circuit([self.labels[x - 1] for x in xs], line_labels=self.lines)

    def tup(self, xs):
        return tuple(self.labels[x - 1] for x in xs)

    def e(self, c):
        """the numbers of a circuit; 99: it is on other lines, 98: an unknown layer"""
        if not isinstance(c, Circuit):
            return [self.idx.get(x, 98) for x in c]
        return [self.idx.get(x, 98) for x in c] + ([] if tuple(c.line_labels) == self.lines else [99])

    def es(self, cs):
        return [self.e(c) for c in cs]


def dataset(w, cs):
    ds = DataSet(outcomeLabels=["0", "1"])
    for c in cs:
        ds.add_count_dict(w.c(c), {"0": 1})
    ds.done_adding_data()
    return ds


def words(n, lo, hi):
    return [list(x) for L in range(lo, hi + 1) for x in itertools.product(range(1, n + 1), repeat=L)]


def see(w, s):
    """what a user sees of a structure"""
    germs = [w.e(g) for g in s.germs]
    pl = []
    for L in s.Ls:
        for g, ge in zip(s.germs, germs):
            p, f = s.get_plaquette(L, g, onlyfirst=False), s.get_plaquette(L, g)
            els = [[i + 1, j + 1, w.e(c)] for i, j, c in p]
            if len(p) != len(els) or [w.e(c) for c in p.get_all_strs()] != [x[2] for x in els]:
                els.append([98, 98, []])
            pl.append(dict(L=int(L), g=ge, has=p.base is not None, base=w.e(p.base) if p.base is not None else [], els=els,
                           fels=[[i + 1, j + 1, w.e(c)] for i, j, c in f]))
    return dict(Ls=[int(L) for L in s.Ls], germs=germs, all=w.es(s.allstrs), un=w.es(s.unindexed), rc=list(map(int, s.plaquette_rows_cols())), pl=pl,
                usedx=[int(x) for x in s.used_xvals()], usedy=w.es(s.used_yvals()), bases=w.es(s.get_basestrings()))


class Rec:
    def __init__(self, id, w):
        self.w, self.id, self.ev, self.live = w, id, [], []

    def do(self, ev, fn, look=True):
        """fn fills in what was got"""
        ev["raised"] = False
        n = len(self.live)
        try:
            with vf.time_limit(60), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn(ev)
                if look:
                    ev["obs"] = [see(self.w, s) for s in self.live]
        except vf.Timeout:
            raise
        except Exception as x:
            ev["raised"], ev["exc"] = True, "%s: %s" % (type(x).__name__, x)
            del self.live[n:]
            if look:
                try:
                    ev["obs"] = [see(self.w, s) for s in self.live]
                except Exception as y:
                    ev["obs"], ev["exc"] = [], ev["exc"] + "; then %s: %s" % (type(y).__name__, y)
        self.ev.append(ev)
        return not ev["raised"]

    def trace(self):
        return dict(id=self.id, ev=self.ev)


def ali(w, al):
    return None if not al else {w.labels[x - 1]: w.c(c) for x, c in al}


def rls(w, rules, rng):
    return None if not rules else [tuple(w.c(r[k]) if rng and rng.random() < .3 else w.tup(r[k]) for k in (0, 1)) for r in rules]


def filt(w, f):
    return dataset(w, f["has"]) if f["on"] else None


# ------------------------------------------------------------------- structures
def new(rec, rng, kind, Ls, germs, preps, effs, rows, cols, rules, al):
    w = rec.w
    ev = dict(op="new", kind=kind, Ls=Ls, germs=germs, preps=preps, effs=effs, rows=rows, cols=cols, rules=rules, al=al)

    def fn(ev):
        a, r = ali(w, al), rls(w, rules, rng)
        gs = list(map(w.c, germs))
        s = LsGermsStructure(list(Ls), gs, list(map(w.c, preps)), list(map(w.c, effs)), a, r) if kind == "grid" else LsGermsSerialStructure(list(Ls), gs, rows, cols, a, r)
        rec.live.append(s)
        if a:
            a.clear()  # the structure has its own
        gs.pop()
    return rec.do(ev, fn)


def addp(rec, s, base, L, g, prs, f=NONE, default=False):
    w, S = rec.w, rec.live[s - 1]
    grid = isinstance(S, LsGermsStructure)
    ev = dict(op="addp", s=s, base=base, L=L, g=g, prs=prs, filt=f, missing=[])

    def fn(ev):
        p = None if default else [(i - 1, j - 1) for i, j in prs] if grid else [(w.c(a), w.c(b)) for a, b in prs]
        q = list(p) if p is not None else None
        m = S.add_plaquette(w.c(base), L, w.c(g), p, filt(w, f))
        ev["missing"] = [[w.e(x[0]), w.e(x[3])] if (w.e(x[1]), x[2], w.e(x[4])) == (g, L, w.e(x[0]) + base + w.e(x[3])) else [[98], [98]] for x in m]
        assert p == q, "the list of pairs was changed"
    return rec.do(ev, fn)


def addu(rec, s, cs, f=NONE):
    w = rec.w
    ev = dict(op="addu", s=s, cs=cs, filt=f, missing=[])

    def fn(ev):
        ev["missing"] = w.es(rec.live[s - 1].add_unindexed(list(map(w.c, cs)), filt(w, f)))
    return rec.do(ev, fn)


def copy(rec, s):
    return rec.do(dict(op="copy", s=s), lambda ev: rec.live.append(rec.live[s - 1].copy()))


def trunc(rec, rng, s, Ls, germs, preps, effs, seqs, rows=0, cols=0):
    w, S = rec.w, rec.live[s - 1]
    grid = isinstance(S, LsGermsStructure)
    ev = dict(op="trunc", s=s, Ls=Ls, germs=germs, preps=preps, effs=effs, seqs=seqs, rows=rows, cols=cols)

    def none(given, whole, conv):
        return None if given == whole and rng.random() < .6 else conv(given)

    def fn(ev):
        a = none(Ls, list(S.Ls), list)
        b = none(germs, w.es(S.germs), lambda x: list(map(w.c, x)))
        if grid:
            T = S.truncate(a, b, none(preps, w.es(S.prepStrs), lambda x: list(map(w.c, x))), none(effs, w.es(S.effectStrs), lambda x: list(map(w.c, x))),
                           list(map(w.c, seqs["has"])) if seqs["on"] else None)
        else:
            T = S.truncate(a, b, *[{0: None, -1: "auto"}.get(x, x) for x in (rows, cols)])
        rec.live.append(T)
    return rec.do(ev, fn)


def ren(rec, s, perm):
    w = rec.w

    def P(c):
        return w.c([perm[x - 1] for x in w.e(c)])
    return rec.do(dict(op="ren", s=s, ren=perm), lambda ev: rec.live.append(rec.live[s - 1].process_circuits(P)))


def expand(rec, rng, s, L, g, f):
    w = rec.w

    def fn(ev):
        p = rec.live[s - 1].get_plaquette(L, w.c(g), onlyfirst=False)
        q = p.expand_aliases(filt(w, f)) if f["on"] or rng.random() < .5 else p.expand_aliases()
        fp = q.fidpairs if q.fidpairs is not None and len(q.fidpairs) == len(q.elements) else [[w.c([]), w.c([1, 1, 1, 1, 1])]] * len(q.elements)
        ev["els"] = [[i + 1, j + 1, w.e(c), [w.e(a), w.e(b)]] for (i, j, c), (a, b) in zip(q.elements, fp)]
    return rec.do(dict(op="exp", s=s, L=L, g=g, filt=f), fn)


def design1(rec, s):
    w = rec.w

    def fn(ev):
        d = protocol.CircuitStructuresDesign(rec.live[s - 1])
        ev.update(lists=[w.es(x) for x in d.circuit_lists], all=w.es(d.all_circuits_needing_data))
    return rec.do(dict(op="design1", s=s), fn, look=False)


def some(rng, xs, k, empty=True):
    n = rng.randrange(0 if empty else 1, k + 1)
    return [list(x) for x in rng.sample(xs, min(n, len(xs)))]


def rules(rng):
    k = rng.random()
    if k < .5:
        return []
    out, ins = [], False
    for _ in range(rng.choice([1, 1, 2, 3])):
        a, b = rng.choice(words(3, 1, 3)), rng.choice(words(3, 0, 3))
        if rng.random() < .5:  # context
            x = rng.choice(words(3, 1, 2))
            a, b = (x + a, x + b) if rng.random() < .5 else (a + x, b + x)
        if a == b:
            continue
        n = 0
        while n < min(len(a), len(b)) and a[n] == b[n]:
            n += 1
        m = 0
        while not n and m < min(len(a), len(b)) and a[-1 - m] == b[-1 - m]:
            m += 1
        if len(a) == n + m:  # a pure insertion
            if ins:
                continue
            ins = True
        out.append([a, b])
    return out


def aliases(rng):
    return [] if rng.random() < .5 else [[x, rng.choice(words(3, 0, 3))] for x in rng.sample([1, 2, 3], rng.choice([1, 1, 2]))]


def a_filter(rng, cs, al):
    """a data set with some of the circuits (aliases translated)"""
    if rng.random() < .6:
        return NONE
    d = {x: c for x, c in al}
    t = [sum([d.get(x, [x]) for x in c], []) for c in cs]
    keep = [c for c in t if rng.random() < rng.choice([.5, .9, 1, 0])]
    return dict(on=True, has=[list(c) for c in dict.fromkeys(map(tuple, keep))])


def power(t, g, L):
    if not g:
        return []
    return g * (L // len(g)) if t == 0 else (g * (L + 1))[:L] if t == 1 else g * L


def world(id, rng, n=14):
    w = World(rng)
    rec = Rec(id, w)
    meta = []  # what the driver knows of every structure
    preps, effs = some(rng, words(3, 0, 2), 3, False), some(rng, words(3, 0, 2), 3, False)
    germs, Ls = some(rng, words(3, 0, 3), 3, False), rng.sample([1, 2, 3, 4], rng.randrange(1, 4))
    al, rl = aliases(rng), rules(rng)

    def fresh():
        kind = rng.choice(["grid", "grid", "serial"])
        rows, cols = (len(effs), len(preps)) if kind == "grid" else (rng.randrange(1, 4), rng.randrange(1, 4))
        if new(rec, rng, kind, Ls, germs, preps, effs, rows, cols, rl, al):
            meta.append(dict(kind=kind, Ls=Ls, germs=germs, preps=preps, effs=effs, keys={}, al=al, cs=[]))
        return not rec.ev[-1]["raised"]
    if not fresh():
        return rec.trace()
    for _ in range(n):
        s = rng.randrange(len(meta))
        m = meta[s]
        op = rng.choice(["addp"] * 6 + ["addu"] * 2 + ["trunc"] * 3 + ["copy", "ren", "exp", "exp", "design1"] + (["new"] if len(meta) < 3 else []))
        if op == "new":
            if not fresh():
                break
        elif op == "addp":
            free = [(L, g) for L in m["Ls"] for g in m["germs"] if (L, tuple(g)) not in m["keys"]]
            if not free:
                continue
            L, g = rng.choice(free)
            base = power(rng.randrange(3), g, L) if rng.random() < .8 else rng.choice(words(3, 0, 3))
            grid = m["kind"] == "grid"
            if not m["preps"] or not m["effs"]:
                continue
            allp = [[i + 1, j + 1] for i in range(len(m["preps"])) for j in range(len(m["effs"]))]
            default = grid and rng.random() < .3
            prs = allp if default else rng.sample(allp, rng.randrange(len(allp) + 1))
            if not grid:
                prs = [[m["preps"][i - 1], m["effs"][j - 1]] for i, j in prs]
            cs = [(m["preps"][p[0] - 1] + base + m["effs"][p[1] - 1]) if grid else p[0] + base + p[1] for p in prs]
            ok = addp(rec, s + 1, base, L, g, prs, a_filter(rng, cs, m["al"]), default)
            if ok:
                m["keys"][(L, tuple(g))] = base
                m["cs"] = m["cs"] + cs
            else:
                continue
        elif op == "addu":
            cs = [rng.choice(words(3, 0, 3)) if rng.random() < .7 or not m["cs"] else list(rng.choice(m["cs"])) for _ in range(rng.randrange(4))]
            addu(rec, s + 1, cs, a_filter(rng, cs, m["al"]))
            m["cs"] = m["cs"] + cs
        elif op == "copy" and len(meta) < 4:
            copy(rec, s + 1)
            meta.append(dict(m, keys=dict(m["keys"])))
        elif op == "trunc" and len(meta) < 4:
            sub = lambda xs: list(xs) if rng.random() < .5 else [x for x in xs if rng.random() < .6]
            T = dict(m, Ls=sub(m["Ls"]), germs=sub(m["germs"]), keys={}, cut=True)
            seqs, r, c = NONE, 0, 0
            if m["kind"] == "grid":
                T.update(preps=sub(m["preps"]), effs=sub(m["effs"]))
                if rng.random() < .3:
                    seqs = dict(on=True, has=[x for x in m["cs"] if rng.random() < .7])
            else:
                r, c = rng.choice([(0, 0), (-1, -1), (-1, -1), (2, -1), (-1, 2), (3, 3)] + ([] if m.get("cut") else [(-1, 0), (0, -1)]))
                T["Ls"] = T["Ls"] or m["Ls"]
            T["keys"] = {k: b for k, b in m["keys"].items() if k[0] in T["Ls"] and list(k[1]) in T["germs"]}
            if not trunc(rec, rng, s + 1, T["Ls"], T["germs"], T["preps"], T["effs"], seqs, r, c):
                break
            meta.append(T)
        elif op == "ren" and len(meta) < 4:
            perm = rng.sample([1, 2, 3], 3)
            if not ren(rec, s + 1, perm):
                break
            R = lambda c: [perm[x - 1] for x in c]
            meta.append(dict(m, germs=list(map(R, m["germs"])), preps=list(map(R, m["preps"])), effs=list(map(R, m["effs"])), al=[], cs=list(map(R, m["cs"])),
                             keys={(L, tuple(R(g))): R(b) for (L, g), b in m["keys"].items()}))
        elif op == "exp" and m["keys"]:
            L, g = rng.choice(sorted(m["keys"]))
            expand(rec, rng, s + 1, L, list(g), a_filter(rng, m["cs"], m["al"]))
        elif op == "design1":
            if m["Ls"] == sorted(m["Ls"]) and m["Ls"] and len(rec.live[s].allstrs):
                design1(rec, s + 1)
        if rec.ev[-1]["raised"] and rec.ev[-1]["op"] != "addp":
            break
    return rec.trace()


def script(id, rng, scr):
    """a sequence of operations enumerated from GstListsMC"""
    w = World(rng)
    rec = Rec(id, w)
    r = {0: [], 1: [[[1, 1], [1, 3]], [[2], [3, 3]]], 2: [[[1, 2], [2]]]}[scr["rules"]]
    germs = [[], [1], [1, 2]]
    new(rec, rng, "grid", [1, 2], germs, [[], [1]], [[], [2]], 2, 2, r, [[1, [2, 2]]] if scr["rules"] == 2 else [])
    for o in scr["ops"]:
        if o["op"] == "addp":
            g = germs[o["g"] - 1]
            addp(rec, 1, power(0, g, o["L"]), o["L"], g, o["prs"], o["f"])
        else:
            addu(rec, 1, o["cs"], o["f"])
    trunc(rec, rng, 1, [1, 2], germs, [[], [1]], [[], [2]], NONE)
    trunc(rec, rng, 1, [2], germs[1:], [[1]], [[], [2]], NONE)
    ren(rec, 1, [3, 1, 2])
    copy(rec, 1)
    addu(rec, len(rec.live), [[3, 3, 3]])
    return rec.trace()


# ------------------------------------------------------------------ lists, designs
def config(rng, w, design=False):
    preps, effs = some(rng, words(3, 0, 2), 3, False), some(rng, words(3, 0, 2), 3, False)
    if rng.random() < .5:
        effs = list(preps)
    germs = some(rng, words(3, 1, 4), 4, False)
    if rng.random() < .1:
        germs.insert(rng.randrange(len(germs) + 1), [])
    Ls = sorted(rng.sample([1, 2, 3, 4, 5, 6, 8], rng.randrange(1, 4)))
    if rng.random() < .15:
        Ls = [0] + Ls
    if rng.random() < .15:
        rng.shuffle(Ls)
    allp = [[i + 1, j + 1] for i in range(len(preps)) for j in range(len(effs))]
    mode = rng.choice(["all", "list", "dict"])
    one = rng.sample(allp, rng.randrange(1, len(allp) + 1))
    prs = [list(allp) if mode == "all" else one if mode == "list" else rng.sample(allp, rng.randrange(len(allp) + 1)) for _ in germs]
    lim = [rng.choice([99, 99, 99, 1, 2, 4]) for _ in germs] if rng.random() < .4 else [99] * len(germs)
    nest = rng.random() < .7
    lgst = rng.random() < .75 or (nest and w.lines != ("*",))
    if not lgst and [] in germs:
        germs = [g or [2, 1, 2] for g in germs]
        if [2, 1, 2] in germs and len({tuple(g) for g in germs}) < len(germs):
            germs, prs, lim = germs[:1], prs[:1], lim[:1]
    ops = [1, 2, 3] if design else rng.sample([1, 2, 3], rng.randrange(1, 4))
    return dict(preps=preps, effs=effs, ops=ops, germs=germs, Ls=Ls, prs=prs, trunc=TRUNC[0] if design else rng.choice(TRUNC), nest=nest, lgst=lgst, lim=lim, rules=[], al=[]), mode


_models = {}


def model(w):
    k = (tuple(w.labels), w.lines)
    if k not in _models:
        m = ExplicitOpModel(list(w.lines), basis="pp") if w.lines != ("*",) else ExplicitOpModel([0], basis="pp")
        for l in w.labels:
            m.operations[l] = np.eye(m.dim)
        _models[k] = m
    return _models[k]


def args(rng, w, cf, mode, m=None):
    ops = [w.labels[x - 1] for x in cf["ops"]]
    if cf["ops"] == [1, 2, 3] and rng.random() < .3:
        ops = model(w)
    gs = list(map(w.c, cf["germs"]))
    p = None if mode == "all" else [(i - 1, j - 1) for i, j in cf["prs"][0]] if mode == "list" else {g: [(i - 1, j - 1) for i, j in q] for g, q in zip(gs, cf["prs"])}
    if mode == "dict" and m == "structs":
        full = len(cf["preps"]) * len(cf["effs"])
        for g, q in zip(gs, cf["prs"]):
            if len(q) == full and q == sorted(q) and rng.random() < .5:
                del p[g]  # all pairs
    lim = {g: L for g, L in zip(gs, cf["lim"]) if L != 99}
    return dict(opLabelSrc=ops, prepStrs=list(map(w.c, cf["preps"])), effectStrs=list(map(w.c, cf["effs"])), germList=gs, maxLengthList=list(cf["Ls"]), fidPairs=p,
                truncScheme=cf["trunc"], nest=cf["nest"], includeLGST=cf["lgst"], germLengthLimits=lim if lim or rng.random() < .5 else None)


def lists(rec, rng):
    w = rec.w
    cf, mode = config(rng, w)
    rec.do(dict(op="lists", cf=cf), lambda ev: ev.update(got=[w.es(x) for x in stdlists.make_lsgst_lists(**args(rng, w, cf, mode))]), look=False)
    if cf["nest"] and set(cf["lim"]) == {99}:
        def fn(ev):
            a = args(rng, w, cf, mode)
            del a["nest"], a["germLengthLimits"]
            ev["got"] = w.es(stdlists.make_lsgst_experiment_list(**a))
        rec.do(dict(op="expl", cf=cf), fn, look=False)


def elists(rec, rng):
    w = rec.w
    cf, _ = config(rng, w)

    def fn(ev):
        a = args(rng, w, cf, "all")
        a = {k: a[k] for k in ("opLabelSrc", "germList", "maxLengthList", "truncScheme", "nest", "includeLGST")}
        if ev["op"] == "elists":
            ev["got"] = [w.es(x) for x in stdlists.make_elgst_lists(**a)]
        else:
            del a["nest"]
            ev["got"] = w.es(stdlists.make_elgst_experiment_list(**a))
    if w.lines == ("*",):
        rec.do(dict(op="elists", cf=cf), fn, look=False)
        if cf["nest"]:
            rec.do(dict(op="eexpl", cf=cf), fn, look=False)


def structs(rec, rng, design=False):
    w = rec.w
    design = design and w.lines != ("*",) or rng.random() < .3
    cf, mode = config(rng, w, design)
    cf["rules"], cf["al"] = (rules(rng) if rng.random() < .5 else []), (aliases(rng) if rng.random() < .5 else [])
    f, action = NONE, "raise"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if rng.random() < .4:
            try:
                every = w.es(stdlists.make_lsgst_structs(**args(rng, w, dict(cf, nest=True), mode, "structs"))[-1].allstrs)
            except Exception:
                every = []
            f = a_filter(rng, every, cf["al"])
            action = rng.choice(["drop", "drop", "raise"])
    al, rl = ali(w, cf["al"]), rls(w, cf["rules"], rng)

    def fn(ev):
        a = args(rng, w, cf, mode, "structs")
        if design:
            d = gst.StandardGSTDesign(model(w), a["prepStrs"], a["effectStrs"], a["germList"], a["maxLengthList"], a["germLengthLimits"], a["fidPairs"],
                                      includeLGST=cf["lgst"], nest=cf["nest"], sequenceRules=rl, opLabelAliases=al, dscheck=filt(w, f), actionIfMissing=action)
            ev.update(got=[see(w, s) for s in d.circuit_structs], lists=[w.es(x) for x in d.circuit_lists], all=w.es(d.all_circuits_needing_data))
        else:
            ev["got"] = [see(w, s) for s in stdlists.make_lsgst_structs(opLabelAliases=al, sequenceRules=rl, dscheck=filt(w, f), actionIfMissing=action, **a)]
    rec.do(dict(op="structs", cf=cf, filt=f, action=action, design=design), fn, look=False)


def keep(rec, rng):
    w = rec.w
    cf, mode = config(rng, w)
    cf["germs"] = [g or [3, 3] for g in cf["germs"]]
    if len({tuple(g) for g in cf["germs"]}) < len(cf["germs"]):
        cf.update(germs=cf["germs"][:1], prs=cf["prs"][:1], lim=cf["lim"][:1])
    cf["Ls"] = [L for L in cf["Ls"] if L] or [1]
    N = len(cf["preps"]) * len(cf["effs"])
    num, den = rng.choice([(a, b) for b in range(1, 8) for a in range(0, b) if (2 * a * N) % b or ((2 * a * N) // b) % 2 == 0])
    seed = rng.randrange(1000)

    def fn(ev):
        a = args(rng, w, cf, mode, "structs")
        ev["got"] = [see(w, s) for s in stdlists.make_lsgst_structs(keepFraction=num / den, keepSeed=seed, **a)]
        a = args(rng, w, cf, mode)
        ev["lists"] = [w.es(x) for x in stdlists.make_lsgst_lists(keepFraction=num / den, keepSeed=seed, **a)]
    rec.do(dict(op="keep", cf=cf, fixed=mode != "all", num=num, den=den), fn, look=False)


def small(rec, rng):
    w = rec.w
    k = rng.choice(["lgst", "trans", "trans", "compose", "manip", "manip", "manip", "reps", "made", "made", "est", "ldesign", "part"] + (["neck", "allc"] if w.lines == ("*",) else []))
    cs = [rng.choice(words(3, 0, 6)) for _ in range(rng.randrange(1, 6))]
    if k == "lgst":
        p, f, o = some(rng, words(3, 0, 2), 3, False), some(rng, words(3, 0, 2), 3, False), rng.sample([1, 2, 3], rng.randrange(4))
        ops = [w.labels[x - 1] for x in o]
        rec.do(dict(op=k, preps=p, effs=f, ops=o), lambda ev: ev.update(got=w.es(cc.list_lgst_circuits(list(map(w.c, p)), list(map(w.c, f)), model(w) if o == [1, 2, 3] else ops))), False)
    elif k == "trans":
        al = aliases(rng)

        def fn(ev):
            a = ali(w, al)
            if a and rng.random() < .4:
                a = {x: tuple(c) for x, c in a.items()}
            ev["got"] = w.es(cc.translate_circuit_list(list(map(w.c, cs)), a) if rng.random() < .5 else [cc.translate_circuit(w.c(c), a) for c in cs])
        rec.do(dict(op=k, cs=cs, al=al), fn, False)
    elif k == "compose":
        a1 = [[x, rng.choice(words(3, 0, 3))] for x in (1, 2, 3)]
        a2 = [[x, rng.choice(words(3, 0, 3))] for x in (1, 2, 3)]

        def fn(ev):
            r = cc.compose_alias_dicts({w.labels[x - 1]: w.tup(c) for x, c in a1}, {w.labels[x - 1]: w.tup(c) for x, c in a2})
            ev["got"] = [w.e(r[l]) for l in w.labels]
        rec.do(dict(op=k, al=a1, al2=a2), fn, False)
    elif k == "manip":
        r = rules(rng) or [[[1, 2], [1, 3]]]

        def fn(ev):
            rl = rls(w, r, rng)
            if rng.random() < .5:
                ev["got"] = w.es(cc.manipulate_circuit_list(list(map(w.c, cs)), rl, w.lines))
            else:
                ev["got"] = w.es([cc.manipulate_circuit(w.c(c) if rng.random() < .5 else w.tup(c), rl, w.lines) for c in cs])
        rec.do(dict(op=k, cs=cs, rules=r), fn, False)
    elif k == "reps":
        c, L = rng.choice(words(3, 0, 4)), rng.randrange(9)
        x = w.c(c)
        rec.do(dict(op=k, c=c, L=L), lambda ev: ev.update(got=w.es([cc.repeat(x, L), cc.repeat_with_max_length(x, L), cc.repeat_and_truncate(x, L), cc.repeat_remainder_for_truncation(x, L)]),
                                                          count=int(cc.repeat_count_with_max_length(x, L))), False)
    elif k == "made":
        n = rng.randrange(1, 4)
        vals = [some(rng, words(3, 0, 3), 3, False) for _ in range(n)]
        terms = [[rng.randrange(1, n + 1), rng.choice([1, 1, 2, 3])] for _ in range(rng.randrange(1, 4))]
        used = sorted({t[0] for t in terms})
        rng.shuffle(used)
        names = "pqr"
        ex = "+".join(names[v - 1] if m == 1 else "%s*%d" % (names[v - 1], m) if rng.random() < .5 else "R(%s,%d)" % (names[v - 1], m) for v, m in terms)

        def fn(ev):
            kw = {names[v]: [w.c(c) for c in vals[v]] for v in range(n)}
            ev["got"] = w.es(cc.create_circuit_list(ex, order=[names[v - 1] for v in used], R=cc.repeat, **kw))
        rec.do(dict(op=k, vals=vals, terms=terms, order=used), fn, False)
    elif k == "est":
        p, f = some(rng, words(2, 0, 2), 2, False), some(rng, words(2, 0, 2), 2, False)
        roots = some(rng, words(2, 0, 3), 4)
        has = [a + r + b for r in roots for a in p for b in f if rng.random() < .93] + some(rng, words(2, 0, 4), 3)
        has = [list(x) for x in dict.fromkeys(map(tuple, has))] or [[1]]
        rec.do(dict(op=k, preps=p, effs=f, has=has), lambda ev: ev.update(got=[w.e(x) for x in cc.list_strings_lgst_can_estimate(dataset(w, has), list(map(w.c, p)), list(map(w.c, f)))]), False)
    elif k == "ldesign":
        ls = [[list(x) for x in dict.fromkeys(map(tuple, some(rng, words(3, 0, 2), 5)))] for _ in range(rng.randrange(1, 4))]
        ls[0] = ls[0] or [[1]]
        nested = rng.random() < .4
        if nested:
            ls = [ls[0]] + [[list(x) for x in dict.fromkeys(map(tuple, sum(ls[:i + 2], [])))] for i in range(len(ls) - 1)]

        def fn(ev):
            d = protocol.CircuitListsDesign([list(map(w.c, x)) for x in ls], nested=nested)
            ev.update(lists=[w.es(x) for x in d.circuit_lists], all=w.es(d.all_circuits_needing_data))
        rec.do(dict(op=k, got=ls), fn, False)
    elif k == "part":
        c = cs[0]
        rec.do(dict(op=k, c=c), lambda ev: ev.update(got=[w.e(x) for x in cc.list_partial_strings(w.c(c))]), False)
    elif k == "neck":
        n, L = rng.randrange(1, 4), rng.randrange(1, 5)
        if rng.random() < .2:
            n, L = 2, 6
        rec.do(dict(op=k, n=n, L=L), lambda ev: ev.update(got=w.es(cc.list_all_circuits_without_powers_and_cycles(w.labels[:n], L))), False)
    elif k == "allc":
        n, lo = rng.randrange(1, 4), rng.randrange(0, 3)
        hi = lo + rng.randrange(0, 3)
        rec.do(dict(op=k, n=n, lo=lo, hi=hi), lambda ev: ev.update(got=w.es(cc.list_all_circuits(w.labels[:n], lo, hi))), False)


def listed(id, rng, n):
    rec = Rec(id, World(rng))
    for _ in range(n):
        rng.choice([lists, lists, elists, structs, structs, lambda r, g: structs(r, g, True), keep, small, small, small])(rec, rng)
    return rec.trace()


def corrupt(t):
    for ev in t["ev"]:
        if ev["raised"]:
            continue
        if ev["op"] == "lists" and len(ev["got"][-1]) > 1:
            ev["got"][-1].pop()
            return t
    return None
