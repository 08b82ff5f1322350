"""Seeded random histories over DataSet.tla's operations (arguments are chosen from the current projections)."""
import random, shutil, tempfile, os
import vf
from dsworld import World, CIRCS, BASE, TAB, OUT, MAXOCC, DEAD, KEY, tagged
import pygsti
from pygsti.objects import dataset as dsmod

ADD = ["addc"] * 5 + ["addraw"] * 5 + ["assign"] * 2 + ["setrow"] * 2
EDIT = ["scale", "buildreps", "setcount", "setitem", "addaux", "remove", "remove"]
MULTI = ["mnew", "madd", "mmore", "mmore", "mmore", "maux", "mcopy", "mtogether"]
DERIVE = ["copy", "copyns", "trunc", "trunc", "slice", "slice", "merge", "mergefn", "trim"]


def gen_items(rng, outs, n, times="mono", hasr=True):
    d = []
    t = rng.choice([0, 0, 0, 1, 2])
    for _ in range(n):
        if times == "zero":
            tt = 0
        else:
            tt = t
            if rng.random() < 0.5:
                t += rng.choice([1, 1, 2, 4])
        d.append([rng.choice(outs), tt, rng.choice([4, 4, 8, 0, 12, 400]) if hasr else 4])
    return d


class Driver(object):
    def __init__(self, rng, slots, tmp, mix, outs=None, circs=None):
        self.rng = rng
        self.w = World(slots, rng, tmp)
        self.mix = mix
        self.ns = slots
        self.outs = outs or rng.choice([[0, 3], [1, 2, 4, 5], [0, 3, 6, 7], [6, 7], list(range(8))])
        cs = circs or BASE
        self.cs = rng.sample(cs, rng.randint(2, min(5, len(cs))))
        self.ev = []
        self.half = False

    def st(self, s):
        return self.w.last[s]

    def live(self, **kw):
        r = [s for s in range(1, self.ns + 1) if self.st(s)["live"] and not self.st(s).get("multi")]
        for k, v in kw.items():
            r = [s for s in r if self.st(s)[k] == v]
        return r

    def do(self, **e):
        r = self.w.run(e)
        self.ev.append(r)
        return r

    def read(self, s):
        if self.st(s)["live"] and not self.st(s).get("multi"):
            self.do(op="read", s=s)

    def pickrow(self, s):
        rows = self.st(s)["rows"]
        rows = [r for r in rows if not str(r[0]).startswith("?")]
        return self.rng.choice(rows) if rows else None

    def free_slot(self, avoid):
        c = [s for s in range(1, self.ns + 1) if s != avoid]
        dead = [s for s in c if not self.st(s)["live"]]
        return self.rng.choice(dead or c)

    def mstep(self, op):
        rng = self.rng
        M = [s for s in range(1, self.ns + 1) if self.st(s).get("multi")]
        L = self.live()
        if op == "mnew":
            s = self.free_slot(0)
            return self.do(op=op, s=s), s
        if not M:
            return None
        m = rng.choice(M)
        st = self.st(m)
        if op == "madd":
            want = sorted(map(tuple, st["keys"]))
            ok = [s for s in L if self.st(s)["static"] and (not st["sets"] or sorted((r[0], r[1]) for r in self.st(s)["rows"]) == want)]
            if (not ok or rng.random() < 0.05) and L and rng.random() < 0.4:
                ok = L
            if not ok:
                return None
            s = rng.choice(ok)
            if any(not r[2] for r in self.st(s)["rows"]) or not self.st(s)["rows"]:
                return None
            nm = rng.choice(["d1", "d2", "d3"])
            if any(x[0] == nm for x in st["sets"]):
                return None
            return self.do(op=op, s=s, s2=m, name=nm, noaux=rng.random() < 0.3), m
        if op == "mmore":      # a data set over the same circuits, edited, frozen and added
            L = [s for s in L if self.st(s)["rows"] and all(r[2] for r in self.st(s)["rows"]) and
                 (not st["sets"] or sorted((r[0], r[1]) for r in self.st(s)["rows"]) == sorted(map(tuple, st["keys"])))]
            free = [s for s in range(1, self.ns + 1) if not self.st(s)["live"] or (s in L and len(L) > 1)]
            if not L or not free:
                return None
            s, s2 = rng.choice(L), rng.choice(free)
            if s == s2 or s2 == m:
                return None
            self.do(op="copyns", s=s, s2=s2)
            for _ in range(rng.randint(0, 3)):
                r = self.pickrow(s2)
                e = dict(s=s2, c=r[0], hasr=True)
                if r[1]:
                    continue
                if rng.random() < 0.5:
                    self.do(op="addraw", d=gen_items(rng, self.outs, rng.randint(1, 5)), over=rng.random() < 0.7, zero=True, aux="-", **e)
                else:
                    self.do(op="assign", d=gen_items(rng, self.outs, rng.randint(1, 5)), dict=False, cnts=[], **e)
            if rng.random() < 0.4:
                k = [[r[0], r[1]] for r in self.st(s2)["rows"]]
                rng.shuffle(k)
                self.do(op="done", s=s2)
                self.do(op="trunc", s=s2, s2=s2, keys=k, miss="raise")
            self.do(op="done", s=s2)
            nm = rng.choice(["d1", "d2", "d3"])
            if any(x[0] == nm for x in st["sets"]) or any(not r[2] for r in self.st(s2)["rows"]):
                return None
            return self.do(op="madd", s=s2, s2=m, name=nm, noaux=rng.random() < 0.3), m
        if op == "maux":
            if not st["keys"]:
                return None
            k = rng.choice(st["keys"])
            return self.do(op=op, s=m, c=k[0], occ=k[1], aux=rng.choice(["", "a1", "a2", "a3"])), m
        if op == "mcopy":
            if not st["sets"]:
                return None
            s2 = self.free_slot(m)
            return self.do(op=op, s=m, s2=s2), s2
        if op == "mstore":
            if not st["sets"]:
                return None
            s2 = self.free_slot(m)
            return self.do(op=op, s=m, s2=s2, route=rng.choice(["save", "savegz", "pickle", "text"])), s2
        names = [x[0] for x in st["sets"]]
        if not names or not st["keys"]:
            return None
        return self.do(op=op, s=m, names=rng.sample(names, rng.randint(1, len(names)))), m

    def step(self, op):
        rng = self.rng
        if op == "new":
            s = rng.randint(1, self.ns)
            ols = rng.sample(self.outs, rng.randint(0, len(self.outs))) if rng.random() < 0.4 else []
            return self.do(op="new", s=s, pol=rng.choice(["agg", "agg", "over", "keep"]), ols=ols), s
        L = self.live()
        if op in ("mnew", "madd", "mmore", "maux", "mcopy", "mstore", "mtogether"):
            return self.mstep(op)
        if not L:
            return None
        nonst = self.live(static=False)
        if op in ("addc", "addraw", "assign", "setrow", "scale", "buildreps", "setcount", "setitem", "remove", "process", "addfrom", "done"):
            if rng.random() < 0.93:
                if not nonst:
                    return None
                s = rng.choice(nonst)
            else:
                s = rng.choice(L)
        else:
            s = rng.choice(L)
        st = self.st(s)
        aux = rng.choice(["-", "-", "-", "", "a1", "a2", "a3"])
        if op == "addc":
            n = rng.randint(0, min(4, len(self.outs)))
            os_ = rng.sample(self.outs, n)
            ordered = rng.random() < 0.5
            if not ordered:
                os_.sort()
            cn = [[o, rng.choice([4, 8, 0, 20, 400])] for o in os_]
            return self.do(op=op, s=s, c=rng.choice(self.cs), cnts=cn, ordered=ordered, zero=rng.random() < 0.7, aux=aux), s
        if op in ("addraw", "assign", "setrow"):
            hasr = rng.random() < (0.6 if st["reps"] else 0.35)
            c = rng.choice(self.cs)
            e = dict(op=op, s=s, c=c, hasr=hasr)
            row = [r for r in st["rows"] if r[0] == c and r[1] == 0]
            e["d"] = gen_items(rng, self.outs, rng.randint(0, 6), rng.choice(["zero", "mono", "mono"]), hasr)
            if op == "addraw":
                e.update(over=rng.random() < 0.5, zero=rng.random() < 0.75, aux=aux)
                if not e["over"] and row and row[0][2] and rng.random() < 0.85:   # mostly continue in time
                    off = max(x[1] for x in row[0][2])
                    e["d"] = [[x[0], x[1] + off, x[2]] for x in e["d"]]
            else:
                e["dict"] = rng.random() < 0.5
                os_ = rng.sample(self.outs, rng.randint(1, min(3, len(self.outs))))
                e["cnts"] = [[o, rng.choice([4, 8, 0])] for o in os_]
                if op == "setrow":
                    e["occ"] = rng.choice([0, 0, 1, 2])
                    if e["occ"] and st["pol"] == "keep" and any(r[0] == c and r[1] == e["occ"] for r in st["rows"]):
                        return None
            if sum(1 for r in st["rows"] if r[0] == c) >= MAXOCC:
                return None
            return self.do(**e), s
        if op in ("scale", "setcount", "setitem", "addaux"):
            r = self.pickrow(s)
            if r is None:
                return None
            e = dict(op=op, s=s, c=r[0], occ=r[1])
            if op == "scale":
                e["num"], e["den"] = rng.choice([(2, 1), (3, 1), (0, 1), (1, 1)] + ([(1, 2)] if not self.half else []))
                if e["den"] == 2:
                    self.half = True
                if any(isinstance(x[2], int) and x[2] * 3 > 10 ** 7 for x in r[2]):
                    return None
            elif op == "setcount":
                if not r[2]:
                    return None
                e.update(o=rng.choice(self.outs + [x[0] for x in r[2]] * 2), n=rng.choice([0, 4, 40]))
                if e["o"] not in st["ols"]:
                    return None
            elif op == "setitem":
                if not r[2]:
                    return None
                i = rng.randint(1, len(r[2]))
                e.update(i=i, o=rng.choice(self.outs), t=r[2][i - 1][1], n=rng.choice([4, 4, 8]) if st["reps"] else 4)
                if st["static"]:
                    return None
            else:
                e["aux"] = rng.choice(["", "a1", "a2", "a3"])
            return self.do(**e), s
        if op == "buildreps" or op == "done":
            return self.do(op=op, s=s), s
        if op == "remove":
            ks = [[r[0], r[1]] for r in st["rows"]]
            ks = rng.sample(ks, rng.randint(0, min(2, len(ks))))
            if rng.random() < 0.25:
                ks.append([rng.choice(self.cs), rng.choice([0, 1])])
            if ks and rng.random() < 0.15:
                ks.append(ks[0])
            return self.do(op=op, s=s, keys=ks, miss=rng.choice(["raise", "warn", "ignore"])), s
        if op == "rename":
            olds = [o for o in st["ols"]]
            if not olds:
                return None
            k = rng.sample(olds, rng.randint(1, len(olds)))
            rest = [o for o in olds if o not in k]
            tgt = [o for o in range(len(OUT)) if o not in rest]
            new = rng.sample(tgt, len(k))
            return self.do(op=op, s=s, m=[[a, b] for a, b in zip(k, new)]), s
        if op == "process":
            m = []
            for r in st["rows"]:
                m.append([r[0], r[1], rng.choice(self.cs + [""] + ([r[0]] * 3))])
            agg = rng.random() < 0.5
            return self.do(op=op, s=s, m=m, agg=agg), s
        if op == "addfrom":
            o = [x for x in L if x != s]
            if not o:
                return None
            s2 = rng.choice(o)
            if st["pol"] == "keep" and any(r[1] > 0 for r in self.st(s2)["rows"]):
                return None
            if sum(len(r[2]) for r in st["rows"]) > 60:
                return None
            return self.do(op=op, s=s, s2=s2), s
        # derivations
        s2 = self.free_slot(s)
        if self.st(s2).get("multi") and rng.random() < 0.7:
            return None
        if op in ("copy", "copyns"):
            return self.do(op=op, s=s, s2=s2), s2
        if op == "trunc":
            ks = [[r[0], r[1]] for r in st["rows"]]
            ks = rng.sample(ks, rng.randint(0, len(ks)))
            if rng.random() < 0.25:
                ks.append([rng.choice(self.cs), 0])
            if ks and rng.random() < 0.2:
                ks.append(ks[0])
            return self.do(op=op, s=s, s2=s2, keys=ks, miss=rng.choice(["raise", "warn", "ignore"])), s2
        if op == "slice":
            a = rng.choice([0, 0, 1, 2])
            return self.do(op=op, s=s, s2=s2, a=a, b=a + rng.choice([0, 1, 2, 4, 20]), agg=rng.choice([-1, -1, 0, 3])), s2
        if op in ("merge", "mergefn"):
            ols = list(st["ols"]) + [o for o in self.outs if o not in st["ols"] and rng.random() < 0.3]
            if op == "mergefn" and not ols:
                return None
            rng.shuffle(ols)
            if rng.random() < 0.1 and ols:
                ols = ols[1:]
            k = rng.randint(1, max(1, len(ols)))
            news = rng.sample(range(len(OUT)), k)
            m = [[n, []] for n in news]
            for o in ols:
                rng.choice(m)[1].append(o)
            if op == "merge" and not all(any(o in b for _, b in m) for o in st["ols"]):
                pass
            if op == "mergefn":
                for r in st["rows"]:
                    if any(r[2][i][1] > r[2][i + 1][1] for i in range(len(r[2]) - 1)):
                        return None
            return self.do(op=op, s=s, s2=s2, m=m, zero=rng.random() < 0.5), s2
        if op == "filter":
            import dsfilter
            e = dsfilter.pick(rng, st)
            return e and (self.do(op=op, s=s, s2=s2, **e), s2)
        if op == "trim":
            if not st["rows"] or st["pol"] == "keep" or any(not r[2] for r in st["rows"]):
                return None
            for r in st["rows"]:
                prev = None
                seen = set()
                for x in r[2]:
                    if prev is not None and x[1] < prev:
                        return None
                    if prev == x[1] and x[0] in seen:      # series merges equal records
                        return None
                    if prev != x[1]:
                        seen = set()
                    seen.add(x[0])
                    prev = x[1]
            if not st["reps"]:
                return None
            return self.do(op=op, s=s, s2=s2), s2
        if op == "store":
            routes = ["save", "savegz", "pickle", "deepcopy", "ctor", "json", "msgpack"]
            tagged_ = any(r[1] > 0 for r in st["rows"])
            whole = all(isinstance(x[2], int) and x[2] % 4 == 0 for r in st["rows"] for x in r[2])
            if (not tagged_ or st["pol"] == "keep") and st["ols"]:
                routes += ["text", "text"]
                routes += ["textx"]
                if whole:
                    routes += ["td", "td"]
            return self.do(op=op, s=s, s2=s2, route=rng.choice(routes)), s2
        if op == "free":
            return self.do(op=op, s=s), s
        raise ValueError(op)

    def history(self, n, pread=0.6):
        self.step("new")
        k = 0
        while len(self.ev) < n and k < 5 * n:
            k += 1
            r = self.step(self.rng.choice(self.mix))
            if r is None:
                continue
            ev, s = r
            if self.rng.random() < pread:
                self.read(s)
        for s in range(1, self.ns + 1):
            self.read(s)
        return self.ev


    def derived_history(self, n, chain):
        """fill, freeze, derive (and derive again), thaw, then add outcomes that were not there before"""
        rng = self.rng
        self.outs = rng.sample(range(8), rng.randint(2, 4))
        self.do(op="new", s=1, pol=rng.choice(["agg", "agg", "over", "keep"]), ols=rng.sample(self.outs, rng.randint(0, len(self.outs))))
        for _ in range(rng.randint(1, 4)):
            self.step(rng.choice(ADD + ["addaux"]))
        k = 0
        while len(self.ev) < n and k < 4 * n:
            k += 1
            if rng.random() < 0.6:
                L = self.live(static=False)
                if L:
                    self.do(op="done", s=rng.choice(L))
            for _ in range(rng.randint(1, 2)):
                self.step(rng.choice(chain))
            L = self.live(static=True)
            if L and rng.random() < 0.8:
                s = rng.choice(L)
                self.do(op="copyns", s=s, s2=self.free_slot(s))
                if rng.random() < 0.3:
                    self.step(rng.choice(chain))
            self.outs = rng.sample(range(8), rng.randint(2, 6))
            for _ in range(rng.randint(1, 3)):
                r = self.step(rng.choice(ADD + ["addfrom", "setitem", "rename"]))
                if r and rng.random() < 0.5:
                    self.read(r[1])
        for s in range(1, self.ns + 1):
            self.read(s)
        return self.ev

    def gap_history(self, n):
        """circuits with different outcomes; keep some of them, store and load; then add outcomes that were not there before"""
        rng = self.rng
        self.do(op="new", s=1, pol=rng.choice(["agg", "over", "keep"]), ols=[])
        left = list(range(8))
        rng.shuffle(left)
        for c in rng.sample(self.cs, rng.randint(2, len(self.cs))):
            os_ = left[:2] if len(left) > 5 and rng.random() < 0.5 else left[:1]
            left = left[len(os_):] or left
            self.do(op="addc", s=1, c=c, cnts=[[o, rng.choice([4, 8, 20])] for o in os_], ordered=True, zero=False, aux="-")
        self.do(op="done", s=1)
        ks = [[r[0], r[1]] for r in self.st(1)["rows"]]
        how = rng.choice(["trunc", "trunc", "slice", "merge"])
        if how == "trunc":
            self.do(op="trunc", s=1, s2=2, keys=rng.sample(ks, rng.randint(1, max(1, len(ks) - 1))), miss="raise")
        else:
            self.step(how)
            if not self.st(2)["live"]:
                self.do(op="trunc", s=1, s2=2, keys=ks[-1:], miss="raise")
        s = 2
        if self.st(2)["static"] and rng.random() < 0.6:
            self.do(op="copyns", s=2, s2=3)
            s = 3
        if rng.random() < 0.4:
            k = [[r[0], r[1]] for r in self.st(s)["rows"]]
            if k and not self.st(s)["static"]:
                self.do(op="remove", s=s, keys=k[:1], miss="raise")
        t = 1
        self.do(op="store", s=s, s2=t, route=rng.choice(["save", "savegz", "pickle", "deepcopy"]))
        if self.st(t)["static"]:
            self.do(op="copyns", s=t, s2=s)
            t = s
        for _ in range(rng.randint(1, 3)):
            self.do(op="addc", s=t, c=rng.choice(self.cs), cnts=[[o, rng.choice([4, 8])] for o in rng.sample(range(8), rng.randint(1, 4))],
                    ordered=True, zero=rng.random() < 0.5, aux="-")
            self.read(t)
        return self.ev

    def multi_history(self, n):
        """fill, freeze, put in a multi-data-set, and go on from there"""
        rng = self.rng
        self.do(op="new", s=1, pol=rng.choice(["agg", "over", "keep"]), ols=[])
        zero = rng.random() < 0.2
        for c in rng.sample(self.cs, rng.randint(1, len(self.cs))):
            self.do(op="addraw", s=1, c=c, d=gen_items(rng, self.outs, rng.randint(1, 5), hasr=not zero), hasr=not zero, over=True, zero=True,
                    aux=rng.choice(["-", "a1", "a2"]))
        self.do(op="done", s=1)
        self.do(op="mnew", s=4)
        self.do(op="madd", s=1, s2=4, name="d1", noaux=rng.random() < 0.2)
        k = 0
        while len(self.ev) < n and k < 5 * n:
            k += 1
            r = self.step(rng.choice(["mmore"] * 4 + ["maux", "mcopy", "mtogether", "mtogether", "mstore", "mstore", "addaux", "trunc", "rename"]))
            if r and rng.random() < 0.3:
                self.read(r[1])
        return self.ev


def run_histories(chk, n, mix, slots, length, name, pread=0.6, rng=None, outs=None, multi=False, chain=None, gaps=False):
    traces = []
    rng = rng or chk.rng
    tmp = tempfile.mkdtemp(prefix="ds_", dir=vf.scratch())
    for i in range(n):
        r = random.Random(rng.getrandbits(48))
        low = r.random() < 0.1
        old = dsmod.DATAROW_AUTOCACHECOUNT_THRESHOLD
        if low:
            dsmod.DATAROW_AUTOCACHECOUNT_THRESHOLD = 1
        try:
            with vf.time_limit(60):
                d = Driver(r, slots, tmp, mix, outs=outs)
                ev = d.gap_history(length) if gaps else d.multi_history(length) if multi else d.derived_history(length, chain) if chain else d.history(r.randint(length // 2, length), pread)
        finally:
            dsmod.DATAROW_AUTOCACHECOUNT_THRESHOLD = old
        traces.append(dict(id="%s-%d" % (name, i), slots=slots, ev=ev))
    shutil.rmtree(tmp, ignore_errors=True)
    return traces


def run_scripts(chk, scripts, slots, name):
    """Replays operation sequences enumerated by TLC, reading every data set after each of them."""
    traces = []
    tmp = tempfile.mkdtemp(prefix="ds_", dir=vf.scratch())
    for i, sc in enumerate(scripts):
        r = random.Random(chk.seed * 7919 + i)
        w = World(slots, r, tmp)
        ev = []
        with vf.time_limit(60):
            for e in sc:
                x = w.run(e)
                ev.append(x)
            for s in range(1, slots + 1):
                if w.last[s]["live"]:
                    ev.append(w.run(dict(op="read", s=s)))
        traces.append(dict(id="%s-%d" % (name, i), slots=slots, ev=ev))
    shutil.rmtree(tmp, ignore_errors=True)
    return traces


def corrupt(t):
    for e in t["ev"]:
        for o in e.get("obs", []):
            for r in o["rows"]:
                if r[2]:
                    r[2][0][2] += 4
                    return t
    raise vf.MachineryError("nothing to corrupt")


def corruptible(traces):
    for t in traces:
        if any(r[2] for e in t["ev"] for o in e.get("obs", []) for r in o["rows"]):
            return t
