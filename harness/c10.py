"""C10: evaluation plans compute every requested circuit exactly once and in order."""
import random, warnings
import numpy as np
import vf
from pygsti import objects as obj
from pygsti.objects import Circuit, Label, DataSet
from pygsti.objects.matrixevaltree import MatrixEvalTree
from pygsti.objects.mapevaltree import MapEvalTree
from pygsti.objects.termevaltree import TermEvalTree
from pygsti.tools import slicetools as _slct
import mpijobs

_models = {}


def model(k):
    """several preparations, POVMs and instruments; two lines"""
    if k not in _models:
        rng = random.Random(5 + k)
        im = mpijobs.imat
        m = obj.ExplicitOpModel(["Q0"], "pp", sim_type="matrix")
        for p in ["rho0", "rho1", "rho2"][:1 + k]:
            m.preps[p] = obj.StaticSPAMVec(im(rng, 4, 1))
        for p, n in [("Mdefault", 2), ("M2", 3)][:1 + min(k, 1)]:
            m.povms[p] = obj.UnconstrainedPOVM([(str(o), obj.StaticSPAMVec(im(rng, 4, 1), typ="effect")) for o in range(n)])
        for g in ("Gi", "Gx", "Gy", "Gz"):
            m.operations[g] = obj.StaticDenseOp(im(rng, 4, 4))
        m.operations[("Gu", "Q0")] = obj.StaticDenseOp(im(rng, 4, 4))
        m.instruments["Iz"] = obj.Instrument([(o, obj.StaticDenseOp(im(rng, 4, 4))) for o in ("p", "q")])
        m.instruments["Iw"] = obj.Instrument([(o, obj.StaticDenseOp(im(rng, 4, 4))) for o in ("p", "q", "r")])
        _models[k] = m
    return _models[k]


def S(l):
    return str(l)


class H(object):
    def __init__(self, rng):
        self.rng = rng
        self.ev = []
        self.last = {}
        self.keep = []

    def circuits(self, m, n, inst):
        rng = self.rng
        ops = list("GiGxGyGz"[i:i + 2] for i in (0, 2, 4, 6))[:rng.choice([1, 2, 2, 3, 4])] + ([("Gu", "Q0")] if rng.random() < 0.3 else [])
        cs = []
        for i in range(n):
            c = rng.random()
            if cs and c < 0.45:
                b = rng.choice(cs)
                t = list(b) + [rng.choice(ops) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                if rng.random() < 0.3:
                    t = t[:rng.randint(0, len(t))]
                if rng.random() < 0.2:
                    t = t + t
            elif c < 0.55:
                t = [rng.choice(ops)] * rng.choice([2, 4, 8])
            else:
                t = [rng.choice(ops) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6]))]
            if inst and rng.random() < 0.3:
                t.insert(rng.randint(0, len(t)), rng.choice(["Iz", "Iw"]))
            if sum(x in ("Iz", "Iw") for x in t) > 2:
                continue
            cs.append(t)
        out, qs = [], []
        if len(m.preps) == 1 and cs and rng.random() < 0.4:  # the same circuit with and without explicit SPAM
            cs = cs + [list(rng.choice(cs)) for _ in range(rng.choice([1, 1, 2]))]
            rng.shuffle(cs)
        for t in cs:
            prep = rng.choice(list(m.preps.keys()))
            povm = rng.choice(list(m.povms.keys()))
            full = list(t)
            spam = rng.random() < 0.2
            if len(m.preps) > 1 or spam or rng.random() < 0.15:
                full = [prep] + full
            if len(m.povms) > 1 or spam or rng.random() < 0.15:
                full = full + [povm]
            out.append(Circuit(full, line_labels=("Q0",)) if any(isinstance(x, tuple) for x in full) else Circuit(full))
            items = []
            for x in t:
                if x in ("Iz", "Iw"):
                    items.append([dict(o=[k], c=S(Label(x + "_" + k))) for k in m.instruments[x].keys()])
                else:
                    items.append([dict(o=[], c=S(Label(x)))])
            qs.append(dict(prep=S(Label(prep)), items=items, effs=[dict(o=k, e=S(povm + "_" + k)) for k in m.povms[povm].keys()], all=True, obs=[]))
        return out, qs

    # -- projection
    def plan(self, t, sub):
        k = {MatrixEvalTree: "matrix", MapEvalTree: "map", TermEvalTree: "term"}[type(t)]
        n = t.num_final_strings()
        d = dict(kind=k, nfinal=int(n), nels=int(t.num_final_elements()), order=[i + 1 for i in t.get_evaluation_order()], cachesize=int(t.cache_size()))
        ix = lambda s: [int(i) + 1 for i in (_slct.indices(s, 10 ** 6) if isinstance(s, slice) else s)]
        d["nper"] = [int(x) for x in t.simplified_circuit_nEls]
        ne = sum(len(x) for x in (t.simplified_circuit_spamTuples if k == "matrix" else t.simplified_circuit_elabels))
        d["fels"] = ix(t.myFinalElsToParentFinalElsMap) if sub else list(range(1, ne + 1))
        if k == "matrix":
            d["nodes"] = [[0 if a is None else a + 1, 0 if b is None else b + 1] for a, b in t]
            d["init"] = [[i + 1, S(l)] for i, l in zip(t.get_init_indices(), t.get_init_labels())]
            d["els"] = [[[S(p), S(e)] for p, e in st] for st in t.simplified_circuit_spamTuples]
            full = lambda s, n: ix(slice(0, n)) if isinstance(s, slice) and s == slice(None, None) else ix(s)
            d["sti"] = [dict(prep=S(p), eff=S(e), f=full(f, ne), g=full(g, n)) for (p, e), (f, g) in t.spamtuple_indices.items()]
        elif k == "term":
            d["nodes"] = [[0, [S(x) for x in c], 0] for c in t]
            d["els"] = [[S(e) for e in es] for es in t.simplified_circuit_elabels]
            d["ops"] = [S(x) for x in t.opLabels]
            d["rho"] = sorted(set(S(c[0]) for c in t))
        else:
            d["nodes"] = [[0 if a is None else a + 1, [S(x) for x in r], 0 if c is None else c + 1] for a, r, c in t]
            d["els"] = [[S(e) for e in es] for es in t.simplified_circuit_elabels]
            d["elabels"] = [S(e) for e in t.elabels]
            d["eix"] = [[i + 1 for i in t.eLbl_indices_per_circuit.get(f, [])] for f in range(n)]
            d["fix"] = [[int(i) + 1 for i in t.final_indices_per_circuit.get(f, [])] for f in range(n)]
            d["ops"] = [S(x) for x in t.opLabels]
            d["rho"] = [S(x) for x in t.rholabels]
        if sub:
            s = t.myFinalToParentFinalMap
            d["start"], d["stop"] = int(s.start), int(s.stop)
        return d

    def obs(self, t, look, outs):
        n = t.num_final_strings()
        subs = t.get_sub_trees() if t.is_split() else []
        ids = lambda s: [int(i) + 1 for i in (range(s.start or 0, s.stop, s.step or 1) if isinstance(s, slice) else s)]
        lk = t.original_index_lookup
        strs = lambda l: [[S(x) for x in c] for c in l]
        return dict(raised=False, plan=self.plan(t, False), subs=[self.plan(s, True) for s in subs],
                    look=[ids(look[i]) for i in range(len(look))], outs=[[list(o) for o in outs[i]] for i in range(len(outs))],
                    gen=strs(t.generate_circuit_list(permute=False)), orig=strs(t.generate_circuit_list()),
                    perm=[(i if lk is None else lk[i]) + 1 for i in range(n)],
                    back=[int(i) + 1 for i in t.permute_computation_to_original(np.arange(n))],
                    fwd=[int(i) + 1 for i in t.permute_original_to_computation(np.arange(n))])

    def step(self, op, f, src=None, **e):
        """f() -> (tree, look, outs) or None if the request cannot be met"""
        try:
            r = f()
        except ValueError as x:
            if "too low" in str(x):
                return None
            self.ev.append(dict(op=op, raised=True, msg="%s: %s" % (type(x).__name__, str(x)[:150]), **e))
            raise
        except Exception as x:
            self.ev.append(dict(op=op, raised=True, msg="%s: %s" % (type(x).__name__, str(x)[:150]), **e))
            raise
        d = self.obs(*r)
        d.update(op=op, prev=self.last.get(id(r[0]) if src is None else id(src), 0), **e)
        self.ev.append(d)
        self.last[id(r[0])] = len(self.ev)
        self.keep.append(r[0])
        return r

    def history(self, i):
        rng = self.rng
        m = model(rng.choice([0, 0, 1, 2, 2]))
        kind = rng.choice(["matrix", "matrix", "map", "map", "map", "map", "term"])
        inst = rng.random() < 0.35
        cs, qs = self.circuits(m, rng.choice([1, 2, 3, 4, 5, 6, 8, 10]), inst)
        ds = None
        if rng.random() < 0.35:
            ds = DataSet()
            for c, q in zip(cs, qs):
                outs = [()]
                for it in q["items"]:
                    outs = [o + tuple(a["o"]) for o in outs for a in it]
                outs = [o + (x["o"],) for o in outs for x in q["effs"]]
                seen = rng.sample(outs, rng.randint(1, len(outs)))
                if c in ds:
                    continue
                ds.add_count_dict(c, {o: rng.randint(1, 9) for o in seen})
            ds.done_adding_data()
            for c, q in zip(cs, qs):
                q["all"], q["obs"] = False, [list(o) for o in ds[c].outcomes]
        try:
            self.run(m, kind, cs, qs, ds)
        except Exception:
            pass
        return dict(id="plan-%d" % i, kind=kind, qs=qs, circuits=[c.str for c in cs], finals=getattr(self, "finals", []), ev=self.ev)

    def run(self, m, kind, cs, qs, ds):
        rng = self.rng
        m.set_simtype("matrix" if kind == "matrix" else "map")
        cache = rng.choice([None, None, None, 0, 1, 2, 3])
        if kind != "term" and rng.random() < 0.3:
            # everything in one call
            mx, mn = rng.choice([(None, 2), (None, 3), (None, 5), (4, None), (6, None), (8, 2), (8, 3), (6, 4), (12, 5)])
            r = {}
            raw = m.simplify_circuits(cs, ds)
            self.finals = [[S(x) for x in (tuple(c)[1:] if kind == "matrix" else tuple(c))] for c in raw[0]]
            self.step("split", lambda: m.bulk_evaltree(cs, minSubtrees=mn, maxTreeSize=mx, dataset=ds), want=0 if mx else mn or 0)
            return
        raw, look, outs, nel = m.simplify_circuits(cs, ds)
        self.finals = [[S(x) for x in (tuple(c)[1:] if kind == "matrix" else tuple(c))] for c in raw]

        def build():
            if kind == "matrix":
                t = MatrixEvalTree()
                t.initialize(raw)
            elif kind == "term":
                t = TermEvalTree()
                t.initialize(raw)
            else:
                t = MapEvalTree()
                t.initialize(raw, 1, cache)
            return t, look, outs
        r = self.step("build", build)
        if kind == "map" and rng.random() < 0.4:
            k = rng.choice([0, 0, 1, 2])

            def f():
                r[0].squeeze(k)
                return r
            self.step("squeeze", f, size=k)
        if rng.random() < 0.4:
            c = self.step("copy", lambda: (r[0].copy(), r[1], r[2]), src=r[0])
            self.split(c)
            self.step("after", lambda: r)
        r2 = self.split(r)
        if r2 is None:
            return
        r = r2
        if rng.random() < 0.3:
            c = self.step("copy", lambda: (r[0].copy(), r[1], r[2]), src=r[0])
            if kind == "map" and c[0].is_split():
                for s in c[0].get_sub_trees():
                    s.squeeze(0)
                self.step("squeeze", lambda: c, size=10 ** 6)
                self.step("after", lambda: r)
        if kind == "map" and r[0].is_split() and rng.random() < 0.5:
            k = rng.choice([0, 1, 2])

            def g():
                for s in r[0].get_sub_trees():
                    s.squeeze(k)
                return r
            self.step("squeeze", g, size=10 ** 6)

    def split(self, r):
        rng = self.rng
        t, look, outs = r
        if rng.random() < 0.6:
            k = rng.choice([1, 2, 2, 3, 4, 6])
            return self.step("split", lambda: (t, t.split(look, None, k), outs), want=k)
        k = rng.choice([2, 3, 4, 5, 6, 8, 10, 12])
        return self.step("split", lambda: (t, t.split(look, k, None), outs), want=0)


def main(chk):
    warnings.simplefilter("ignore")
    chk.mc("EvalPlanMC")
    if not chk.quick:
        chk.mc("EvalPlanMC", "EvalPlanMC2.cfg", timeout=1500)
    rng = chk.rng
    for k in range(chk.n(1, 8)):
        with vf.time_limit(400):
            tr = [H(rng).history(i) for i in range(chk.n(1500, 4000))]
        chk.validate("EvalPlanTrace", tr, label="plans %d" % k)

    def corrupt(t):
        t["ev"][-1]["look"][0][0], t["ev"][-1]["look"][-1][-1] = t["ev"][-1]["look"][-1][-1], t["ev"][-1]["look"][0][0]
        return t
    good = [t for t in tr if t["ev"] and not t["ev"][-1]["raised"] and len(t["qs"]) > 1 and t["ev"][-1]["look"][0] and t["ev"][-1]["look"][-1]
            and t["ev"][-1]["look"][0][0] != t["ev"][-1]["look"][-1][-1]]
    chk.selftest("EvalPlanTrace", good[0], corrupt)
