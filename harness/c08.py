"""C08: every simulation route gives the exact outcome probabilities."""
import random, warnings
import numpy as np
import vf
import exactworld as X
from pygsti.objects import Circuit


def routes(H, h, given=None):
    w, rng, m = H.w, H.rng, H.ms[h - 1]
    S = w.sp * w.se
    proj = lambda d: [dict(w.out(o), p=X.toint(p * S)) for o, p in d.items()]
    clip = [] if rng.random() < 0.75 else [rng.randint(-3, 1), rng.randint(1, 4)]
    ct = (clip[0] / S, clip[1] / S) if clip else None
    c = rng.random() if given is None else 0.5
    if c < 0.25:
        ci, a = w.circuit()
        return dict(op="probs", h=h, cs=[a], clip=clip, route="probs"), lambda: dict(res=[proj(m.probs(ci, clipTo=ct))])
    cs = []
    for x in given or [None] * rng.choice([1, 2, 4, 6]):
        cs.append(w.circuit(items=x))
        if rng.random() < 0.3:
            cs.append(rng.choice(cs))
    if c < 0.85:
        def f():
            kw = rng.choice(["bulk", "bulk", "mem", "fill", "fill", "split"])
            if kw == "bulk":
                r = m.bulk_probs([x for x, _ in cs], clipTo=ct, check=rng.random() < 0.3)
                return dict(route=kw, res=[proj(r[x]) for x, _ in cs])
            if kw == "mem":
                r = m.bulk_probs([x for x, _ in cs], clipTo=ct, memLimit=rng.choice([1e7, 1e8, 1e9]))
                return dict(route=kw, res=[proj(r[x]) for x, _ in cs])
            args = {}
            if kw == "split":
                if rng.random() < 0.5:
                    args["maxTreeSize"] = rng.choice([1, 2, 3, 5])
                else:
                    args["minSubtrees"] = rng.randint(1, max(1, len(set(x for x, _ in cs))))
            try:
                t, look, outs = m.bulk_evaltree([x for x, _ in cs], **args)
            except Exception:  # a division nobody can meet
                if not args:
                    raise
                t, look, outs = m.bulk_evaltree([x for x, _ in cs])
            if rng.random() < 0.3:
                H.setvec(h)  # the plan outlives a change of the parameters
            mx = np.empty(t.num_final_elements(), "d")
            mx[:] = np.nan
            m.bulk_fill_probs(mx, t, clipTo=ct, check=rng.random() < 0.2)
            res = []
            for i, (x, _) in enumerate(cs):
                v = mx[look[i]]
                if len(v) != len(outs[i]):
                    raise ValueError("%d elements for %d outcomes" % (len(v), len(outs[i])))
                res.append([dict(w.out(o), p=X.toint(p * S)) for o, p in zip(outs[i], v)])
            return dict(route=kw, res=res)
        return dict(op="probs", h=h, cs=[a for _, a in cs], clip=clip), f
    # products of operations only
    if m.simtype != "matrix":
        return None
    cs = [(x, a) for x, a in (w.circuit(3, inst=False) for _ in range(3)) if not a["keep"]]
    if not cs:
        return None
    bare = [m.split_circuit(x)[1] for x, _ in cs]

    def g():
        if rng.random() < 0.5:
            if rng.random() < 0.5:
                return dict(route="product", res=[X.ints(m.product(x)) for x in bare])
            r = [m.product(x, bScale=True) for x in bare]
            return dict(route="scaled", res=[X.ints(a * b) for a, b in r])
        t, look, _ = m.bulk_evaltree([x for x, _ in cs])
        r = m.bulk_product(t)
        if rng.random() < 0.4:
            gs, sc = m.bulk_product(t, bScale=True)
            r = gs * sc[:, None, None]
        k = [int(z) for z in t.permute_computation_to_original(np.arange(t.num_final_strings()))]
        r = t.permute_computation_to_original(r)
        if len(r) != len(set(x for x, _ in simp)):
            pass
        return dict(route="bulk_product", res=[X.ints(r[z]) for z in index(m, t, bare)])

    def index(m, t, bare):
        gen = t.generate_circuit_list()
        keys = [tuple(str(l) for l in (x[1:] if len(x) and str(x[0]) in w.preps else x)) for x in gen]
        return [keys.index(tuple(str(l) for l in b)) for b in bare]
    simp = cs
    return dict(op="product", h=h, cs=[a for _, a in cs], N=w.N), g


def history(tid, rng, steps):
    n = rng.choice([1, 1, 1, 2, 2])
    w = X.World(rng, n, rng.choice(["matrix", "map"]), ["full", "tp", "lin", "static"], rng.random() < 0.5, nops=rng.choice([2, 3, 4]))
    H = X.Hist(rng, w)
    for _ in range(steps):
        h = rng.randint(1, len(H.ms))
        c = rng.random()
        if c < 0.12:
            H.setvec(h)
        elif c < 0.2:
            H.setmember(h)
        elif c < 0.25 and len(H.ms) < 3:
            H.copy(h)
        elif c < 0.33:
            m = H.ms[h - 1]
            H.add(dict(op="look", h=h), lambda: (m.set_simtype("map", **({"max_cache_size": rng.choice([0, 1, 5])} if rng.random() < 0.4 else {}))
                                                 if m.simtype == "matrix" else m.set_simtype("matrix")) or dict(obs=H.looks()))
        else:
            r = routes(H, h)
            if r is not None:
                H.add(*r)
    return H.trace(tid)


def corrupt(t):
    for e in t["ev"]:
        if e["op"] == "probs" and not e["clip"]:
            for r in e["res"]:
                if r:
                    r[0]["p"] += 1
                    return t
    return None


def script(tid, items, rng):
    """circuits enumerated by TLC, on a random model, in one list"""
    n = rng.choice([1, 1, 2])
    w = X.World(rng, n, rng.choice(["matrix", "map"]), ["full", "tp", "static"], rng.random() < 0.5, nops=3)
    H = X.Hist(rng, w)
    for _ in range(2):
        H.add(*routes(H, 1, items))
    return H.trace(tid)


def main(chk):
    for k in ("1",) + (() if chk.quick else ("2", "1t", "2t")):
        chk.mc("ExactModelMC", "ExactModelMC%s.cfg" % k)
    sc = chk.scripts("ExactModelMC", "ExactModelGen.cfg")
    pick = chk.rng.sample(sc, chk.n(200, len(sc)))
    tr = [script("s%d" % i, pick[i:i + 8], random.Random(chk.rng.random())) for i in range(0, len(pick), 8)]
    chk.validate("ExactModelTrace", tr, label="enumerated circuits")
    tr = [history("h%d" % i, random.Random(chk.rng.random()), 9) for i in range(chk.n(60, 1200))]
    chk.validate("ExactModelTrace", tr, label="random models")
    good = next(t for t in tr if corrupt(__import__("copy").deepcopy(t)))
    chk.selftest("ExactModelTrace", good, corrupt)
