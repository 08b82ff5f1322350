"""C09: reported derivatives are the derivatives of the probabilities."""
import random, warnings
import numpy as np
import vf
import exactworld as X


def routes(H, h, given=None):
    w, rng, m = H.w, H.rng, H.ms[h - 1]
    S = w.sp * w.se
    sim = m.simtype
    sc = np.array(w.scale)
    P = lambda x: X.toint(x * S)
    clip = [] if rng.random() < 0.6 else [rng.randint(-2, 1), rng.randint(1, 3)]
    ct = (clip[0] / S, clip[1] / S) if clip else None
    allp = list(range(1, w.np + 1))
    seen = [0.0, 0.0]  # largest first and second derivatives

    def der(d, ps=None):
        a = np.asarray(d).ravel() * S / sc[[p - 1 for p in (ps or allp)]]
        if a.size:
            seen[0] = max(seen[0], np.abs(a).max())
        return a.tolist()
    hes2 = lambda a, pa, pb: np.asarray(a) * S / (sc[[p - 1 for p in pa]][:, None] * sc[[p - 1 for p in pb]][None, :])

    def pairs(pa, pb, mx=None):
        k = min(10, len(pa) * len(pb))
        r = [[rng.randint(1, len(pa)), rng.randint(1, len(pb))] for _ in range(k)]
        if mx is not None:  # look at some of the elements reported as non-zero too
            nz = np.argwhere(np.abs(mx).max(axis=0) > 1e-3).tolist()
            r += [[x + 1, y + 1] for x, y in rng.sample(nz, min(len(nz), 10))]
        return r

    def at(a, pa, pb, prs):
        a = hes2(np.asarray(a).reshape(len(pa), len(pb)), pa, pb)
        if a.size:
            seen[1] = max(seen[1], np.abs(a).max())
        return [float(a[x - 1, y - 1]) for x, y in prs]

    def exact(f):
        """finite differences of map simulations are exact up to multiples of the next derivative"""
        def g():
            r = f()
            if max(seen) > 3e8:  # beyond TLC's integers
                e.clear()
                e.update(op="look", h=h)
                return dict(obs=[])
            c1, c2 = seen[0], max(seen)
            r["told"], t1 = (0, 1e-6) if sim == "matrix" else (0, 0.02) if c1 <= 2000 else (1 + int(c1 * 1e-4), 0.5)
            r["tolh"], t2 = (0, 1e-6) if sim == "matrix" else (0, 0.2) if c2 <= 40 else (1 + int(c2 / 50), 0.5)
            for x in r["res"]:
                for o in x:
                    for k in ("d", "g", "h", "d12"):
                        if k in o:
                            o[k] = X.ints(o[k], t2 if k == "h" else t1)
            return r
        return g

    def at12(a, pa, pb, prs):
        a = hes2(np.asarray(a).reshape(len(pa), len(pb)), pa, pb)
        if a.size:
            seen[0] = max(seen[0], np.abs(a).max())
        return [float(a[x - 1, y - 1]) for x, y in prs]

    def used():
        """parameters of the operations and effects the circuits consist of"""
        names = {x for _, a in cs for i in a["items"] if i["k"] != "inst" for x in i["l"]}
        objs = [m.operations[w.labels[x]] for x in sorted(names)] + [m.preps[a["prep"]] for _, a in cs] + [m.povms[a["povm"]] for _, a in cs]
        return sorted({int(i) for o in objs for i in o.gpindices_as_array()}) or list(range(w.np))

    def start():
        return rng.choice(used()) if rng.random() < 0.75 else rng.randint(0, w.np - 1)

    def rng_filter(n=None):
        a = start()
        return list(range(a, min(w.np, a + (n or rng.choice([1, 2, 5, 17, w.np])))))
    kind = rng.choice(["dprobs"] * 4 + ["hprobs"] * 5 + (["dproduct", "hproduct"] if sim == "matrix" else []))
    cs = []
    for x in given or [None] * rng.choice([1, 1, 2, 3, 5]):
        cs.append(w.circuit(items=x, maxlen=3))
        if rng.random() < 0.25:
            cs.append(rng.choice(cs))
    if w.np == 0:
        return None
    e = dict(op=kind, h=h, cs=[a for _, a in cs], clip=clip)

    def tree():
        args = {}
        c = rng.random()
        if c < 0.25:
            args["maxTreeSize"] = rng.choice([1, 2, 3, 5])
        elif c < 0.45:
            args["minSubtrees"] = rng.randint(1, max(1, len(set(x for x, _ in cs))))
        try:
            return m.bulk_evaltree([x for x, _ in cs], **args)
        except Exception:
            return m.bulk_evaltree([x for x, _ in cs])

    if kind == "dprobs":
        pr = rng.random() < 0.5
        e.update(pr=pr, ps=allp)

        def f():
            route = rng.choice(["one", "bulk", "fill", "fill", "fwd"])
            if route == "one":
                res = []
                for x, _ in cs:
                    d = m.dprobs(x, returnPr=pr, clipTo=ct)
                    res.append([dict(w.out(o), d=der(v[0] if pr else v), **({"p": P(np.asarray(v[1]).ravel()[0])} if pr else {})) for o, v in d.items()])
                return dict(route=route, res=res)
            if route == "bulk":
                d = m.bulk_dprobs([x for x, _ in cs], returnPr=pr, clipTo=ct, check=rng.random() < 0.15,
                                  wrtBlockSize=rng.choice([None, None, 1, 3, 7.5]))
                return dict(route=route, res=[[dict(w.out(o), d=der(v[0] if pr else v), **({"p": P(v[1])} if pr else {})) for o, v in d[x].items()]
                                              for x, _ in cs])
            t, look, outs = tree()
            n = t.num_final_elements()
            wf = wb = None
            c = rng.random()
            if c < 0.5:
                wf = rng_filter()
            elif c < 0.8:
                wb = rng.choice([1, 2, 5, 7.5, 100])
            ps = [p + 1 for p in wf] if wf is not None else allp
            if rng.random() < 0.25:
                H.setvec(h)  # the plan outlives a change of the parameters
            if route == "fwd":
                d = m._fwdsim().bulk_dprobs([x for x, _ in cs], t, look, outs, pr, ct, False, None, wf, wb)
                return dict(route=route, wf=wf or [], ps=ps,
                            res=[[dict(w.out(o), d=der(v[0] if pr else v, ps), **({"p": P(v[1])} if pr else {})) for o, v in d[x].items()] for x, _ in cs])
            mx = np.full((n, len(ps)), np.nan)
            pm = np.full(n, np.nan) if pr else None
            if wf is not None:
                m._fwdsim().bulk_fill_dprobs(mx, t, pm, ct, False, None, wf, wb)
            else:
                m.bulk_fill_dprobs(mx, t, pm, ct, rng.random() < 0.15, None, wb)
            res = []
            for i, (x, _) in enumerate(cs):
                ix = np.arange(n)[look[i]]
                if len(ix) != len(outs[i]):
                    raise ValueError("%d elements for %d outcomes" % (len(ix), len(outs[i])))
                res.append([dict(w.out(o), d=der(mx[k], ps), **({"p": P(pm[k])} if pr else {})) for o, k in zip(outs[i], ix)])
            return dict(route=route, wf=wf or [], ps=ps, res=res)
        return e, exact(f)
    if kind == "hprobs":
        if sim == "map" and w.np > 12:
            e["cs"], cs[:] = e["cs"][:1], cs[:1]
        if sim == "map" and w.np > 40:
            return None
        e.update(pr=False, der=False, der2=False, ps2=[], d12=False, hes=True, pa=allp, pb=allp, pairs=pairs(allp, allp), ps=allp)

        def g():
            route = rng.choice(["one", "bulk", "fill", "fill", "block", "fwd"])
            pr, dr = rng.random() < 0.5, rng.random() < 0.5
            prs = e["pairs"]

            def tup(v):
                v = list(v) if (pr or dr) else [v]
                r = dict(h=at(v[0], allp, allp, prs))
                if dr:
                    r["d"] = der(v[1])
                if pr:
                    r["p"] = P(np.asarray(v[-1]).ravel()[0])
                return r
            if route == "one":
                res = []
                for x, _ in cs:
                    d = m.hprobs(x, returnPr=pr, returnDeriv=dr, clipTo=ct)
                    res.append([dict(w.out(o), **tup(v)) for o, v in d.items()])
                return dict(route=route, res=res, pr=pr, der=dr)
            if route == "bulk":
                d = m.bulk_hprobs([x for x, _ in cs], returnPr=pr, returnDeriv=dr, clipTo=ct, check=False,
                                  wrtBlockSize1=rng.choice([None, None, 3, 7.5]), wrtBlockSize2=rng.choice([None, None, 4]))
                return dict(route=route, res=[[dict(w.out(o), **tup(v)) for o, v in d[x].items()] for x, _ in cs], pr=pr, der=dr)
            if route == "block":
                t, look, outs = m.bulk_evaltree([x for x, _ in cs])
                n = t.num_final_elements()
                d12 = rng.random() < 0.5
                blocks = []
                for _ in range(rng.choice([1, 2, 3])):
                    a, b = start(), start()
                    k = rng.choice([1, 2, 9, 14])
                    k2 = rng.choice([1, 2, 9, k, k, k])
                    blocks.append((slice(a, min(w.np, a + k)), slice(b, min(w.np, b + k2))))
                hit = []
                for r in m.bulk_hprobs_by_block(t, blocks, d12):
                    hit.append((r[0], r[1], r[2], r[3] if d12 else None))
                if [(a, b) for a, b, _, _ in hit] != blocks:
                    raise ValueError("blocks out of order")
                s1, s2, mx, dm = rng.choice(hit)
                pa, pb = list(range(s1.start + 1, s1.stop + 1)), list(range(s2.start + 1, s2.stop + 1))
                pq = pairs(pa, pb, mx)
                res = []
                for i, (x, _) in enumerate(cs):
                    ix = np.arange(n)[look[i]]
                    res.append([dict(w.out(o), h=at(mx[k], pa, pb, pq), **({"d12": at12(dm[k] * S, pa, pb, pq)} if d12 else {}))
                                for o, k in zip(outs[i], ix)])
                return dict(route=route, res=res, pa=pa, pb=pb, pairs=pq, d12=d12)
            t, look, outs = tree()
            n = t.num_final_elements()
            wf1 = wf2 = wb1 = wb2 = None
            c = rng.random()
            if c < 0.5:
                wf1, wf2 = rng_filter(), rng_filter()
                k = rng.random()
                if k < 0.2:
                    wf2 = wf1
                elif k < 0.7:
                    wf2 = rng_filter(len(wf1))
                    k = min(len(wf1), len(wf2))
                    wf1, wf2 = wf1[:k], wf2[:k]
            elif c < 0.8:
                wb1, wb2 = rng.choice([None, 1, 3, 100]), rng.choice([None, 2, 7.5])
                if w.np > 30:
                    wb1, wb2 = wb1 and 20, wb2 and 30
            pa = [p + 1 for p in wf1] if wf1 is not None else allp
            pb = [p + 1 for p in wf2] if wf2 is not None else allp
            mx = np.full((n, len(pa), len(pb)), np.nan)
            d1 = np.full((n, len(pa)), np.nan) if rng.random() < 0.7 else None
            d2 = np.full((n, len(pb)), np.nan) if rng.random() < 0.7 else None
            pm = np.full(n, np.nan) if pr else None
            m._fwdsim().bulk_fill_hprobs(mx, t, pm, d1, d2, ct, False, None, wf1, wf2, wb1, wb2)
            pq = pairs(pa, pb, mx)
            res = []
            for i, (x, _) in enumerate(cs):
                ix = np.arange(n)[look[i]]
                if len(ix) != len(outs[i]):
                    raise ValueError("%d elements for %d outcomes" % (len(ix), len(outs[i])))
                res.append([dict(w.out(o), h=at(mx[k], pa, pb, pq), **dict({"p": P(pm[k])} if pr else {}, **({"d": der(d1[k], pa)} if d1 is not None else {})),
                                **({"g": der(d2[k], pb)} if d2 is not None else {}))
                            for o, k in zip(outs[i], ix)])
            return dict(route="fill", res=res, pa=pa, pb=pb, pairs=pq, pr=pr, der=d1 is not None, ps=pa, der2=d2 is not None, ps2=pb, how=[wf1 or [], wf2 or [], str(wb1), str(wb2)])
        return e, exact(g)
    cs = [(x, a) for x, a in (w.circuit(3, inst=False) for _ in range(rng.choice([1, 2]))) if not a["keep"]]
    bare = [m.split_circuit(x)[1] for x, _ in cs]
    e["cs"] = [a for _, a in cs]
    e["N"] = w.N
    N = w.N
    opp = [p for p in allp if w.scale[p - 1] == 1.0]
    if not opp:
        return None
    if kind == "dproduct":
        ps = sorted(rng.sample(opp, min(len(opp), 4 if N > 4 else 8)))
        e["ps"] = ps

        def k():
            res = []
            for x in bare:
                if rng.random() < 0.5:
                    d = m.dproduct(x)
                else:
                    d = m.dproduct(x, flat=True).reshape(N, N, w.np).transpose(2, 0, 1)
                res.append([X.ints(d[p - 1]) for p in ps])
            return dict(res=res)
        return e, k
    prs = [[rng.choice(opp), rng.choice(opp)] for _ in range(4)]
    e["pairs"] = prs

    def k2():
        res = []
        for x in bare:
            if rng.random() < 0.5:
                d = m.hproduct(x)
            else:
                d = m.hproduct(x, flat=True).reshape(N, N, w.np, w.np).transpose(2, 3, 0, 1)
            res.append([X.ints(d[a - 1, b - 1]) for a, b in prs])
        return dict(res=res)
    return e, k2


def world(rng):
    n = rng.choice([1, 1, 1, 2])
    return X.World(rng, n, rng.choice(["matrix", "map"]), ["full", "tp", "lin", "lin", "static"], rng.random() < 0.5,
                   nops=rng.choice([1, 2, 3]) if n == 1 else 2, static=0.35 if n == 1 else 0.6, big="static")


def history(tid, rng, steps):
    w = world(rng)
    H = X.Hist(rng, w)
    for _ in range(steps):
        h = rng.randint(1, len(H.ms))
        c = rng.random()
        if c < 0.12:
            H.setvec(h)
        elif c < 0.18:
            H.setmember(h)
        elif c < 0.22 and len(H.ms) < 3:
            H.copy(h)
        elif c < 0.3:
            m = H.ms[h - 1]
            H.add(dict(op="look", h=h), lambda: m.set_simtype("map" if m.simtype == "matrix" else "matrix") or dict(obs=H.looks()))
        else:
            r = routes(H, h)
            if r is not None:
                H.add(*r)
    if rng.random() < 0.5:
        H.add(dict(op="look", h=1), lambda: dict(obs=H.looks()))
    return H.trace(tid)


def script(tid, items, rng):
    H = X.Hist(rng, world(rng))
    for _ in range(2):
        r = routes(H, 1, items)
        if r is not None:
            H.add(*r)
    return H.trace(tid)


def corrupt(t):
    for e in t["ev"]:
        if e["op"] == "dprobs" and not e["raised"]:
            for r in e["res"]:
                if r and r[0]["d"]:
                    r[0]["d"][0] += 1 + 2 * e["told"]
                    return t
    return None


def main(chk):
    for k in ("1",) if chk.quick else ("1", "1t", "2t"):
        chk.mc("ExactModelMC", "ExactModelMC%s.cfg" % k)
    sc = [x for x in chk.scripts("ExactModelMC", "ExactModelGen.cfg") if len(x) <= 3]
    pick = chk.rng.sample(sc, chk.n(50, len(sc)))
    tr = [script("s%d" % i, pick[i:i + 5], random.Random(chk.rng.random())) for i in range(0, len(pick), 5)]
    chk.validate("ExactModelTrace", tr, label="enumerated circuits")
    tr = [history("h%d" % i, random.Random(chk.rng.random()), 7) for i in range(chk.n(48, 900))]
    chk.validate("ExactModelTrace", tr, label="random models")
    good = next(t for t in tr if corrupt(__import__("copy").deepcopy(t)))
    chk.selftest("ExactModelTrace", good, corrupt)
