"""C11: distributed work covers every element exactly once on any number of processors."""
import itertools, warnings
import numpy as np
import vf, mpiworld

PMAX = 8


def flat_cells(shape, inds, axes, block):
    ix = [list(range(n)) for n in shape]
    for a, i in enumerate(inds):
        if i is not None:
            ix[a] = idx(i, shape[a])
    for a, b in zip(axes, block):
        ix[a] = idx(b, shape[a])
    return [int(np.ravel_multi_index(t, shape)) + 1 for t in itertools.product(*ix)]


def idx(b, n):
    return list(range(n))[slice(*b[1:])] if b[0] == "s" else list(b[1])


class D(object):
    def __init__(self, chk):
        self.chk, self.rng = chk, chk.rng
        self.w = mpiworld.World(PMAX, chk.rng)
        self.out = []

    def record(self, name, job, params, p, res=None, mism=None):
        ev, out = self.w.run(name, params, p)
        if len(out) == p and all(e["op"] not in ("raise", "stuck") for e in ev):
            e = dict(op="end")
            if mism is None:
                e["res"] = [(res or (lambda x: x))(out[r]) for r in range(p)]
            else:
                e["mism"] = mism(out)
            ev.append(e)
        self.out.append(dict(id="%s-%d" % (name, len(self.out)), p=p, job=job, params=repr(params)[:300], ev=ev))

    # -- ownership
    def ownership(self, p, n, share, kind):
        self.record("indices", dict(kind="indices", n=n, share=share, split=True), dict(kind=kind, n=n, allow=share), p)

    def base(self, p, n, share, kind):
        self.record("base", dict(kind="indices", n=n, share=share, split=False), dict(kind=kind, n=n, allow=share), p)

    def slices(self, p, n, share, start):
        self.record("slices", dict(kind="slices", n=n, share=share), dict(start=start, n=n, allow=share), p)

    def tree(self):
        rng = self.rng
        p = rng.randint(1, PMAX)
        ncomms = rng.choice([k for k in range(1, p + 1)])
        par = dict(seed=rng.randrange(10 ** 6), sim=rng.choice(["matrix", "map"]), nc=rng.randint(2, 12), splits=rng.choice([None, 2, 3, 4, 5]),
                   ncomms=ncomms, maxsize=None)
        if rng.random() < 0.3:
            par.update(splits=None, maxsize=rng.randint(6, 12))
        n = self.w.serial("ntrees", par)
        if n < ncomms:
            return                # (rejected by an assertion: more groups than trees)
        self.record("tree", dict(kind="tree", n=n, ncomms=ncomms), par, p)

    # -- gathering
    def axis_block(self, n, arrays):
        """divides 0..n-1 (or a part of it) into disjoint runs/index sets; may leave some empty"""
        rng = self.rng
        k = rng.randint(1, 4)
        x = list(range(n))
        if arrays and rng.random() < 0.6:
            rng.shuffle(x)
            cuts = sorted(rng.randint(0, n) for _ in range(k - 1))
            parts = [x[a:b] for a, b in zip([0] + cuts, cuts + [n])]
            if rng.random() < 0.5:
                parts = [sorted(q) for q in parts]
            if rng.random() < 0.2:
                parts = [q[::-1] for q in parts]
            return [("a", q) for q in parts]
        if rng.random() < 0.15:
            return [("s", i, n, 2) for i in range(min(2, n))]
        cuts = sorted(rng.randint(0, n) for _ in range(k - 1))
        return [("s", a, b, None) for a, b in zip([0] + cuts, cuts + [n])]

    def gather(self):
        rng = self.rng
        p = rng.randint(1, 5)
        fn = rng.choice(["slices", "slices", "byowner", "indices", "indices"])
        nd = rng.choice([1, 2, 2, 3])
        shape = tuple(rng.randint(1, 5) for _ in range(nd))
        axes = rng.sample(range(nd), rng.randint(1, min(2, nd)))
        if rng.random() < 0.7:
            axes = sorted(axes)
        per = [self.axis_block(shape[a], fn == "indices") for a in axes]
        blocks = [list(t) for t in itertools.product(*per)]
        if rng.random() < 0.2:
            blocks = rng.sample(blocks, rng.randint(1, len(blocks)))
        owners = [rng.randrange(p) for _ in blocks]
        inds = []
        for a in range(nd):
            if a in axes:
                inds.append(None)
                continue
            c = rng.random()
            if c < 0.4:
                inds.append(None)
            elif c < 0.7:
                s = rng.randint(0, shape[a] - 1)
                inds.append(("s", s, rng.randint(s, shape[a]), None))
            else:
                inds.append(("a", rng.sample(range(shape[a]), rng.randint(1, shape[a]))))
        # fixed indices come before the gathered axes, and are absent or unrestricted after them
        m = min(axes)
        inds = inds[:m]
        while inds and inds[-1] is None:
            inds.pop()
        inds = [("s", None, None, None) if i is None else i for i in inds]
        size = int(np.prod(shape)) * 8
        maxb = rng.choice([None, None, size // 2, size // 3, size // 5, 8, size])
        cells = [flat_cells(shape, inds, axes, b) for b in blocks]
        if fn == "byowner":
            o = sorted(range(len(blocks)), key=lambda i: owners[i])
        else:
            o = range(len(blocks))
        n = int(np.prod(shape))
        job = dict(kind="gather", start=[[x + 1000 * (r + 1) for x in range(n)] for r in range(p)], cells=[cells[i] for i in o], owner=[owners[i] + 1 for i in o])
        self.record("gather", job, dict(fn=fn, shape=shape, blocks=[tuple(b) for b in blocks], owners=owners, inds=inds, axes=tuple(axes), maxb=maxb,
                                        dtype="float64"), p)

    def small(self):
        rng = self.rng
        p = rng.randint(1, PMAX)
        c = rng.random()
        if c < 0.4:
            n, dup = rng.randint(0, 10), rng.random() < 0.2
            kind = rng.choice(["str", "int"])
            it = ["item%d" % (i // 2 if dup else i) if kind == "str" else str(i // 2 if dup else i) for i in range(n)]
            self.record("apply", dict(kind="apply", items=it), dict(kind=kind, n=n, dup=dup), p)
        elif c < 0.7:
            i, k, j = rng.randint(1, 3), rng.randint(1, 9), rng.randint(1, 3)
            a = [[rng.randint(-3, 3) for _ in range(k)] for _ in range(i)]
            b = [[rng.randint(-3, 3) for _ in range(j)] for _ in range(k)]
            self.record("dot", dict(kind="dot", a=a, b=b), dict(a=a, b=b), p)
        else:
            x = [rng.randint(-9, 9) for _ in range(p)]
            self.record("total", dict(kind="total", x=x), dict(x=x), p)

    # -- whole computations, compared with the serial ones
    def whole(self, name, par, p, tol=1e-3, spar=None):
        s = self.w.serial(name, spar or par)

        def mism(out):
            bad = []
            for r in sorted(out):
                lab, arrs = out[r]
                if lab != s[0]:
                    bad.append([r + 1, "labels"])
                if len(arrs) != len(s[1]):
                    bad.append([r + 1, "arrays"])
                for i, (a, b) in enumerate(zip(arrs, s[1])):
                    if a.shape != b.shape:
                        bad.append([r + 1, "shape", i])
                    elif not np.allclose(a, b, atol=tol, rtol=1e-4):
                        bad.append([r + 1, "array", i, [int(k) for k in np.where(~np.isclose(a, b, atol=tol, rtol=1e-4))[0][:5]]])
            return bad
        self.record(name, dict(kind="serial"), par, p, mism=mism)

    def fill(self):
        rng = self.rng
        what = rng.choice(["probs", "dprobs", "dprobs", "hprobs", "hprobs"])
        free = rng.choice([["rho"], ["rho"], ["Gi"], ["E"], ["rho", "Gx"], ["E", "Gi"], ["rho", "I"], ["Gx", "i"]])
        if what == "hprobs" and "I" in free:
            free = ["rho", "i"]
        p = rng.choice([2, 2, 3, 4, 5, 6])
        par = dict(seed=rng.randrange(10 ** 6), sim=rng.choice(["matrix", "map"]), free=free, nc=rng.randint(1, 7), what=what,
                   splits=rng.choice([None, None, 2, 3, 4]), ncomms=1, bs=(None, None), memlim=None)
        if par["splits"] and par["splits"] > par["nc"]:
            par["splits"] = par["nc"]
        if "I" in free or "i" in free:
            par["splits"] = rng.choice([None, min(2, par["nc"])])
        par["ncomms"] = rng.randint(1, min(p, par["splits"] or 1))
        c = rng.random()
        if c < 0.3:
            par["bs"] = (rng.randint(1, 6), rng.randint(1, 6))
        elif c < 0.45 and what != "probs":
            s = rng.randint(0, 2)
            par["subset"] = list(range(s, s + rng.randint(1, 2)))
        elif c < 0.6:
            par["byresources"] = ("default", rng.choice([10 ** 7, 2 * 10 ** 6, 10 ** 6]))
            par["splits"] = None
        if rng.random() < 0.4:
            par["memlim"] = rng.choice([50, 100, 500, 2000])
        self.whole("fill", par, p)

    def others(self):
        rng = self.rng
        p = rng.choice([2, 3, 4, 6])
        c = rng.random()
        seed = rng.randrange(10 ** 6)
        if c < 0.4:
            self.whole("product", dict(seed=seed, nc=rng.randint(1, 6), what=rng.choice(["product", "dproduct", "dproduct"]), free=rng.choice([["rho"], ["Gx"], ["rho", "Gi"]]),
                                       splits=None), p)
        elif c < 0.7:
            self.whole("hessian", dict(seed=seed, sim=rng.choice(["matrix", "map"]), nc=rng.randint(3, 7), ncomms=1), p, tol=0.05)
        else:
            self.whole("gauge", dict(seed=seed), p, tol=1e-6)


def main(chk):
    warnings.simplefilter("ignore")
    for c in ("DistribMC.cfg", "DistribMC2.cfg", "DistribMC3.cfg") + (() if chk.quick else ("DistribMC4.cfg",)):
        chk.mc("DistribMC", c)
    d = D(chk)
    rng = chk.rng
    kinds = ["int", "off", "np", "str", "tup", "circ", "neg"]

    def done(label):
        tr, d.out = d.out, []
        chk.validate("DistribTrace", tr, label=label)
        return tr
    with vf.time_limit(chk.n(300, 1500)):
        k = 0
        for p in range(1, PMAX + 1):
            for n in range(chk.n(11, 20)):
                for share in (True, False):
                    k += 1
                    d.ownership(p, n, share, kinds[k % len(kinds)] if chk.quick else rng.choice(kinds))
                    d.base(p, n, share, kinds[(k // 2) % len(kinds)])
                    d.slices(p, n, share, rng.choice([0, 0, 3]))
        tr = done("ownership for every number of processors and items")
    chk.selftest("DistribTrace", [t for t in tr if t["id"].startswith("indices") and t["p"] == 5][4], lambda t: (t["ev"][-1]["res"][2]["loc"].append(1), t)[1])
    with vf.time_limit(chk.n(300, 1500)):
        for _ in range(chk.n(500, 8000)):
            d.gather()
        for _ in range(chk.n(200, 1000)):
            d.small()
        for _ in range(chk.n(60, 400)):
            d.tree()
        tr = done("gathering, products, sums, trees")
    chk.selftest("DistribTrace", [t for t in tr if t["id"].startswith("gather") and t["p"] > 2][3], lambda t: (t["ev"][1].update(k="bcast"), t)[1])
    for k in range(chk.n(1, 8)):
        with vf.time_limit(600):
            for _ in range(chk.n(90, 150)):
                d.fill()
            for _ in range(chk.n(16, 30)):
                d.others()
            done("computations against the serial ones %d" % k)
    d.w.close()
