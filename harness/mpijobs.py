"""Jobs run on every rank (and serially, with comm None)."""
import random
import numpy as np
import pygsti
from pygsti.tools import mpitools as mt
from pygsti import objects as obj
from pygsti.objects import Circuit, Label


def _g(comm):
    """a communicator as the list of its members (numbered from 1); None: no communicator"""
    return [] if comm is None else [r + 1 for r in comm.members]


def _items(kind, n):
    if kind == "int":
        return list(range(n))
    if kind == "off":
        return [10 + 3 * i for i in range(n)]
    if kind == "np":
        return list(np.arange(n) * 2 + 1)
    if kind == "str":
        return ["item%d" % i for i in range(n)]
    if kind == "tup":
        return [("a", i) for i in range(n)]
    if kind == "circ":
        return [Circuit([Label("Gx", "Q%d" % i)], line_labels=("Q%d" % i,)) for i in range(n)]
    if kind == "neg":
        return [-1 - i for i in range(n)]
    raise ValueError(kind)


def indices(comm, kind, n, allow):
    it = _items(kind, n)
    loc, owners, lc = mt.distribute_indices(it, comm, allow)
    return dict(loc=[it.index(x) + 1 for x in loc], owner=[owners[x] + 1 for x in it], comm=_g(lc))


def base(comm, kind, n, allow):
    it = _items(kind, n)
    loc, owners = mt.distribute_indices_base(it, comm.Get_size(), comm.Get_rank(), allow)
    return dict(loc=[it.index(x) + 1 for x in loc], owner=[owners[x] + 1 for x in it], comm=[])


def slices(comm, start, n, allow):
    sl, loc, owners, lc = mt.distribute_slice(slice(start, start + n), comm, allow)
    return dict(slices=[[s.start - start, s.stop - start] for s in sl],
                loc=[] if loc == slice(None) else [loc.start - start, loc.stop - start],
                owner=[owners[i] + 1 for i in range(len(sl))], comm=_g(lc))


def mkarr(rank, shape):
    n = int(np.prod(shape))
    return (np.arange(n) + 1000 * (rank + 1)).reshape(shape)


def gather(comm, fn, shape, blocks, owners, inds, axes, maxb, dtype):
    """blocks: list of tuples over axes of ("s", start, stop, step) or ("a", [indices])"""
    def dec(b):
        return slice(*b[1:]) if b[0] == "s" else np.array(b[1], np.int64) if b[0] == "a" else list(b[1])
    a = mkarr(comm.Get_rank(), shape).astype(dtype)
    bl = [tuple(dec(x) for x in t) for t in blocks]
    if len(axes) == 1:
        bl = [t[0] for t in bl]
        axes = axes[0]
    ai = [None if i is None else dec(i) for i in inds]
    if fn == "slices":
        mt.gather_slices(bl, dict(enumerate(owners)), a, ai, axes, comm, maxb)
    elif fn == "byowner":
        mt.gather_slices_by_owner([b for b, o in zip(bl, owners) if o == comm.Get_rank()], a, ai, axes, comm, maxb)
    else:
        mt.gather_indices(bl, dict(enumerate(owners)), a, ai, axes, comm, maxb)
    return [int(x) for x in a.ravel()]


def apply(comm, kind, n, dup):
    it = _items(kind, n)
    if dup:
        it = [it[i // 2] for i in range(n)]
    return mt.parallel_apply(lambda x: str(x) + "!", it, comm)


def dot(comm, a, b):
    a, b = np.array(a, float), np.array(b, float)
    return [[int(x) for x in r] for r in mt.mpidot(a, b, mt.distribute_for_dot(a.shape[1], comm), comm)]


def total(comm, x):
    r = 0 if comm is None else comm.Get_rank()
    return int(mt.sum_across_procs(x[r] if comm is not None else sum(x), comm))


# -- models with small integer entries
def imat(rng, n, m):
    return np.array([[rng.choice([-1, 0, 0, 1, 1, 2]) for _ in range(m)] for _ in range(n)], float)


def model(seed, sim, free):
    """free: which members have parameters"""
    rng = random.Random(seed)
    m = obj.ExplicitOpModel(["Q0"], "pp", sim_type=sim)
    t = lambda k: k in free
    m.preps["rho0"] = (obj.FullSPAMVec if t("rho") else obj.StaticSPAMVec)(imat(rng, 4, 1))
    m.povms["Mdefault"] = obj.UnconstrainedPOVM([(o, (obj.FullSPAMVec if t("E") else obj.StaticSPAMVec)(imat(rng, 4, 1), typ="effect")) for o in ("0", "1", "2")])
    for g in ("Gi", "Gx", "Gy"):
        m.operations[g] = (obj.FullDenseOp if t(g) else obj.StaticDenseOp)(imat(rng, 4, 4))
    if t("I") or t("i"):
        m.instruments["Iz"] = obj.Instrument([(o, (obj.FullDenseOp if t("I") else obj.StaticDenseOp)(imat(rng, 4, 4))) for o in ("p", "q")])
    return m


def circuits(seed, n, inst):
    rng = random.Random(seed)
    ops = ["Gi", "Gx", "Gy"] + (["Iz"] if inst else [])
    cs = [Circuit([rng.choice(ops) for _ in range(rng.choice([0, 1, 2, 3, 3, 4]))]) for _ in range(n)]
    for i in range(n):
        if i and rng.random() < 0.3:
            k = rng.randrange(i)
            cs[i] = Circuit(cs[k].tup + tuple(rng.choice(ops) for _ in range(rng.choice([0, 1, 1, 2]))))
    return cs


def tree(comm, seed, sim, nc, splits, ncomms, maxsize):
    m = model(seed, sim, ["rho"])
    cs = circuits(seed, nc, False)
    evt, lk, ol = m.bulk_evaltree(cs, minSubtrees=splits, maxTreeSize=maxsize, numSubtreeComms=ncomms)
    mine, owners, lc = evt.distribute(comm)
    n = len(evt.get_sub_trees())
    return dict(loc=[i + 1 for i in mine], owner=[owners[i] + 1 for i in range(n)], comm=_g(lc))


def ntrees(comm, seed, sim, nc, splits, ncomms, maxsize):
    m = model(seed, sim, ["rho"])
    try:
        evt, lk, ol = m.bulk_evaltree(circuits(seed, nc, False), minSubtrees=splits, maxTreeSize=maxsize, numSubtreeComms=ncomms)
    except (ValueError, AssertionError) as e:
        assert "too low" in str(e) or "Unsuccessful splitting" in str(e)        # the requested size cannot be reached
        return 0
    return len(evt.get_sub_trees())


def fill(comm, seed, sim, free, nc, what, splits, ncomms, bs, memlim, subset=None, byresources=None):
    m = model(seed, sim, free)
    cs = circuits(seed, nc, "I" in free or "i" in free)
    if byresources:
        evt, b1, b2, lk, ol = m.bulk_evaltree_from_resources(cs, comm, byresources[1], byresources[0], ["bulk_fill_" + what], verbosity=0)
        bs = (b1, b2)
    else:
        evt, lk, ol = m.bulk_evaltree(cs, minSubtrees=splits, numSubtreeComms=ncomms if comm is not None else 1)
    order = np.concatenate([np.arange(evt.num_final_elements())[lk[i]] for i in range(len(cs))]) if len(cs) else []
    labels = [str(o) for i in range(len(cs)) for o in ol[i]]
    n, N = evt.num_final_elements(), m.num_params()
    res = []
    k = [subset] * 2 if subset is not None else [None, None]
    n1 = N if subset is None else len(subset)
    pr = np.full(n, np.nan)
    if what == "probs":
        m.bulk_fill_probs(pr, evt, comm=comm)
        res = [pr[order]]
    elif what == "dprobs":
        a = np.full((n, n1), np.nan)
        if subset is None:
            m.bulk_fill_dprobs(a, evt, pr, comm=comm, wrtBlockSize=bs[0], gatherMemLimit=memlim)
        else:
            m._fwdsim().bulk_fill_dprobs(a, evt, pr, comm=comm, wrtFilter=subset, gatherMemLimit=memlim)
        res = [pr[order], a[order]]
    else:
        h = np.full((n, n1, n1), np.nan)
        a, b = np.full((n, n1), np.nan), np.full((n, n1), np.nan)
        if subset is None:
            m.bulk_fill_hprobs(h, evt, pr, a, comm=comm, wrtBlockSize1=bs[0], wrtBlockSize2=bs[1], gatherMemLimit=memlim)
        else:
            m._fwdsim().bulk_fill_hprobs(h, evt, pr, a, b, comm=comm, wrtFilter1=subset, wrtFilter2=subset, gatherMemLimit=memlim)
        res = [pr[order], a[order], h[order]] if subset is None else [pr[order], a[order], b[order], h[order]]
    return labels, [np.asarray(x).ravel() for x in res]


def product(comm, seed, nc, what, free, splits):
    m = model(seed, "matrix", free)
    cs = circuits(seed, nc, False)
    evt, lk, ol = m.bulk_evaltree(cs, minSubtrees=splits)
    if what == "product":
        r = m.bulk_product(evt, comm=comm)
    elif what == "dproduct":
        r = m.bulk_dproduct(evt, comm=comm)
    return [], [np.asarray(r).ravel()]


def hessian(comm, seed, sim, nc, ncomms):
    """Hessian of the log-likelihood (blocks distributed over ranks)"""
    from pygsti.construction import std1Q_XYI as std
    mdl = std.target_model().depolarize(op_noise=0.05, spam_noise=0.05)
    mdl.set_simtype(sim)
    rng = random.Random(seed)
    cs = [Circuit([rng.choice(["Gi", "Gx", "Gy"]) for _ in range(rng.randint(0, 3))]) for _ in range(nc)]
    cs = pygsti.tools.listtools.remove_duplicates(cs)
    ds = pygsti.construction.generate_fake_data(mdl, cs, 100, "multinomial", seed=seed, comm=comm)
    pts = [[str(k) for k in ds.keys()], np.array([ds[c].counts.get(("0",), 0) for c in cs], float)]
    h = pygsti.tools.logl_hessian(mdl.depolarize(op_noise=0.02), ds, cs, comm=comm)
    return pts[0], [pts[1], h.ravel()]


def gauge(comm, seed):
    from pygsti.construction import std1Q_XYI as std
    tgt = std.target_model()
    rng = np.random.RandomState(seed)
    mdl = tgt.depolarize(op_noise=0.05, spam_noise=0.05).rotate((0.1, 0.02, 0.03))
    tgt.set_all_parameterizations("TP")
    mdl.set_all_parameterizations("TP")
    from pygsti.algorithms import gaugeopt
    f, jac = gaugeopt._create_objective_fn(mdl, tgt, {"gates": 1.0, "spam": 0.1}, method="ls", comm=comm)
    grp = mdl.default_gauge_group
    el = grp.get_element(grp.get_initial_params() + 0.01 * rng.randn(grp.num_params()))
    post = mdl.copy()
    post.transform(el)
    return [], [np.asarray(jac(mdl, post, el)).ravel()]


def germs(comm, seed, mode, ngerms):
    from pygsti.construction import std1Q_XYI as std
    from pygsti.algorithms import germselection as gs
    tgt = std.target_model()
    gl = pygsti.construction.list_all_circuits(["Gi", "Gx", "Gy"], 1, 4)
    rng = random.Random(seed)
    gl = [Circuit(("Gi",)), Circuit(("Gx",)), Circuit(("Gy",))] + rng.sample(gl[3:], ngerms - 3)
    gl = pygsti.tools.listtools.remove_duplicates(gl)
    r = gs.build_up_breadth([tgt.depolarize(op_noise=1e-3).rotate((1e-2, 2e-2, 3e-2))], gl, randomizationStrength=0,
                            comm=comm, memLimit=None if mode == "all" else 3 * 10**6, verbosity=0)
    return [x.str for x in r], [np.zeros(0)]


JOBS = {k: v for k, v in list(globals().items()) if callable(v) and getattr(v, "__module__", "") == __name__}
