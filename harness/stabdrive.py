"""Drives the stabilizer simulation and records it for StabilizerTrace.tla (C12)."""
import itertools, warnings
import numpy as np
import vf
from pygsti.objects import stabilizer as st, spamvec as sv, operation as op, povm as pv
from pygsti.objects import Circuit, Label
from pygsti.objects.replib import SBEffectRep
from pygsti.tools import symplectic as sy, internalgates as ig
from pygsti.tools.optools import unitary_to_pauligate
from pygsti.construction import modelconstruction as mc

STD = {k: np.asarray(u) for k, u in ig.get_standard_gatename_unitaries().items() if k not in ("Gt", "Gtdag")}
ONE = sorted(k for k, u in STD.items() if u.shape[0] == 2)
TWO = sorted(k for k, u in STD.items() if u.shape[0] == 4)


def expo(a):
    """a = 2^(-k/2) w^j -> (k, j); zero -> None; anything else -> (-9, 0)"""
    if not np.isfinite(a):
        return (-9, 0)
    r = abs(a)
    if r < 1e-7:
        return None
    k, j = -2 * np.log2(r), np.angle(a) / (np.pi / 4)
    if abs(k - round(k)) > 1e-6 or abs(j - round(j)) > 1e-6:
        return (-9, 0)
    return (int(round(k)), int(round(j)) % 8)


def uni(U):
    es = [[expo(a) for a in row] for row in np.asarray(U)]
    ks = {e[0] for r in es for e in r if e}
    assert len(ks) == 1 and min(ks) >= 0, "not a Clifford"
    return dict(k=ks.pop(), m=[[-1 if e is None else e[1] for e in r] for r in es])


def amps(v):
    es = [expo(a) for a in np.asarray(v).flat]
    ks = {e[0] for e in es if e}
    return dict(kind="amps", k=ks.pop() if len(ks) == 1 else -9, j=[-1 if e is None else e[1] for e in es])


def pm(p):
    if isinstance(p, complex) or not np.isfinite(p):
        return -9
    if abs(p) < 1e-9:
        return -1
    if p < 0:
        return -9
    m = -np.log2(p)
    return int(round(m)) if abs(m - round(m)) < 1e-6 else -9


def stabs(s, p):
    s, p = np.asarray(s), np.asarray(p)
    n = s.shape[0] // 2
    return dict(kind="stab", g=[dict(x=[int(b) for b in s[:n, i]], z=[int(b) for b in s[n:, i]], p=int(p[i]) % 4) for i in range(n)])


def embed(U, q, n):
    """the unitary of n qubits applying U to the qubits q (qubit 0 most significant)"""
    U = np.asarray(U)
    a = len(q)
    M = np.zeros((2**n, 2**n), complex)
    for i in range(2**n):
        b = [(i >> (n - 1 - t)) & 1 for t in range(n)]
        col = sum(b[x] << (a - 1 - t) for t, x in enumerate(q))
        for r in range(2**a):
            c = list(b)
            for t, x in enumerate(q):
                c[x] = (r >> (a - 1 - t)) & 1
            M[sum(v << (n - 1 - t) for t, v in enumerate(c)), i] += U[r, col]
    return M


def zs(n):
    return [list(t) for t in itertools.product([0, 1], repeat=n)]


class World:
    """live states: id -> (route, object).  Every operation is followed by a look at all of them."""

    def __init__(self, tid, rng, light=False):
        self.o, self.ev, self.rng, self.nid, self.id, self.light = {}, [], rng, 0, tid, light

    def new(self):
        self.nid += 1
        return self.nid

    def look(self, i):
        route, x = self.o[i]
        n = self.n(i)
        out = []
        if route == "frame":
            c = self.rng.random()
            full = (not self.light) or c < .4
            out.append(amps(x.to_statevec()))
            if full:
                zz = zs(n)
                out.append(dict(kind="probs", m=[pm(x.measurement_probability(np.array(z), check=len(x.ps) == 1)) for z in zz]))
                out.append(amps([x.extract_amplitude(np.array(z)) for z in zz]))
                out.append(stabs(x.s, x.ps[0]))
        elif route == "sp":
            s, p = x
            out.append(dict(kind="probs", m=[pm(sy.stabilizer_measurement_prob((s, p), z)) for z in zs(n)]))
            out.append(stabs(s, p))
        elif route == "rep":
            fr = [SBEffectRep(np.array(z, np.int64)) for z in zs(n)]
            out.append(amps([e.amplitude(x) for e in fr]))
            out.append(dict(kind="probs", m=[pm(e.probability(x)) for e in fr]))
            out.append(stabs(x.smatrix, x.pvectors[0]))
        elif route == "vec":
            out.append(amps(x.todense()))
            out.append(dict(kind="probs", m=[pm(x._verif_eff(z)) for z in zs(n)]) if hasattr(x, "_verif_eff") else
                       dict(kind="probs", m=[pm(SBEffectRep(np.array(z, np.int64)).probability(x._rep)) for z in zs(n)]))
        elif route == "probs":
            out.append(dict(kind="probs", m=[pm(q) for q in x]))
        for d in out:
            d["id"] = i
        return out

    def n(self, i):
        route, x = self.o[i]
        if route == "frame":
            return x.nqubits
        if route == "sp":
            return len(x[1]) // 2
        if route == "rep":
            return x.nqubits
        if route == "vec":
            return x._rep.nqubits
        return int(np.log2(len(x)))

    def do(self, ev, fn, dst=None):
        """fn() -> (route, object) for dst, or None"""
        ev = dict(dict(src=0, srcs=[], dst=dst or 0, z=[], gs=[], adj=False, q=[], out=[], m=0, ids=[], raised=False, obs=[]), **ev)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = fn()
                if dst is not None and r is not None:
                    self.o[dst] = r
                for i in ev["ids"]:
                    self.o.pop(i, None)
                obs = []
                ids = sorted(self.o)
                if self.light and len(ids) > 3:
                    ids = [i for i in ids if i in (dst, ev["src"])] + self.rng.sample([i for i in ids if i not in (dst, ev["src"])], 1)
                for i in ids:
                    obs += self.look(i)
                ev["obs"] = obs
        except vf.Timeout:
            raise
        except Exception as e:
            ev["raised"] = True
            ev["error"] = "%s: %s" % (type(e).__name__, str(e)[:150])
        self.ev.append(ev)
        return not ev["raised"]

    def trace(self):
        return dict(id=self.id, ev=self.ev)


def g(U, q):
    return dict(u=uni(U), q=[x + 1 for x in q])


def prep(w, route, n, z):
    i = w.new()
    if route == "frame":
        f = lambda: ("frame", st.StabilizerFrame.from_zvals(n if w.rng.random() < .5 else None, z) if any(z) or w.rng.random() < .5 else st.StabilizerFrame.from_zvals(n))
    elif route == "sp":
        f = lambda: ("sp", sy.prep_stabilizer_state(n, w.rng.choice([list(z), tuple(z), np.array(z)]) if any(z) or w.rng.random() < .5 else None))
    elif route == "rep":
        f = lambda: ("rep", w.rng.choice([lambda: st.StabilizerFrame.from_zvals(n, z).torep(), lambda: sv.ComputationalSPAMVec(z, "stabilizer")._rep])())
    else:
        def f():
            c = w.rng.randrange(3)
            if c == 0:
                return ("vec", sv.StabilizerSPAMVec(n, z))
            if c == 1:
                v = np.zeros(2 ** n)
                v[int("".join(map(str, z)), 2)] = 1
                return ("vec", sv.StabilizerSPAMVec.from_dense_purevec(v))
            return ("vec", sv.ComputationalSPAMVec(z, "stabilizer"))
    w.do(dict(op="prep", z=list(z)), f, i)
    return i


def randq(rng, n, k):
    return rng.sample(range(n), k)


def randgate(rng, n):
    """a random unitary Clifford and its qubits"""
    if n == 1 or rng.random() < .55:
        U, k = STD[rng.choice(ONE)], 1
        if rng.random() < .15:
            U = U * np.exp(1j * np.pi / 4 * rng.randrange(8))
    else:
        U, k = STD[rng.choice(TWO)], 2
        if rng.random() < .4:
            a, b, c, d = (STD[rng.choice(ONE)] for _ in range(4))
            U = np.kron(a, b) @ U @ np.kron(c, d)
            if rng.random() < .5:
                U = U @ STD[rng.choice(TWO)]
            if rng.random() < .3:
                U = U @ STD["Gcnot"] @ np.kron(STD[rng.choice(ONE)], STD[rng.choice(ONE)])
    return U, randq(rng, n, k)


def sp(U):
    return sy.unitary_to_symplectic(U)


def frame_update(rng, f, U, q):
    """the documented ways of updating only the qubits q"""
    s, p = sp(U)
    n = f.nqubits
    c = rng.random()
    if list(q) == list(range(n)) and c < .5:
        f.clifford_update(s, p, U)
    elif c < .4:
        f.clifford_update(s, p, U, list(q))
    elif c < .7:
        f.push_view(list(q))
        f.clifford_update(s, p, U)
        f.pop_view()
    else:
        rest = [i for i in range(n) if i not in q]
        outer = list(q) + rng.sample(rest, rng.randrange(len(rest) + 1))
        rng.shuffle(outer)
        inner = [outer.index(i) for i in q]
        f.push_view(outer)
        if rng.random() < .5:
            f.push_view(inner)
            f.clifford_update(s, p, U)
            f.pop_view()
        else:
            f.clifford_update(s, p, U, inner)
        f.pop_view()
    assert not f.view_filters


def mkop(rng, n, depth=0):
    """how to make a random operation on n qubits, and the gates it performs in order"""
    c = rng.random()
    if depth >= 2 or c < .45:
        U, q = randgate(rng, n)
        give = rng.random() < .3
        base = lambda: op.CliffordOp(U, sp(U)) if give else op.CliffordOp(U)
        if list(q) == list(range(n)) and rng.random() < .7:
            return base, [g(U, q)]
        lab = rng.choice([list(range(n)), ["Q%d" % i for i in range(n)]])
        return (lambda: op.EmbeddedOp([tuple(lab)], [lab[i] for i in q], base())), [g(U, q)]
    if c < .75:
        parts = [mkop(rng, n, depth + 1) for _ in range(rng.choice([1, 2, 2, 3, 4, 0]))]
        if not parts:
            return (lambda: op.ComposedOp([], dim=2 ** n, evotype="stabilizer")), []
        return (lambda: op.ComposedOp([p[0]() for p in parts])), [x for p in parts for x in p[1]]
    if c < .88:
        o, gs = mkop(rng, n, depth + 1)
        k = rng.choice([0, 1, 2, 3, 4])
        return (lambda: op.ExponentiatedOp(o(), k)), gs * k
    if n >= 2:
        k = rng.randrange(1, n)
        q = randq(rng, n, k)
        o, gs = mkop(rng, k, depth + 1)
        return (lambda: op.EmbeddedOp([tuple(range(n))], q, o())), [dict(u=x["u"], q=[q[i - 1] + 1 for i in x["q"]]) for x in gs]
    return mkop(rng, n, depth + 1)


def act(w, i, inplace_ok=True):
    """apply something random to the state i"""
    rng = w.rng
    route, x = w.o[i]
    n = w.n(i)
    if route == "frame":
        U, q = randgate(rng, n)
        w.do(dict(op="apply", src=i, gs=[g(U, q)], dst=i), lambda: (frame_update(rng, x, U, q), ("frame", x))[1], i)
    elif route == "sp":
        U, q = randgate(rng, n)

        def f():
            s, p = sp(U)
            if list(q) != list(range(n)) or rng.random() < .3:
                s, p = sy.embed_clifford(s, p, q, n)
            return ("sp", sy.apply_clifford_to_stabilizer_state(s, p, x[0], x[1]))
        dst = w.new() if rng.random() < .5 else i
        w.do(dict(op="apply", src=i, gs=[g(U, q)]), f, dst)
    else:
        o, gs = mkop(rng, n)
        adj = route == "rep" and rng.random() < .35
        dst = w.new() if rng.random() < .5 else i

        def f():
            if route == "rep":
                return ("rep", o()._rep.adjoint_acton(x) if adj else o()._rep.acton(x))
            return ("vec", o().acton(x))
        w.do(dict(op="apply", src=i, gs=gs, adj=adj), f, dst)


def measure(w, i):
    rng = w.rng
    s, p = w.o[i][1]
    n = w.n(i)
    q = randq(rng, n, rng.randrange(1, n + 1))
    out = [rng.randrange(2) for _ in q]
    keep = rng.random() < .7
    full = q == list(range(n)) and rng.random() < .5

    got = {}

    def f():
        if keep:
            pr, s2, p2 = sy.stabilizer_measurement_prob((s, p), out, None if full else q, return_state=True)
            got["m"] = pm(pr)
            return ("sp", (s2, p2)) if pr > 1e-9 else None
        got["m"] = pm(sy.stabilizer_measurement_prob((s, p), out, None if full else q))
        return None
    dst = (w.new() if rng.random() < .6 else i) if keep else None
    ev = dict(op="meas", src=i, q=[a + 1 for a in q], out=out)
    ok = w.do(ev, f, dst)
    w.ev[-1]["m"] = got.get("m", -9)
    if dst is not None and dst not in w.o:
        w.ev[-1]["dst"] = 0


def history(tid, rng, light=True):
    w = World(tid, rng, light)
    route = rng.choice(["frame", "sp", "rep", "vec"])
    n = rng.choice([1, 2, 2, 3, 3, 4]) if route != "sp" else rng.choice([1, 2, 3, 3, 4])
    prep(w, route, n, [rng.randrange(2) if rng.random() < .7 else 0 for _ in range(n)])
    for _ in range(rng.randrange(4, 14)):
        ids = sorted(w.o)
        if not ids or w.ev[-1]["raised"]:
            break
        i = rng.choice(ids[-3:])
        c = rng.random()
        if len(ids) > 4:
            w.do(dict(op="drop", ids=[ids[0]]), lambda: None)
        elif c < .12 and route == "frame":
            j = w.new()
            w.do(dict(op="copy", src=i), lambda: ("frame", w.o[i][1].copy()), j)
        elif c < .12 and route in ("rep", "vec") and len(ids) < 3:
            j = w.new()
            w.do(dict(op="copy", src=i), lambda: (route, vf_copy(w.o[i][1], rng)), j)
        elif c < .24 and route in ("frame", "vec") and w.n(i) <= 2:
            small = [k for k in ids if w.n(k) <= 2]
            ks = [i]
            if rng.random() < .5:
                pz = [rng.randrange(2) for _ in range(rng.choice([1, 1, 2]))]
                ks.append(prep(w, route, len(pz), pz))
                if w.ev[-1]["raised"]:
                    break
            else:
                ks.append(rng.choice(small))
            if rng.random() < .5:
                ks.reverse()
            j = w.new()
            if route == "frame":
                w.do(dict(op="kron", srcs=ks), lambda: ("frame", st.sframe_kronecker([w.o[k][1] for k in ks])), j)
            else:
                w.do(dict(op="kron", srcs=ks), lambda: ("vec", tensor([w.o[k][1] for k in ks], rng)), j)
        elif c < .24 and route == "sp" and w.n(i) <= 2:
            ks = [i, rng.choice([k for k in ids if w.n(k) <= 2])]
            j = w.new()
            w.do(dict(op="kron", srcs=ks), lambda: ("sp", sy.symplectic_kronecker([w.o[k][1] for k in ks])), j)
        elif c < .5 and route == "sp":
            measure(w, i)
        else:
            act(w, i)
    return w.trace()


def vf_copy(x, rng):
    import pickle
    import copy
    if hasattr(x, "copy") and rng.random() < .6:
        return x.copy()
    return pickle.loads(pickle.dumps(x)) if rng.random() < .6 or not hasattr(x, "copy") else copy.deepcopy(x)


def tensor(vs, rng):
    return sv.TensorProdSPAMVec("prep", [v.copy() for v in vs] if vs[0] is vs[-1] or rng.random() < .5 else list(vs))


def script(tid, paths, rng, route):
    """visit the states that TLC enumerated, every time from scratch, and leave each by every gate"""
    w = World(tid, rng)
    U = dict(H=STD["Gh"], P=STD["Gp"], Q=STD["Gxpi2"], C=STD["Gcnot"])
    n = paths[0]["n"]

    def apply(i, U, q, dst):
        x = w.o[i][1]
        if route == "frame":
            y = x if dst == i else x.copy()
            f = lambda: (frame_update(rng, y, U, q), ("frame", y))[1]
        elif route == "sp":
            f = lambda: ("sp", sy.apply_clifford_to_stabilizer_state(*(sy.embed_clifford(*(sp(U) + (q, n)))), *x))
        else:
            f = lambda: ("rep", op.EmbeddedOp([tuple(range(n))], list(q), op.CliffordOp(U))._rep.acton(x))
        return w.do(dict(op="apply", src=i, gs=[g(U, q)]), f, dst)
    for p in paths:
        i = prep(w, route, n, [0] * n)
        w.light = True
        ok = not w.ev[-1]["raised"]
        for name, q in p["path"]:
            ok = ok and apply(i, U[name], [a - 1 for a in q], i)
        if not ok:
            break
        w.light = False
        j = w.new()
        for name in "HPQC":
            for q in itertools.permutations(range(n), 2 if name == "C" else 1):
                ok = ok and apply(i, U[name], list(q), j)
        if not ok:
            break
        if route == "sp":
            for q in range(n):
                for o in (0, 1):
                    got = {}

                    def f():
                        pr, s2, p2 = sy.stabilizer_measurement_prob(w.o[i][1], [o], [q], return_state=True)
                        got["m"] = pm(pr)
                        return ("sp", (s2, p2)) if pr > 1e-9 else None
                    w.do(dict(op="meas", src=i, q=[q + 1], out=[o]), f, j)
                    w.ev[-1]["m"] = got.get("m", -9)
        w.do(dict(op="drop", ids=[i, j]), lambda: None)
    return w.trace()


# ------------------------------------------------------------------ models
def models(tid, rng):
    """circuits simulated by models of the stabilizer kind"""
    w = World(tid, rng, light=True)
    n = rng.choice([1, 2, 2, 3, 3, 4])
    lab = rng.choice([list(range(n)), ["Q%d" % i for i in range(n)], ["a", "b", "c", "d"][:n]])
    names = rng.sample(ONE, rng.choice([2, 3])) + (rng.sample(TWO, rng.choice([1, 2])) if n > 1 else [])
    non = {}
    if rng.random() < .3:
        U, q = randgate(rng, 2)
        if len(q) == 1 or n > 1:
            non["Gmine"] = U
            names.append("Gmine")
    Us = {k: non[k] if k in non else STD[k] for k in names}
    av = {k: [tuple(lab[i] for i in t) for t in itertools.permutations(range(n), 2)] for k in names if Us[k].shape[0] == 4}
    kind = rng.choice(["local", "local2", "explicit", "pspec"])
    if kind == "explicit" and (n > 2 or lab[0] == "a"):
        kind = "local"
    box = {}

    def build():
        if kind == "local":
            m = mc.build_localnoise_model(n, names, non, availability=av, qubit_labels=lab, parameterization="clifford",
                                          sim_type=rng.choice(["auto", "map"]), ensure_composed_gates=rng.random() < .3,
                                          independent_gates=rng.random() < .5)
        elif kind == "local2":
            m = mc.build_standard_localnoise_model(n, names, non, av, lab, parameterization="clifford") if hasattr(mc, "build_standard_localnoise_model") else \
                mc.build_localnoise_model(n, names, non, availability=av, qubit_labels=lab, parameterization="clifford")
        elif kind == "explicit":
            # a model of density matrices, turned into one of unitaries and then into one of stabilizer states
            m = mc.build_explicit_model([tuple(lab)], [], [], effectLabels=["".join(map(str, z)) for z in zs(n)])
            for k in names:
                for t in (av[k] if k in av else [(a,) for a in lab]):
                    m.operations[Label(k, t)] = op.FullDenseOp(unitary_to_pauligate(embed(Us[k], [lab.index(x) for x in t], n)))
            m.set_all_parameterizations("static unitary")
            m.set_all_parameterizations("clifford")
        else:
            from pygsti.objects import ProcessorSpec
            m = ProcessorSpec(n, names, nonstd_gate_unitaries=non, availability=av, qubit_labels=lab, construct_models=("clifford",), construct_clifford_compilations={}).models["clifford"]
        box["m"] = m
    try:
        build()
    except vf.Timeout:
        raise
    except Exception as e:
        w.ev.append(dict(op="circ", src=0, srcs=[], dst=1, z=[0] * n, gs=[], adj=False, q=[], out=[], m=0, ids=[], raised=True, obs=[],
                         error="%s: %s" % (type(e).__name__, str(e)[:150]), kind=kind))
        return w.trace()
    m = box["m"]
    circs = []
    for _ in range(4):
        layers, gs = [], []
        for _ in range(rng.randrange(0, 7)):
            free = list(range(n))
            rng.shuffle(free)
            lay = []
            while free and rng.random() < (.75 if kind != "explicit" or not lay else 0):
                k = rng.choice(names)
                a = int(np.log2(Us[k].shape[0]))
                if len(free) < a:
                    break
                q = [free.pop() for _ in range(a)]
                lay.append(Label(k, tuple(lab[i] for i in q)))
                gs.append(g(Us[k], q))
            if lay or kind != "explicit":
                layers.append(tuple(lay) if lay else ())
        circs.append((Circuit(layers, line_labels=tuple(lab)), gs))
    outs = ["".join(map(str, z)) for z in zs(n)]

    def vec(d):
        d = dict(d)
        if {tuple(k) if not isinstance(k, str) else (k,) for k in d} != {(o,) for o in outs}:
            return [float("nan")] * len(outs)
        return [d[(o,)] if (o,) in d else d[o] for o in outs]
    bulk = rng.random() < .4
    res = {}
    for ci, (c, gs) in enumerate(circs):
        j = w.new()

        def f():
            if bulk:
                if "b" not in res:
                    res["b"] = m.bulk_probs([x for x, _ in circs])
                return ("probs", vec(res["b"][c]))
            return ("probs", vec(m.probs(c)))
        w.do(dict(op="circ", z=[0] * n, gs=gs, kind=kind, text=c.str), f, j)
        if w.ev[-1]["raised"]:
            break
    return w.trace()


def corrupt(t):
    import copy
    t = copy.deepcopy(t)
    for e in t["ev"]:
        for o in e["obs"]:
            if o["kind"] == "probs" and -1 in o["m"]:
                o["m"] = [0 if x == -1 else x for x in o["m"]]
                return t
            if o["kind"] == "stab":
                o["g"][0]["p"] = (o["g"][0]["p"] + 2) % 4
                return t
    return None
