"""Models whose members are integers, built side by side with the terms of the specification (spec/ExactModel.tla)."""
import math, random, warnings
import numpy as np
import vf
from pygsti import objects as obj
from pygsti.objects import Circuit, Label
from pygsti.objects import operation as _op

BADNUM = 987654321


def toint(x, tol=1e-6):
    x = complex(x)
    if x != x or abs(x.imag) > tol or abs(x.real) > 9e8:
        return BADNUM
    r = round(x.real)
    return int(r) if abs(x.real - r) <= tol * max(1.0, abs(r)) else BADNUM


def ints(a, tol=1e-6):
    a = np.asarray(a)
    if a.ndim == 0:
        return toint(a, tol)
    return [ints(x, tol) for x in a]


def vec(rng, n, big=2):
    v = [rng.choice([0, 0, 1, -1, 1, rng.randint(-big, big)]) for _ in range(n)]
    if not any(v):
        v[rng.randrange(n)] = 1
    return v


def mat(rng, n, per=2):
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in rng.sample(range(n), rng.choice([1] + [per] * 3)):
            m[i][j] = rng.choice([1, 1, -1, 2] if n <= 4 else [1, -1])
    return m


class Leaf(object):
    """a leaf: its object, its values at the zero vector, the entries that depend on its parameters"""

    def __init__(self, o, m0, p, theta, scale=1.0):
        self.obj, self.m0, self.p, self.theta, self.scale = o, m0, p, list(theta), scale
        self.idx = None  # the model's parameters, from 1

    def params(self):
        return [dict(e, a=self.idx[e["a"]]) for e in self.p]


class Comp(object):
    def __init__(self, o, kind, kids, **kw):
        self.obj, self.kind, self.kids, self.kw = o, kind, kids, kw


def leaves(t):
    if isinstance(t, Leaf):
        return [t]
    return [x for k in t.kids for x in leaves(k)]


def term(t, v=False):
    if isinstance(t, Leaf):
        return dict(k="vec" if v else "mx", m0=t.m0, p=t.params())
    if t.kind == "comp":
        return dict(k="comp", f=[term(k) for k in t.kids])
    if t.kind == "emb":
        return dict(k="emb", on=t.kw["on"], n=t.kw["n"], t=term(t.kids[0]))
    if t.kind == "exp":
        return dict(k="exp", n=t.kw["n"], t=term(t.kids[0]))
    if t.kind == "kron":
        return dict(k="kron", f=[term(k, True) for k in t.kids])
    if t.kind == "compl":
        return dict(k="compl", id=t.kw["id"], f=[term(k, True) for k in t.kids])
    raise ValueError(t.kind)


class World(object):
    """one model with its terms"""

    def __init__(self, rng, n, sim, kinds, scaled, share=True, nops=3, inst=True, static=0.3, spam=True, big=None):
        self.rng, self.n, self.N = rng, n, 4 ** n
        self.ssl = ["Q%d" % i for i in range(n)]
        self.kinds, self.static, self.big = kinds, static, big
        self.s1 = math.sqrt(2.0) if scaled else 1.0  # scale per line
        self.sp = self.se = self.s1 ** n
        self.scaled = scaled
        self.m = obj.ExplicitOpModel(self.ssl, "pp", sim_type=sim)
        self.preps, self.ops, self.insts, self.povms = {}, {}, {}, {}
        self.labels = {}
        self.shared = []
        self.build(nops, inst, share, spam)
        self.index()

    # -- leaves
    def op1(self, n, kind=None):
        """an operation on n lines"""
        rng, N = self.rng, 4 ** n
        kind = kind or rng.choice(self.kinds)
        if rng.random() < self.static:
            kind = "static"
        if n > 1 and kind in ("lin",):
            kind = "full"
        if n > 1 and self.big:
            kind = self.big
        m = mat(rng, N)
        if kind == "static":
            return Leaf(obj.StaticDenseOp(np.array(m, "d")), m, [], [])
        if kind == "full":
            return Leaf(obj.FullDenseOp(np.array(m, "d")), [[0] * N for _ in range(N)],
                        [dict(a=i * N + j, i=i + 1, j=j + 1, c=1) for i in range(N) for j in range(N)], sum(m, []))
        if kind == "tp":
            m[0] = [1] + [0] * (N - 1)
            return Leaf(obj.TPDenseOp(np.array(m, "d")), [m[0]] + [[0] * N for _ in range(N - 1)],
                        [dict(a=(i - 1) * N + j, i=i + 1, j=j + 1, c=1) for i in range(1, N) for j in range(N)], sum(m[1:], []))
        if kind == "lin":
            k = rng.randint(1, 3)
            cells = rng.sample([(i, j) for i in range(N) for j in range(N)], rng.randint(k, 6))
            at = {q: [] for q in range(k)}
            for z, c in enumerate(cells):
                at[z if z < k else rng.randrange(k)].append(c)
            for i, j in cells:
                m[i][j] = 0
            L = R = None
            if rng.random() < 0.4:
                L = np.array(mat(rng, N, 1), "d")
            if rng.random() < 0.4:
                R = np.array(mat(rng, N, 1), "d")
            th = [rng.randint(-1, 2) for _ in range(k)]
            o = obj.LinearlyParamDenseOp(np.array(m, "d"), np.array(th, "d"), at, L, R, real=True)
            Li = np.identity(N) if L is None else L
            Ri = np.identity(N) if R is None else R
            m0 = Li @ np.array(m, "d") @ Ri
            p = []
            for q in range(k):
                D = sum(np.outer(Li[:, i], Ri[j, :]) for i, j in at[q])
                p += [dict(a=q, i=i + 1, j=j + 1, c=int(D[i, j])) for i in range(N) for j in range(N) if D[i, j] != 0]
            return Leaf(o, ints(m0), p, th)
        raise ValueError(kind)

    def op(self, depth=0):
        rng, n = self.rng, self.n
        c = rng.random()
        if depth < 2 and c < 0.3:
            fs = [rng.choice(self.shared) if self.shared and rng.random() < 0.4 else self.op(depth + 1) for _ in range(rng.choice([1, 2, 2, 3]))]
            if rng.random() < 0.2:
                fs.append(fs[0])
            self.shared += [f for f in fs if f not in self.shared]
            cls = obj.ComposedDenseOp if rng.random() < 0.5 else obj.ComposedOp
            return Comp(cls([f.obj for f in fs], dim=self.N, evotype="densitymx"), "comp", fs)
        if depth < 2 and c < 0.36 and n == 1:
            f = self.op1(n)
            k = rng.choice([0, 1, 2, 3])
            return Comp(_op.ExponentiatedOp(f.obj, k), "exp", [f], n=k)
        if n > 1 and c < 0.85:
            on = rng.sample(range(n), rng.choice([1, 1, 1, 2]) if n > 2 else rng.choice([1, 1, 1, 1, 2]))
            f = self.op1(len(on)) if len(on) == 1 or rng.random() < 0.7 else self.op1(len(on), "static")
            return self.embed(f, on)
        return self.op1(n)

    def embed(self, f, on):
        ssl = obj.StateSpaceLabels(self.ssl) if hasattr(obj, "StateSpaceLabels") else self.m.state_space_labels
        cls = obj.EmbeddedDenseOp if self.rng.random() < 0.5 else obj.EmbeddedOp
        return Comp(cls(self.m.state_space_labels, [self.ssl[i] for i in on], f.obj), "emb", [f], on=[i + 1 for i in on], n=self.n)

    def vleaf(self, n, typ, kind=None, v=None, scale=None):
        rng, N = self.rng, 4 ** n
        s = self.s1 ** n if scale is None else scale
        v = list(v) if v is not None else vec(rng, N)
        kind = kind or rng.choice(["static", "full", "full", "tp"] if typ == "prep" else ["static", "full", "full"])
        if kind == "tp" and not self.scaled:
            kind = "full"
        if kind == "static":
            return Leaf(obj.StaticSPAMVec(np.array(v, "d") / s, typ=typ), v, [], [])
        if kind == "full":
            return Leaf(obj.FullSPAMVec(np.array(v, "d") / s, typ=typ), [0] * N, [dict(a=i, i=i + 1, c=1) for i in range(N)], v, s)
        v[0] = 1
        return Leaf(obj.TPSPAMVec(np.array(v, "d") / s), [1] + [0] * (N - 1), [dict(a=i - 1, i=i + 1, c=1) for i in range(1, N)], v[1:], s)

    def povm1(self, n, outs):
        """a POVM on n lines: (object, [(outcome, term)], leaves in the order of its parameters)"""
        rng = self.rng
        if self.scaled and rng.random() < 0.6:
            ident = [2 ** n] + [0] * (4 ** n - 1)
            es = [self.vleaf(n, "effect", "full") for _ in outs[:-1]]
            last = np.array(ident) - sum((np.array(e.theta) for e in es), np.zeros(4 ** n))
            o = obj.TPPOVM([(k, e.obj) for k, e in zip(outs, es)] + [(outs[-1], last / self.s1 ** n)])
            return o, list(zip(outs, es + [Comp(None, "compl", es, id=ident)])), es
        es = [self.vleaf(n, "effect") for _ in outs]
        return obj.UnconstrainedPOVM([(k, e.obj) for k, e in zip(outs, es)]), list(zip(outs, es)), es

    def build(self, nops, inst, share, spam):
        rng, n, m = self.rng, self.n, self.m
        for p in ["rho0", "rho1"][:rng.choice([1, 1, 2])]:
            if n > 1 and rng.random() < 0.5:
                fs = [self.vleaf(1, "prep") for _ in range(n)]
                t = Comp(obj.TensorProdSPAMVec("prep", [f.obj for f in fs]), "kron", fs)
            else:
                t = self.vleaf(n, "prep")
            self.preps[p] = t
            m.preps[p] = t.obj
        for q in ["Mdefault", "Mb"][:rng.choice([1, 1, 2])]:
            if n == 1:
                o, es, ls = self.povm1(1, rng.choice([["0", "1"], ["0", "1", "2"], ["up", "down"]]))
                es = [([k], t) for k, t in es]
            elif rng.random() < 0.6:
                fs = [self.povm1(1, rng.choice([["0", "1"], ["1", "0"], ["0", "1", "2"]]) if q != "Mdefault" else ["0", "1"]) for _ in range(n)]
                o = obj.TensorProdPOVM([f[0] for f in fs])
                es, ls = [((), ())], [x for f in fs for x in f[2]]
                for f in fs:
                    es = [(a + (k,), b + (t,)) for a, b in es for k, t in f[1]]
                es = [(list(a), Comp(None, "kron", list(b))) for a, b in es]
            else:
                o, es, ls = self.povm1(n, rng.sample(["00", "01", "10", "11"], rng.choice([2, 3, 4])) if n == 2 else ["000", "101", "110"])
                es = [(list(k), t) for k, t in es]
            self.povms[q] = (es, ls)
            m.povms[q] = o
        names = [("Gx", "Q0"), ("Gy", "Q%d" % (n - 1)), "Gi", (("Ga", "Q0"), ("Gb", "Q1")) if n > 1 else "Gz", "Gw"]
        for z in range(nops):
            if z == 3 and n > 1:
                names[3] = Label((("Ga", "Q0"), ("Gb", "Q1")))
            lb = Label(names[z])
            if n > 1 and z < 2 and rng.random() < 0.8:
                f = self.op1(1)
                if share:
                    f = rng.choice([s for s in self.one] + [f]) if getattr(self, "one", None) and rng.random() < 0.3 else f
                self.one = getattr(self, "one", []) + [f]
                t = self.embed(f, [0 if z == 0 else n - 1])
            else:
                t = self.op()
            if self.n == 1 or not isinstance(t, Leaf):
                pass
            self.ops[str(lb)] = t
            self.labels[str(lb)] = lb
            m.operations[lb] = t.obj
        if inst and rng.random() < 0.6:
            outs = rng.choice([["p", "q"], ["p", "q", "r"]])
            if n == 1 and rng.random() < 0.5:
                ms = [np.array(mat(rng, 4), "d") for _ in outs]
                s = sum(ms)
                ms[-1][0] += np.array([1, 0, 0, 0]) - s[0]
                mt = sum(ms)
                k = len(outs)
                o = obj.TPInstrument([(a, b) for a, b in zip(outs, ms)])
                mtp = [dict(a=(i - 1) * 4 + j, i=i + 1, j=j + 1, c=1) for i in range(1, 4) for j in range(4)]
                th = ints(mt[1:].ravel())
                Z = [[1, 0, 0, 0]] + [[0] * 4 for _ in range(3)]
                ds = []
                for x in range(k - 1):
                    off = 12 + 16 * x
                    ds.append([dict(a=off + i * 4 + j, i=i + 1, j=j + 1, c=1) for i in range(4) for j in range(4)])
                    th += ints((ms[x] - mt).ravel())
                ts = []
                for x in range(k - 1):
                    ts.append(Leaf(None, Z, mtp + ds[x], th))
                neg = [dict(e, c=-(k - 2)) for e in mtp] if k > 2 else []
                ts.append(Leaf(None, [[-(k - 2) * y for y in r] for r in Z], neg + [dict(e, c=-1) for d in ds for e in d], th))
                self.insts["Iz"] = (list(zip(outs, ts)), ts[:1], ts)
            else:
                ts = [self.op1(n, "static" if n > 1 else None) for _ in outs]
                o = obj.Instrument([(k, t.obj) for k, t in zip(outs, ts)])
                self.insts["Iz"] = (list(zip(outs, ts)), ts, ts)
            m.instruments["Iz"] = o

    def index(self):
        """read which parameters each member was given"""
        m = self.m
        m.to_vector()
        self.np = m.num_params()
        self.scale = [1.0] * self.np

        def give(leaf, gp):
            gp = [int(x) for x in gp]
            leaf.idx = [x + 1 for x in gp]
            for x in gp:
                self.scale[x] = leaf.scale
        arr = lambda o: list(o.gpindices_as_array())
        for nm, t in self.preps.items():
            gp = arr(m.preps[nm])
            off = 0
            for f in leaves(t):
                give(f, gp[off:off + len(f.theta)])
                off += len(f.theta)
        for nm, (es, ls) in self.povms.items():
            gp = arr(m.povms[nm])
            off = 0
            for f in ls:
                give(f, gp[off:off + len(f.theta)])
                off += len(f.theta)
        for nm, t in self.ops.items():
            for f in leaves(t):
                give(f, arr(f.obj))
        for nm, (es, ls, al) in self.insts.items():
            gp = arr(m.instruments[nm])
            off = 0
            for f in ls:
                give(f, gp[off:off + len(f.theta)])
                off += len(f.theta)
            if len(ls) != len(al):
                for f in al:
                    give(f, gp)

    def theta(self, m=None):
        """the parameter vector, as integers"""
        return [toint(x * s) for x, s in zip((m or self.m).to_vector(), self.scale)]

    def absmodel(self):
        return dict(preps={k: term(t, True) for k, t in self.preps.items()}, ops={k: term(t) for k, t in self.ops.items()},
                    insts={k: [dict(o=o, t=term(t)) for o, t in x[0]] for k, x in self.insts.items()},
                    povms={k: [dict(o=o, v=term(t, True)) for o, t in x[0]] for k, x in self.povms.items()})

    def expected(self):
        """the parameter vector the leaves were built with"""
        th = [0] * self.np
        for t in list(self.preps.values()) + list(self.ops.values()):
            for f in leaves(t):
                for a, x in zip(f.idx, f.theta):
                    th[a - 1] = x
        for es, ls in self.povms.values():
            for f in ls:
                for a, x in zip(f.idx, f.theta):
                    th[a - 1] = x
        for es, ls, al in self.insts.values():
            for f in ls:
                for a, x in zip(f.idx, f.theta):
                    th[a - 1] = x
        return th

    # -- circuits: (pygsti circuit, abstract circuit)
    def circuit(self, maxlen=4, items=None, inst=True):
        rng, n = self.rng, self.n
        names = list(self.ops)
        keep = []
        if getattr(self, "marg", False) and n > 1 and set(self.povms) == {"Mdefault"} and rng.random() < 0.2:
            keep = rng.sample(range(n), rng.randint(1, n - 1))
            names = [x for x in names if set(self.labels[x].sslbls or self.ssl) <= set(self.ssl[i] for i in keep)] or None
            if names is None:
                keep, names = [], list(self.ops)
        lines = tuple(self.ssl) if not keep else tuple(self.ssl[i] for i in keep)
        L = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]) if items is None else len(items)
        L = min(L, maxlen)
        its, labs = [], []
        ni = 0
        for z in range(L):
            c = rng.random()
            if items is not None:  # enumerated: k, l over a, b, d, z
                k = items[z]["k"]
                pick = dict(zip("abd", names * 3))
                if k == "inst" and not (self.insts and not keep):
                    k = "op"
                c = {"inst": 0.0, "rep": 0.2, "op": 1.0}[k]
            if self.insts and c < 0.15 and (ni < 2 or items is not None) and not keep and inst:
                ni += 1
                its.append(dict(k="inst", l=["Iz"]))
                labs.append(Label("Iz"))
            elif c < 0.25 and inst:
                sub = [rng.choice(names) for _ in range(rng.choice([1, 2]))] if items is None else [pick[x] for x in items[z]["l"]]
                r = rng.choice([1, 2, 3] if len(sub) == 1 else [1, 2])
                its.append(dict(k="rep", l=sub, n=r))
                cl = Circuit([self.labels[x] for x in sub], line_labels=lines).as_label(r)
                labs.append(cl)
            else:
                x = rng.choice(names) if items is None or items[z]["k"] == "inst" else pick[items[z]["l"][0]]
                its.append(dict(k="op", l=[x]))
                labs.append(self.labels[x])
        pr, po = rng.choice(list(self.preps)), rng.choice(list(self.povms))
        pre = [Label(pr)] if len(self.preps) > 1 or rng.random() < 0.15 else []
        post = [Label(po)] if (len(self.povms) > 1 or rng.random() < 0.15) and not keep else []
        c = Circuit(pre + labs + post, line_labels=lines, expand_subcircuits=bool(rng.random() < 0.4)) if not any(x["k"] == "rep" for x in its) \
            else Circuit(pre + labs + post, line_labels=lines, expand_subcircuits=False)
        return c, dict(prep=pr, items=its, povm=po, keep=[i + 1 for i in keep])

    def out(self, o):
        o = list(o)
        last = o[-1]
        return dict(i=o[:-1], o=[last] if self.n == 1 else list(last))

    # -- projection of the members
    def look(self, h, m, th=True):
        r = dict(h=h, N=self.N, th=self.theta(m) if th else [], preps=[], ops=[], effs=[], insts=[])
        dense = lambda g: g.todense() if hasattr(g, "todense") else np.asarray(g)
        for k in self.preps:
            r["preps"].append(dict(n=k, v=ints(np.asarray(m.preps[k].todense()).ravel() * self.sp)))
        for k in self.ops:
            r["ops"].append(dict(n=k, m=ints(dense(m.operations[self.labels[k]]))))
        for k in self.povms:
            for o in m.povms[k].keys():
                r["effs"].append(dict(n=k, o=[o] if self.n == 1 else list(o), v=ints(np.asarray(m.povms[k][o].todense()).ravel() * self.se)))
        for k in self.insts:
            for o in m.instruments[k].keys():
                r["insts"].append(dict(n=k, o=o, m=ints(dense(m.instruments[k][o]))))
        return r


class Hist(object):
    """a history over several models (the original and its copies)"""

    def __init__(self, rng, w):
        self.rng, self.w = rng, w
        self.ms = [w.m]
        self.ev = [dict(op="model", h=1, m=w.absmodel(), th=w.expected(), raised=False, obs=self.looks([1]))]

    def looks(self, hs=None):
        hs = hs or range(1, len(self.ms) + 1)
        return [self.w.look(h, self.ms[h - 1]) for h in hs]

    def add(self, e, f):
        """f() fills in the event"""
        try:
            with warnings.catch_warnings(), vf.time_limit(60):
                warnings.simplefilter("ignore")
                e.update(f() or {})
            e["raised"] = False
        except vf.Timeout:
            raise
        except Exception as x:
            e["raised"] = True
            e["exc"] = repr(x)[:200]
        e.setdefault("obs", [])
        self.ev.append(e)
        return e

    def trace(self, tid):
        return dict(id=tid, ev=self.ev)

    # -- state changes
    def setvec(self, h):
        w, rng, m = self.w, self.rng, self.ms[h - 1]
        th = w.theta(m)
        new = list(th)
        for i in rng.sample(range(w.np), min(w.np, rng.choice([1, 2, 5, w.np]))):
            new[i] = rng.choice([0, 1, -1, 0, 1, 2])

        def f():
            m.from_vector(np.array([x / s for x, s in zip(new, w.scale)], "d"))
            return dict(obs=self.looks())
        self.add(dict(op="vec", h=h, th=new), f)

    def setmember(self, h):
        """set one leaf of the first model through its own object"""
        w, rng, m = self.w, self.rng, self.ms[h - 1]
        th = w.theta(m)
        if h != 1:
            return
        ls = [x for t in list(w.ops.values()) for x in leaves(t) if x.theta]
        if not ls:
            return
        x = rng.choice(ls)
        new = list(th)
        v = []
        for a in x.idx:
            if rng.random() < 0.5:
                new[a - 1] = rng.choice([0, 1, -1, 2])
            v.append(new[a - 1] / w.scale[a - 1])

        def f():
            x.obj.from_vector(np.array(v, "d"))
            return dict(obs=self.looks())
        self.add(dict(op="vec", h=h, th=new), f)

    def copy(self, h):
        def f():
            self.ms.append(self.ms[h - 1].copy())
            return dict(obs=self.looks())
        e = self.add(dict(op="copy", h=h), f)
        if not e["raised"]:
            e["h"] = h
        return e
