"""C23: connectivity queries answer for the graph they were asked about."""
import itertools, warnings
import numpy as np
import vf
from pygsti.objects import QubitGraph, ProcessorSpec
from pygsti.objects.compilationlibrary import CompilationLibrary

DIRS = [["right"], ["down", "right"], ["left", "right"], ["up", "right", "down"], ["down", "left", "right", "up"]]


def mklabels(rng, n):
    k = rng.randint(0, 3)
    if k == 0:
        return list(range(n))
    if k == 1:
        return ["Q%d" % i for i in range(n)]
    if k == 2:
        return rng.sample(["Q%d" % i for i in range(12)], n)
    return rng.sample(range(20), n)


class W(object):
    def __init__(self, rng):
        self.rng = rng
        self.g = {}
        self.ev = []

    def ix(self, g, lbl):
        return list(g.get_node_names()).index(lbl) + 1

    def obs(self, s):
        g = self.g[s]
        L = g.get_node_names()
        n = len(L)
        pos = {x: i + 1 for i, x in enumerate(L)}
        adj = []
        for a in L:
            row = []
            for b in L:
                x = bool(g.is_directly_connected(a, b))
                if bool(g[a, b]) != x or bool(g.has_edge((a, b))) != x:
                    x = "inconsistent"
                row.append(x)
            adj.append(row)
        return dict(slot=s, n=n, dir=bool(g.directed), d=len(g.directions or []), adj=adj,
                    edges=[[pos[a], pos[b]] for a, b in g.edges()], dedges=[[pos[a], pos[b]] for a, b in g.edges(True)])

    def mod(self, f, target, **e):
        try:
            r = f()
            e["raised"] = False
            if r is not None:
                self.g[target] = r
        except (AssertionError, KeyError, ValueError):
            e["raised"] = True
        e["obs"] = [self.obs(s) for s in sorted(self.g)]
        self.ev.append(e)

    def read(self, **e):
        self.ev.append(dict(op="read", **e))

    # -- operations
    def new(self, s):
        rng = self.rng
        n = rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6])
        L = mklabels(rng, n)
        kind = rng.choice(["edges", "matrix", "common", "common", "bare"])
        dirn = rng.random() < 0.6
        if kind == "common":
            geo = rng.choice(["line", "ring", "grid", "torus"])
            if geo in ("grid", "torus") and rng.random() < 0.9:
                n = rng.choice([4, 9])
                L = mklabels(rng, n)
            al = rng.random() < 0.5
            return self.mod(lambda: QubitGraph.common_graph(n, geo, dirn, L, al), s, op="common", s=s, n=n, geo=geo, dir=dirn, all=al)
        names = rng.choice(DIRS) if dirn and rng.random() < 0.6 else None
        d = len(names or [])
        if kind == "bare":
            return self.mod(lambda: QubitGraph(L, directed=dirn, direction_names=names), s, op="new", s=s, n=n, dir=dirn, d=d, edges=[])
        if kind == "edges":
            allp = [(i, j) for i in range(n) for j in range(n) if i != j]
            if not dirn:
                allp = [p for p in allp if p[0] < p[1]]
            es = rng.sample(allp, rng.randint(0, len(allp)))
            es = [(i, j, rng.randint(1, d)) if d else (i, j, 0) for i, j in es]
            byname = rng.random() < 0.6
            arg = []
            for i, j, k in es:
                if not dirn and rng.random() < 0.5:
                    i, j = j, i
                arg.append((L[i], L[j]) if not d else (L[i], L[j], names[k - 1] if byname else k - 1))
            return self.mod(lambda: QubitGraph(L, initial_edges=arg, directed=dirn, direction_names=names), s,
                            op="new", s=s, n=n, dir=dirn, d=d, edges=[[i + 1, j + 1, k] for i, j, k in es])
        m = np.array([[rng.choice([0, 0, 1]) * rng.randint(1, max(1, d)) if i != j else 0 for j in range(n)] for i in range(n)], int)
        if not dirn and rng.random() < 0.5:
            m = np.maximum(m, m.T)
        arg = m.copy() if d else m.astype(bool)
        self.mod(lambda: QubitGraph(L, initial_connectivity=arg, directed=dirn, direction_names=names), s,
                 op="newm", s=s, n=n, dir=dirn, d=d, m=m.tolist())
        arg[:, :] = 0          # the caller's matrix is not the graph's

    def nodes(self, g, k=None):
        L = list(g.get_node_names())
        return self.rng.sample(L, self.rng.randint(0, len(L)) if k is None else min(k, len(L)))

    def edit(self, s):
        rng = self.rng
        g = self.g[s]
        L = list(g.get_node_names())
        d = len(g.directions or [])
        i, j = rng.randrange(len(L)), rng.randrange(len(L))
        op = rng.choice(["add", "add", "remove", "remove", "set", "set"])
        E = g.edges()
        if op == "remove" and E and rng.random() < 0.8:
            a, b = rng.choice(E)
            if not g.directed and rng.random() < 0.5:
                a, b = b, a
            i, j = L.index(a), L.index(b)
        if op == "add":
            k = rng.randint(1, d) if d else 0
            if rng.random() < 0.05:
                k = 0 if d else 1
            arg = None if k == 0 else (g.directions[k - 1] if d and rng.random() < 0.6 else k - 1)
            if d == 0 and k:
                arg = "right"
            many = rng.random() < 0.2 and arg is None and not d
            f = (lambda: g.add_edges([(L[i], L[j])])) if many else (lambda: g.add_edge(L[i], L[j], arg) if arg is not None else g.add_edge(L[i], L[j]))
            return self.mod(f, s, op=op, s=s, i=i + 1, j=j + 1, k=k)
        if op == "remove":
            return self.mod(lambda: g.remove_edge(L[i], L[j]), s, op=op, s=s, i=i + 1, j=j + 1)
        if i == j:
            return
        if d:
            k = rng.randint(0, d)
            v = False if k == 0 else g.directions[k - 1]
        else:
            k = rng.randint(0, 1)
            v = bool(k)

        def f():
            g[L[i], L[j]] = v
        self.mod(f, s, op=op, s=s, i=i + 1, j=j + 1, k=k)

    def derive(self, s):
        rng = self.rng
        g = self.g[s]
        s2 = rng.randint(1, 4)
        c = rng.random()
        if c < 0.4:
            return self.mod(lambda: g.copy(), s2, op="copy", s=s, s2=s2)
        if c < 0.8:
            keep = self.nodes(g)
            if not keep:
                return
            reset = rng.random() < 0.5
            r = {}

            def f():
                r["g"] = g.subgraph(keep, reset_nodes=reset)
                assert list(r["g"].get_node_names()) == (list(range(len(keep))) if reset else keep)
                return r["g"]
            return self.mod(f, s2, op="sub", s=s, s2=s2, nodes=[self.ix(g, x) for x in keep])
        # what a compilation library makes of a connectivity graph and a constraint
        s0 = rng.choice(sorted(self.g))
        init = self.g[s0]
        lib = CompilationLibrary.__new__(CompilationLibrary)
        lib.connectivity = {"CNOT": init}
        if rng.random() < 0.7:
            common = [x for x in g.get_node_names() if x in init.get_node_names()]
            if not common:
                return
            self.mod(lambda: lib.filter_connectivity("CNOT", {"CNOT": g}), s2, op="filter", s=s, init=s0, s2=s2,
                     map=[[self.ix(g, x), self.ix(init, x)] for x in common])
        else:
            keep = self.nodes(init)
            if keep:
                self.mod(lambda: lib.filter_connectivity("CNOT", keep), s2, op="sub", s=s0, s2=s2, nodes=[self.ix(init, x) for x in keep])

    def query(self, s):
        rng = self.rng
        g = self.g[s]
        L = list(g.get_node_names())
        n = len(L)
        pos = {x: i + 1 for i, x in enumerate(L)}
        q = rng.choice(["dist", "dist", "conn", "path", "path", "pathedges", "meet", "pred", "glob", "glob", "combos", "radius", "sets", "move", "moves"])

        def num(x):
            return -1 if np.isinf(x) else int(x) if int(x) == x else "fraction"

        def path(a, b):
            try:
                return g.shortest_path(a, b)
            except AssertionError:
                return []
        if q == "dist":
            m = g.shortest_path_distance_matrix()
            got = [[num(m[i, j]) for j in range(n)] for i in range(n)]
            m[:] = 7
            if rng.random() < 0.5:
                got = [[num(g.shortest_path_distance(a, b)) for b in L] for a in L]
            return self.read(s=s, q=q, got=got)
        if q == "conn":
            return self.read(s=s, q=q, got=[[bool(g.is_connected(a, b)) for b in L] for a in L])
        if q == "path":
            return self.read(s=s, q=q, got=[[[pos[x] for x in path(a, b)] for b in L] for a in L])
        if q == "pathedges":
            got = []
            for a in L:
                row = []
                for b in L:
                    try:
                        row.append([[pos[x], pos[y]] for x, y in g.shortest_path_edges(a, b)])
                    except AssertionError:
                        row.append([])
                got.append(row)
            return self.read(s=s, q=q, got=got)
        if q == "meet":
            nd = self.nodes(g)
            ps = [(a, b) for a in L for b in L if path(a, b)]
            return self.read(s=s, q=q, nodes=[pos[x] for x in nd], paths=[[pos[x] for x in path(a, b)] for a, b in ps],
                             got=[bool(g.shortest_path_intersect(a, b, nd)) for a, b in ps])
        if q == "pred":
            m = g.shortest_path_predecessor_matrix()
            got = [[int(m[i, j]) + 1 if m[i, j] >= 0 else 0 for j in range(n)] for i in range(n)]
            m[:] = 0
            return self.read(s=s, q=q, got=got)
        if q == "glob":
            nd = self.nodes(g)
            return self.read(s=s, q=q, nodes=[pos[x] for x in nd], got=bool(g.are_glob_connected(nd)))
        if q == "combos":
            nd = self.nodes(g, 6)
            k = rng.randint(0, len(nd))
            return self.read(s=s, q=q, nodes=[pos[x] for x in nd], k=k, got=int(g.connected_combos(nd, k)))
        if q == "radius":
            nd = self.nodes(g)
            k = rng.randint(0, 4)
            r = g.radius(nd, k)
            if list(r) != sorted(r):
                r = list(r) + [None]
            return self.read(s=s, q=q, nodes=[pos[x] for x in nd], k=k, got=sorted(pos.get(x, 0) for x in r))
        if q == "sets":
            if n > 6:
                return
            k = rng.randint(1, n)
            ps = self.spec(L)
            ps.qubitgraph = g
            sym = all(g.is_directly_connected(a, b) == g.is_directly_connected(b, a) for a in L for b in L)
            if sym and rng.random() < 0.5:
                r = ps.get_all_connected_sets_new()[k]
            else:
                r = ps.get_all_connected_sets(k)
            return self.read(s=s, q=q, k=k, got=[sorted(pos[x] for x in t) for t in r])
        if g.directions is None or not g.directions:
            return
        d = len(g.directions)

        def arg(k):
            return g.directions[k - 1]
        if q == "move":
            i, k = rng.randrange(n), rng.randint(1, d)
            r = g.move_in_direction(L[i], arg(k) if rng.random() < 0.7 else k - 1)
            return self.read(s=s, q=q, i=i + 1, k=k, got=0 if r is None else pos[r])
        ks = [rng.randint(1, d) for _ in range(rng.randint(0, 3))]
        t = [rng.choice(L) for _ in range(rng.randint(1, 3))]
        a = rng.randrange(len(t))
        r = g.resolve_relative_nodelabel("+".join(["@%d" % a] + [arg(k) for k in ks]), t)
        if t[0] in L and g.resolve_relative_nodelabel(t[0], t) != t[0]:
            r = None
        return self.read(s=s, q=q, i=pos[t[a]], ks=ks, got=0 if r is None else pos[r])

    _specs = {}

    def spec(self, L):
        ps = ProcessorSpec.__new__(ProcessorSpec)
        ps.qubit_labels = list(L)
        ps.number_of_qubits = len(L)
        return ps


def history(rng, i):
    w = W(rng)
    for s in rng.sample([1, 2, 3, 4], rng.randint(1, 2)):
        while s not in w.g:
            w.new(s)
    for _ in range(rng.randint(5, 14)):
        s = rng.choice(sorted(w.g))
        c = rng.random()
        if c < 0.05:
            w.new(rng.randint(1, 4))
        elif c < 0.35:
            w.edit(s)
        elif c < 0.45:
            w.derive(s)
        else:
            w.query(s)
    return dict(id="g-%d" % i, ev=w.ev)


def main(chk):
    warnings.simplefilter("ignore")
    chk.mc("QubitGraphMC")
    chk.mc("QubitGraphMC", "QubitGraphMC4.cfg")
    rng = chk.rng
    for k in range(chk.n(1, 6)):
        with vf.time_limit(300):
            tr = [history(rng, i) for i in range(chk.n(2500, 6000))]
        chk.validate("QubitGraphTrace", tr, label="histories of graphs %d" % k)

    def corrupt(t):
        o = [e for e in t["ev"] if e.get("obs")][-1]["obs"][0]
        o["adj"][0][-1] = not o["adj"][0][-1]
        return t
    chk.selftest("QubitGraphTrace", tr[0], corrupt)
