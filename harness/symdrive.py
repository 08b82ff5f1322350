"""Drives the symplectic algebra, the Clifford compilers and the compilation libraries and records
what they return for CliffordAlgTrace.tla (C13)."""
import itertools, pickle, copy, warnings
import numpy as np
import vf
from stabdrive import uni
from pygsti.objects import Circuit, Label, ProcessorSpec, QubitGraph
from pygsti.objects.compilationlibrary import CompilationLibrary
from pygsti.tools import symplectic as sy, matrixmod2 as m2, internalgates as ig
from pygsti.algorithms import compilers as cp

warnings.simplefilter("ignore")
INT = {k: np.asarray(u) for k, u in ig.get_internal_gate_unitaries().items()}
STD = {k: np.asarray(u) for k, u in ig.get_standard_gatename_unitaries().items()}
PM = [np.eye(2), np.array([[1, 0], [0, -1]]), np.array([[0, 1], [1, 0]]), np.array([[0, 1], [1, 0]]) @ np.array([[1, 0], [0, -1]])]  # I Z X XZ


def kron(ms):
    r = np.eye(1)
    for m in ms:
        r = np.kron(r, m)
    return r


def tab_of(U):
    """the tableau of a unitary, or None (independent of the code under test; TLC checks it against U)"""
    n = int(round(np.log2(len(U))))
    T = []
    for c in range(2 * n):
        x, z = [0] * n, [0] * n
        (x if c < n else z)[c % n] = 1
        img = U @ kron([PM[2 * x[i] + z[i]] for i in range(n)]) @ U.conj().T
        for xs in itertools.product((0, 1), repeat=n):
            for zs in itertools.product((0, 1), repeat=n):
                Q = kron([PM[2 * xs[i] + zs[i]] for i in range(n)])
                t = np.trace(Q.conj().T @ img) / 2 ** n
                if abs(abs(t) - 1) < 1e-6:
                    T.append(dict(x=list(xs), z=list(zs), p=int(round(np.angle(t) / (np.pi / 2))) % 4))
    return T if len(T) == 2 * n else None


class Lib:
    def __init__(self):
        self.gates, self.ix = [], {}

    def add(self, key, U):
        if key not in self.ix:
            t = tab_of(np.asarray(U))
            if t is None:
                return 0
            self.gates.append(dict(name=key, u=uni(U), t=t))
            self.ix[key] = len(self.gates)
        return self.ix[key]

    def internal(self, name):
        return self.add("i:" + name, INT[name])


def tab(s, p=None):
    s = np.asarray(s)
    n = s.shape[0] // 2
    p = np.zeros(2 * n, int) if p is None else np.asarray(p)
    return [dict(x=ints(s[:n, c]), z=ints(s[n:, c]), p=int1(p[c])) for c in range(2 * n)]


def int1(v):
    r = int(round(float(v)))
    return r if abs(r - float(v)) < 1e-9 else -99


def ints(v):
    return [int1(x) for x in v]


def mat(m):
    return [ints(r) for r in np.asarray(m)]


def sp(T):
    n = len(T) // 2
    return np.array([t["x"] + t["z"] for t in T], int).T, np.array([t["p"] for t in T], int)


def same(a, b):
    if isinstance(a, (list, tuple)) and not isinstance(a, str):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b))


class Rec:
    def __init__(self, tid, rng):
        self.tid, self.rng, self.lib = tid, rng, Lib()
        self.np = np.random.RandomState(rng.randrange(2 ** 31))
        np.random.seed(rng.randrange(2 ** 31))
        self.ev = [dict(op="gates", name="", raised=False, kept=True)]

    def call(self, op, name, fn, args, out, dflt=None, kw=None, **data):
        """run fn(*args), record out(result) and whether the arguments stayed as they were"""
        args, kw = list(args), dict(kw or {})
        was = copy.deepcopy([a for a in args if isinstance(a, (np.ndarray, list, tuple))])
        e = dict(op=op, name=name, raised=False, kept=True, r=dflt if dflt is not None else [], **data)
        r = None
        try:
            with vf.time_limit(60):
                r = fn(*args, **kw)
                e["r"] = out(r)
        except vf.Timeout:
            e["raised"] = True
        except Exception as x:
            e["raised"], e["why"] = True, repr(x)[:200]
        e["kept"] = bool(same(was, [a for a in args if isinstance(a, (np.ndarray, list, tuple))]))
        self.ev.append(e)
        return r if not e["raised"] else None

    def done(self):
        return dict(id=self.tid, gates=self.lib.gates, ev=self.ev)


def cliff(rec, n, words=None):
    """a Clifford made by our own arithmetic: random gates on tableaux (as matrices and phases of the code's convention)"""
    T = ident(n)
    for _ in range(rec.rng.randrange(0, 6 * n + 2)):
        T = step(T, *rand_gate(rec.rng, n))
    return sp(T)


def ident(n):
    return [dict(x=[int(i == c) for i in range(n)], z=[int(i == c - n) for i in range(n)], p=0) for c in range(2 * n)]


def rand_gate(rng, n):
    g = rng.choice(["H", "P", "X", "Z", "CNOT", "CNOT", "SWAP", "CPHASE", "HP"] if n > 1 else ["H", "P", "X", "Z", "HP"])
    return g, rng.sample(range(n), 2 if g in ("CNOT", "SWAP", "CPHASE") else 1)


_tabs = {}


def gtab(g):
    if g not in _tabs:
        _tabs[g] = tab_of(INT[g])
    return _tabs[g]


def step(T, g, q):
    """gate g on qubits q after T (own arithmetic)"""
    G, k = gtab(g), len(q)
    out = []
    for P in T:
        x, z, p = [0] * k, [0] * k, 0
        for j in [j for j in range(k) if P["x"][q[j]]] + [k + j for j in range(k) if P["z"][q[j]]]:
            p = (p + G[j]["p"] + 2 * sum(a * b for a, b in zip(z, G[j]["x"]))) % 4
            x, z = [(a + b) % 2 for a, b in zip(x, G[j]["x"])], [(a + b) % 2 for a, b in zip(z, G[j]["z"])]
        px, pz = list(P["x"]), list(P["z"])
        for j in range(k):
            px[q[j]], pz[q[j]] = x[j], z[j]
        out.append(dict(x=px, z=pz, p=(P["p"] + p) % 4))
    return out


def gate_seq(rec, gs):
    return [dict(g=rec.lib.internal(g), q=[i + 1 for i in q]) for g, q in gs]


def word_target(path, n):
    T = ident(n)
    for g, q in path:
        T = step(T, g, [i - 1 for i in q])
    return T


# ---------------------------------------------------------------- algebra
def algebra(tid, rng, k=14):
    rec = Rec(tid, rng)
    for _ in range(k):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        c = rng.choice(["compose", "inverse", "kron", "embed", "valid", "phases", "pauli", "circ", "line", "order", "sampled",
                        "fromU", "bits", "issymp", "inversemat", "layer", "globalgate"])
        (s1, p1), (s2, p2) = cliff(rec, n), cliff(rec, n)
        if rng.random() < .3:
            with vf.time_limit(20):
                s1, p1 = sy.random_clifford(n)
            if not np.array_equal(s1 % 2, s1):
                continue
        t1, t2 = tab(s1, p1), tab(s2, p2)
        out = lambda r: tab(*r)
        if c == "compose":
            rec.call(c, "", sy.compose_cliffords, [s1, p1, s2, p2], out, a=t1, b=t2)
        elif c == "inverse":
            rec.call(c, "", sy.inverse_clifford, [s1, p1], out, a=t1)
        elif c == "inversemat":
            rec.call(c, "", sy.inverse_symplectic, [s1], lambda r: tab(r), a=t1)
        elif c == "kron":
            f = [cliff(rec, rng.choice([1, 1, 2])) for _ in range(rng.randrange(1, 4))]
            rec.call(c, "", sy.symplectic_kronecker, [f], out, ts=[tab(*x) for x in f])
        elif c == "embed":
            N = n + rng.randrange(0, 3)
            q = rng.sample(range(N), n)
            rec.call(c, "", sy.embed_clifford, [s1, p1, q, N], out, a=t1, q=[i + 1 for i in q], n=N)
        elif c == "valid":
            s, p = s1.copy(), p1.copy()
            kind = rng.randrange(3)
            if kind == 1:
                p[rng.randrange(2 * n)] += 1
                p %= 4
            elif kind == 2:
                s[rng.randrange(2 * n), rng.randrange(2 * n)] ^= 1
            rec.call(c, "", sy.check_valid_clifford, [s, p], bool, dflt=False, a=tab(s, p))
        elif c == "phases":
            p = rec.np.randint(0, 4, 2 * n)
            rec.call(c, "", sy.construct_valid_phase_vector, [s1, p], lambda r: tab(s1, r), a=tab(s1, p))
        elif c == "pauli":
            want = p1.copy()
            for i in range(2 * n):
                want[i] = (want[i] + 2 * rng.randrange(2)) % 4
            labels = rng.choice([None, ["Q%d" % i for i in range(n)], rng.sample(range(20), n)])
            pre = rng.random() < .5
            ql = list(range(n)) if labels is None else labels

            def lay(r, ql=ql):
                d = {tuple(l)[1]: tuple(l)[0] for l in r}
                assert len(r) == len(d)
                return [d.get(q, "I") for q in ql]
            e = dict(pre=pre, a=t1, want=tab(s1, want))
            r = rec.call(c, "before" if pre else "after", sy.find_premultipled_pauli if pre else sy.find_postmultipled_pauli,
                         [s1, p1, want], lay, kw=dict(qubit_labels=labels), **e)
            rec.ev[-1]["s"] = rec.ev[-1].pop("r")
        elif c in ("circ", "layer", "globalgate"):
            labels = rng.choice([list(range(n)), ["Q%d" % i for i in range(n)], rng.sample(range(20), n)])
            if c == "layer":
                free, comps = rng.sample(range(n), n), []
                while free and rng.random() < .85:
                    g = rng.choice(sorted(INT))
                    k2 = int(np.log2(len(INT[g])))
                    if k2 <= len(free):
                        comps.append((g, [free.pop() for _ in range(k2)]))
                lay = [Label(g, tuple(labels[i] for i in q)) for g, q in comps]
                lay = lay[0] if len(lay) == 1 and rng.random() < .5 else tuple(lay)
                f = lambda lay, n, labels: sy.symplectic_rep_of_clifford_layer(lay, n, labels)
                rec.call("circ", "layer", lambda: f(Label(lay) if not isinstance(lay, Label) else lay, n, labels), [], out,
                         gs=gate_seq(rec, comps), n=n)
            elif c == "circ":
                gs = [rand_gate(rng, n) if rng.random() < .7 else (rng.choice([g for g in sorted(INT) if len(INT[g]) == 2]), [rng.randrange(n)])
                      for _ in range(rng.randrange(0, 12))]
                par = rng.random() < .5

                def f():
                    ci = Circuit([Label(g, tuple(labels[i] for i in q)) for g, q in gs], line_labels=labels)
                    return sy.symplectic_rep_of_clifford_circuit(ci.parallelize() if par else ci)
                rec.call("circ", "", f, [], out, gs=gate_seq(rec, gs), n=n)
            else:   # a user-supplied operation on all the lines
                gs = [rand_gate(rng, n) for _ in range(rng.randrange(1, 4))]

                def f():
                    ci = Circuit([Label("Gall")] + [Label(g, tuple(labels[i] for i in q)) for g, q in gs], line_labels=labels)
                    return sy.symplectic_rep_of_clifford_circuit(ci, srep_dict={"Gall": (s1, p1)})
                g0 = [g for g in [rand_gate(rng, n) for _ in range(3)]]
                T = ident(n)
                for g in g0:
                    T = step(T, *g)
                s1, p1 = sp(T)
                if n > 1:
                    rec.call("circ", "operation on all lines", f, [], out, gs=gate_seq(rec, g0 + gs), n=n)
        elif c == "line":
            g, q = rng.choice([("H", 1), ("P", 1), ("CNOT", 2), ("SWAP", 2)])
            if q > n:
                continue
            q = rng.sample(range(n), q)
            col = rng.random() < .5
            s = s1.copy()
            rec.call(c, g + (" columns" if col else " rows"), lambda: (sy.apply_internal_gate_to_symplectic(s, g, q, "column" if col else "row"), s)[1],
                     [], lambda r: tab(r), a=t1, g=rec.lib.internal(g), q=[i + 1 for i in q], col=col)
        elif c == "order":
            std = rng.random() < .5
            rec.call(c, "", sy.change_symplectic_form_convention, [s1, "standard" if std else "directsum"], mat, m=mat(s1), std=std)
        elif c == "sampled":
            w = rng.randrange(4)
            if w == 0:
                rec.call("sampled", "random_clifford", sy.random_clifford, [n], out, n=n)
            elif w == 1:
                rec.call("sampled", "random_phase_vector", sy.random_phase_vector, [s1, n], lambda r: tab(s1, r), n=n)
            else:
                std = w == 2
                rec.call("sampledmat", "", sy.random_symplectic_matrix, [n, "standard" if std else "directsum"], mat, n=n, std=std)
        elif c == "issymp":
            std = rng.random() < .5
            m = s1.copy() if std else np.array(sy.change_symplectic_form_convention(s1, "directsum"))
            if rng.random() < .5:
                m[rng.randrange(2 * n), rng.randrange(2 * n)] ^= 1
            rec.call(c, "", sy.check_symplectic, [m, "standard" if std else "directsum"], bool, dflt=False, m=mat(m), std=std)
        elif c == "fromU":
            U = rand_unitary(rng)
            cl = tab_of(U) is not None
            flag = rng.random() < .5
            e = dict(u=uni(U))
            if rng.random() < .3:
                r = rec.call(c, "is a Clifford", sy.unitary_is_a_clifford, [U], lambda r: tab_of(U) if r else [], **e)
                rec.ev[-1]["clifford"] = bool(r)
                if r and not cl:     # nothing realises a unitary that is no Clifford
                    rec.ev[-1]["r"] = ident(len(U) // 2)
            else:
                def f(U):
                    try:
                        return sy.unitary_to_symplectic(U, flag)
                    except ValueError:
                        return (None, None)
                r = rec.call(c, "", f, [U], lambda r: [] if r[0] is None else tab(*r), **e)
                rec.ev[-1]["clifford"] = bool(r is not None and r[0] is not None)
        elif c == "bits":
            p = np.zeros(2 * n, int)
            for i in range(2 * n):
                p[i] = rng.choice([0, 2])
            rec.call(c, "", sy.bitstring_for_pauli, [p], lambda r: ints(r), p=ints(p))
    return rec.done()


def rand_unitary(rng):
    """a product of gates whose entries are 0 or w^j/2^(k/2)"""
    for _ in range(50):
        n = rng.choice([1, 1, 2, 2])
        U = np.eye(2 ** n)
        for _ in range(rng.randrange(0, 7)):
            if n == 2 and rng.random() < .4:
                U = INT[rng.choice(["CNOT", "CPHASE", "SWAP"])] @ U if rng.random() < .85 else np.diag([1, 1, 1, 1j]) @ U
            else:
                g = rng.choice(["Gh", "Gp", "Gxpi2", "Gypi2", "Gxpi", "Gzpi", "Gc5", "Gc17"] + (["Gt"] if rng.random() < .4 else []))
                U = kron([STD[g] if i == j else np.eye(2) for i in range(n) for j in [rng.randrange(n)]]) @ U if n == 1 else \
                    (np.kron(STD[g], np.eye(2)) if rng.random() < .5 else np.kron(np.eye(2), STD[g])) @ U
        U = U * np.exp(1j * np.pi / 4 * rng.randrange(8))
        try:
            uni(U)
            return U
        except AssertionError:
            continue
    return np.eye(2)


def words(tid, rng, scripts):
    """enumerated Cliffords through every conversion"""
    rec = Rec(tid, rng)
    for sc in scripts:
        n, path = sc["n"], [(g, tuple(q)) for g, q in sc["path"]]
        T = word_target(path, n)
        s, p = sp(T)
        gs = [(g, [i - 1 for i in q]) for g, q in path]
        labels = rng.choice([list(range(n)), ["Q%d" % i for i in range(n)]])
        rec.call("circ", "enumerated", lambda: sy.symplectic_rep_of_clifford_circuit(
            Circuit([Label(g, tuple(labels[i] for i in q)) for g, q in gs], line_labels=labels)), [], lambda r: tab(*r), gs=gate_seq(rec, gs), n=n)
        rec.call("inverse", "enumerated", sy.inverse_clifford, [s, p], lambda r: tab(*r), a=T)
        U = np.eye(2 ** n)
        for g, q in gs:
            U = embedU(INT[g], q, n) @ U
        r = rec.call("fromU", "enumerated", sy.unitary_to_symplectic, [U], lambda r: tab(*r), u=uni(U), clifford=True)
    return rec.done()


def embedU(G, q, n):
    N, k = 2 ** n, len(q)
    M = np.zeros((N, N), complex)
    bit = lambda b, i: (b >> (n - 1 - i)) & 1
    for b in range(N):
        a = sum(bit(b, q[j]) << (k - 1 - j) for j in range(k))
        for r in range(2 ** k):
            if G[r, a] != 0:
                o = b
                for j in range(k):
                    v = (r >> (k - 1 - j)) & 1
                    o = (o & ~(1 << (n - 1 - q[j]))) | (v << (n - 1 - q[j]))
                M[o, b] += G[r, a]
    return M


def tables(tid, rng):
    """internal gates, relations of the one-qubit gates, numbering of the symplectic group, numbers of elements"""
    rec = Rec(tid, rng)
    reps = sy.get_internal_gate_symplectic_representations()
    for g in INT:
        rec.call("table", g, lambda g=g: sy.get_internal_gate_symplectic_representations([g] if rng.random() < .3 else None)[g], [],
                 lambda r: tab(*r), g=rec.lib.internal(g))
    rel = sy.oneQclifford_symplectic_group_relations()
    one = ["I", "H", "P", "HP", "PH", "HPH"]
    rec.ev.append(dict(op="rel", name="internal, up to Paulis", raised=False, kept=True, paulis=True, one=[rec.lib.internal(g) for g in one], all=[], inv=[],
                       rels=[[rec.lib.internal(a), rec.lib.internal(b), rec.lib.internal(c)] for (a, b), c in rel.items()]))
    for n in (1, 2):
        def f():
            N = sy.numberofsymplectic(n)
            ms = [sy.get_symplectic_matrix(i, n) for i in range(N)]
            return ms, [int(sy.get_symplectic_label(m, n if rng.random() < .5 else None)) for m in ms], N
        e = dict(op="group", name=str(n), raised=False, kept=True, n=n, ms=[], labels=[], count=0)
        try:
            ms, lb, N = f()
            e.update(ms=[mat(m) for m in ms], labels=lb, count=int(N))
        except Exception as x:
            e.update(raised=True, why=repr(x))
        rec.ev.append(e)
    for n in (1, 2, 3):
        rec.ev.append(dict(op="count", name=str(n), raised=False, kept=True, n=n, symp=int(sy.numberofsymplectic(n)), cliff=int(sy.numberofcliffords(n))))
    return rec.done()


# ---------------------------------------------------------------- matrices mod 2
def gl2(rec, n):
    while True:
        M = rec.np.randint(0, 2, (n, n))
        if int(round(np.linalg.det(M))) % 2:
            return M


def matrices(tid, rng, k=14):
    rec = Rec(tid, rng)
    for _ in range(k):
        n = rng.randrange(1, 6)
        w = rng.choice(["mul", "mul2", "det", "inv", "solve", "sum", "square", "ones", "perm", "checkperm", "rinv", "rsym", "rbits"])
        A, B = rec.np.randint(0, 2, (n, n)), rec.np.randint(0, 2, (n, n))
        G = gl2(rec, n)
        S = G @ G.T % 2
        call = lambda what, fn, args, out, **d: rec.call("mat", what, fn, args, out, what=what, **d)
        if w == "mul":
            call("mul", m2.dotmod2, [A, B], mat, ms=[mat(A), mat(B)])
        elif w == "mul2":
            C = [rec.np.randint(0, 2, (n, n)) for _ in range(rng.randrange(2, 5))]
            call("mul", m2.multidotmod2, [C], mat, ms=[mat(c) for c in C])
        elif w == "det":
            call("det", m2.detmod2, [A], int1, dflt=0, ms=[mat(A)])
        elif w == "inv":
            call("inv", m2.inv_mod2, [G], mat, ms=[mat(G)])
        elif w == "solve":
            b = rec.np.randint(0, 2, n)
            call("solve", m2.Axb_mod2, [G, b], mat, ms=[mat(G), mat(b.reshape(-1, 1))])
        elif w == "sum":
            C = rec.np.randint(0, 2, (rng.randrange(1, 4),) * 2)
            call("sum", m2.matrix_directsum, [A, C], mat, ms=[mat(A), mat(C)])
        elif w == "square":
            if int(np.trace(S)) == 0 and False:
                continue
            call("square", m2.albert_factor, [S], mat, ms=[mat(S)])
        elif w == "ones":
            call("ones", m2.onesify, [S], mat, ms=[mat(S)])
        elif w in ("perm", "checkperm"):
            try:
                N = np.asarray(m2.onesify(S), int)
                D = N @ S @ N.T % 2
            except Exception:
                continue
            if w == "perm":
                # fix_top may give up on a matrix that has no such permutation: only the successes are judged
                try:
                    P = m2.proper_permutation(D)
                    if not m2.check_proper_permutation(m2.multidotmod2([P, D, P.T])):
                        continue
                except (AssertionError, np.linalg.LinAlgError):
                    continue
                except Exception:
                    pass
                call("perm", m2.proper_permutation, [D], mat, ms=[mat(D)])
            else:
                call("checkperm", m2.check_proper_permutation, [D], bool, dflt=False, ms=[mat(D)])
        elif w == "rinv":
            call("rinv", m2.random_invertable_matrix, [n], mat, n=n, ms=[])
        elif w == "rsym":
            call("rsym", m2.random_symmetric_invertable_matrix, [n], mat, n=n, ms=[])
        elif w == "rbits":
            par = rng.randrange(2)
            call("rbits", m2.random_bitstring, [n, par], ints, n=n, par=par, ms=[])
    return rec.done()


# ---------------------------------------------------------------- processors and compilers
SETS = [["Gh", "Gp", "Gxpi", "Gcnot"], ["Gxpi2", "Gypi2", "Gcnot"], ["Gh", "Gp", "Gxpi", "Gcphase"], ["Gxpi2", "Gypi2", "Gcphase"],
        ["Gc%d" % i for i in range(24)] + ["Gcnot"], ["Gh", "Gp", "Gpdag", "Gxpi", "Gzpi", "Gcnot", "Gswap"], ["Gi", "Gh", "Gp", "Gxpi", "Gcnot"]]
SLOW = [["Gi", "Gh", "Gp", "Gxpi", "Gypi", "Gzpi", "Gcphase"], ["Gxpi2", "Gxmpi2", "Gypi2", "Gympi2", "Gcphase"], ["Gxpi2", "Gzpi2", "Gcphase"]]


def edges(rng, n, labels):
    """pairs of connected qubits: a random tree, a line, a ring, a star, all; some only one way"""
    kind = rng.choice(["line", "ring", "star", "tree", "all", "random"])
    ix = rng.sample(range(n), n)
    if kind == "all":
        E = [(i, j) for i in range(n) for j in range(i)]
    elif kind == "line" or n < 3 and kind == "ring":
        E = list(zip(ix, ix[1:]))
    elif kind == "ring":
        E = list(zip(ix, ix[1:] + ix[:1]))
    elif kind == "star":
        E = [(ix[0], j) for j in ix[1:]]
    else:
        E = [(ix[i], rng.choice(ix[:i])) for i in range(1, n)]
        if kind == "random":
            E += [tuple(rng.sample(range(n), 2)) for _ in range(rng.randrange(3))] if n > 1 else []
    E = sorted(set(map(tuple, E)))
    way = rng.choice(["both", "one", "mixed"])
    R = []
    for a, b in E:
        if way == "both" or way == "mixed" and rng.random() < .5:
            R += [(a, b), (b, a)]
        else:
            R.append((a, b) if rng.random() < .5 else (b, a))
    return sorted(set((labels[a], labels[b]) for a, b in R), key=str)


class Proc:
    """a processor and what it offers"""
    def __init__(self, rng, n=None, slow=False):
        self.n = n = n or rng.choice([1, 2, 2, 3, 3, 4, 4, 5])
        self.labels = rng.choice([list(range(n)), rng.sample(range(30), n), ["Q%d" % i for i in rng.sample(range(9), n)]])
        names = list(rng.choice(SETS + SLOW if slow and n < 4 else SETS))
        if n == 1:
            names = [g for g in names if len(STD[g]) == 2]
        rng.shuffle(names)
        self.names, av, self.av = names, {}, {}
        for g in sorted(names, key=lambda g: g == "Gswap"):
            if len(STD[g]) == 4:
                es = edges(rng, n, self.labels) if g != "Gswap" else self.av["Gcnot"]
                if any(x in names for x in ("Gh", "Gc0")) is False and rng.random() < .6 or "Gswap" == g:
                    es = sorted(set(es) | {(b, a) for a, b in es}, key=str)
                av[g] = es
                self.av[g] = es
            else:
                self.av[g] = [(q,) for q in self.labels]
        if rng.random() < .2 and n > 1:
            for g in list(av):
                if g in ("Gcnot", "Gcphase"):
                    av[g] = rng.choice(["all-permutations", "all-combinations"])
                    self.av[g] = list(itertools.permutations(self.labels, 2)) if av[g] == "all-permutations" else list(itertools.combinations(self.labels, 2))
        self.avspec = av
        self.pspec = None

    def build(self):
        with vf.time_limit(120):
            self.pspec = ProcessorSpec(self.n, self.names, availability=self.avspec, qubit_labels=self.labels, verbosity=0)
        return self

    def allowed(self, rec, qubits):
        """(index, qubits) pairs within `qubits`, numbered by the order of `qubits`"""
        return [dict(g=rec.lib.add(g, STD[g]), q=[qubits.index(x) + 1 for x in q]) for g in self.names if g != "Gt" for q in self.av[g] if all(x in qubits for x in q)]

    def graph(self, qubits=None):
        qs = list(qubits or self.labels)
        es = {frozenset(e) for g in self.av if len(STD[g]) == 4 for e in self.av[g]}
        return qs, es

    def connected(self, qs):
        _, es = self.graph()
        seen, todo = {qs[0]}, [qs[0]]
        while todo:
            a = todo.pop()
            for b in qs:
                if b not in seen and frozenset((a, b)) in es:
                    seen.add(b)
                    todo.append(b)
        return len(seen) == len(qs)


def layers(rec, c, qubits, names):
    """the circuit as layers of [g, q]; names: function gate name -> index"""
    out = []
    for i in range(c.depth()):
        lay = []
        for l in c.get_layer_label(i).components:
            qs = l.sslbls if l.sslbls is not None else ()
            lay.append(dict(g=names(l.name), q=[qubits.index(q) + 1 if q in qubits else 0 for q in qs]))
        out.append(lay)
    return out


def canon_names(rec):
    return lambda name: rec.lib.internal(name) if name in INT else 0


def native_names(rec, proc):
    return lambda name: rec.lib.add(name, STD[name]) if name in proc.names else 0


def canonical(rec, n, ones=("I", "X", "Y", "Z", "H", "P", "HP", "PH", "HPH")):
    return [dict(g=rec.lib.internal(g), q=[i + 1]) for g in ones for i in range(n)] + \
           [dict(g=rec.lib.internal("CNOT"), q=[i + 1, j + 1]) for i in range(n) for j in range(n) if i != j]


def record(rec, kind, name, fn, args, kw, n, qubits, target, allowed, names, limit=60):
    was = copy.deepcopy([a for a in args if isinstance(a, (np.ndarray, list))] + [v for v in kw.values() if isinstance(v, (np.ndarray, list))])
    e = dict(op="compile", kind=kind, name=name, raised=False, kept=True, n=n, lays=[], lines=[], target=target, allowed=allowed)
    try:
        with vf.time_limit(limit):
            c = fn(*args, **kw)
        e["lays"] = layers(rec, c, list(qubits), names)
        e["lines"] = [list(qubits).index(q) + 1 if q in qubits else 0 for q in c.line_labels]
    except vf.Timeout:
        raise vf.MachineryError("compilation took more than %d s" % limit)
    except Exception as x:
        e["raised"], e["why"] = True, repr(x)[:200]
    e["kept"] = bool(same(was, [a for a in args if isinstance(a, (np.ndarray, list))] + [v for v in kw.values() if isinstance(v, (np.ndarray, list))]))
    rec.ev.append(e)
    return e


def cnot_target(rng, n):
    T = ident(n)
    if n > 1:
        for _ in range(rng.randrange(0, 3 * n)):
            T = step(T, "CNOT", rng.sample(range(n), 2))
    return T


def one_way_order(rng, proc, qubits):
    """an elimination order that leaves the remaining qubits connected"""
    order, left = [], list(qubits)
    while left:
        ok = [q for q in left if len(left) == 1 or proc.connected([x for x in left if x != q])]
        q = rng.choice(ok)
        order.append(q)
        left.remove(q)
    return order


def compiles(tid, rng, proc, k=6):
    """random requests to the compilers for one processor"""
    rec = Rec(tid, rng)
    for _ in range(k):
        sub = rng.random() < .5
        if sub:
            qs = [rng.choice(proc.labels)]
            size = rng.randrange(1, proc.n + 1)
            while len(qs) < size:
                qs.append(rng.choice([q for q in proc.labels if q not in qs and proc.connected(qs + [q])]))
            rng.shuffle(qs)
        else:
            qs = list(proc.labels)
        n = len(qs)
        ql = qs if sub else None
        if sub and rng.random() < .3:
            ql = tuple(qs)
        s, p = cliff(rec, n)
        T = tab(s, p)
        al, nm = proc.allowed(rec, qs), native_names(rec, proc)
        cost = rng.choice(["2QGC", "depth", "2QGC:10:depth:1"])
        w = rng.choice(["clifford", "clifford", "clifford0", "symplectic", "state", "meas", "meas", "cnot", "cnotcl", "cond", "symplectic0"])
        it = rng.choice([1, 2, 3])
        pr = rng.random() < .4
        kw = dict(pspec=proc.pspec, qubit_labels=ql, iterations=it, costfunction=cost)
        cnots = ["BGE", "OCAGE", "OiCAGE", "ROCAGE", "COCAGE", "COiCAGE"]
        if w == "clifford":
            alg = rng.choice(["BGGE", "ROGGE", "iAGvGE"])
            record(rec, "exact", "compile_clifford " + alg + (" randomized" if pr else ""), cp.compile_clifford, [s, p],
                   dict(kw, algorithm=alg, prefixpaulis=rng.random() < .5, paulirandomize=pr), n, qs, T, al, nm)
        elif w == "clifford0":
            alg = rng.choice(["BGGE", "ROGGE"])
            record(rec, "exact", "compile_clifford without processor " + alg + (" randomized" if pr else ""), cp.compile_clifford, [s, p],
                   dict(iterations=it, algorithm=alg, costfunction=cost, prefixpaulis=rng.random() < .5, paulirandomize=pr), n, list(range(n)), T,
                   canonical(rec, n), canon_names(rec))
        elif w == "symplectic":
            algs = rng.choice([["BGGE"], ["ROGGE"], ["iAGvGE"], ["BGGE", "ROGGE"], ["iAGvGE", "ROGGE", "BGGE"]])
            record(rec, "paulis", "compile_symplectic " + "+".join(algs) + (" randomized" if pr else ""), cp.compile_symplectic, [s],
                   dict(kw, algorithms=algs, paulirandomize=pr, check=rng.random() < .5), n, qs, T, al, nm)
        elif w == "symplectic0":
            algs = rng.choice([["BGGE"], ["ROGGE"], ["BGGE", "ROGGE"]])
            record(rec, "paulis", "compile_symplectic without processor " + "+".join(algs) + (" randomized" if pr else ""), cp.compile_symplectic, [s],
                   dict(iterations=it, algorithms=algs, paulirandomize=pr, costfunction=cost), n, list(range(n)), T, canonical(rec, n), canon_names(rec))
        elif w in ("state", "meas"):
            alg = rng.choice(["BGE", "ROCAGE", "COCAGE", "COiCAGE", "OCAGE", "OiCAGE"])
            a = dict(kw, algorithm=alg, paulirandomize=pr)
            if alg in ("OCAGE", "OiCAGE"):
                a["aargs"] = [one_way_order(rng, proc, qs)]
            record(rec, w, ("compile_stabilizer_state " if w == "state" else "compile_stabilizer_measurement ") + alg + (" randomized" if pr else ""),
                   cp.compile_stabilizer_state if w == "state" else cp.compile_stabilizer_measurement, [s, p], a, n, qs, T, al, nm)
        elif w in ("cnot", "cnotcl"):
            alg = rng.choice(cnots)
            if n == 1 and alg not in ("BGE",):
                pass
            T = cnot_target(rng, n)
            s, p = sp(T)
            a = dict(qubit_labels=ql, algorithm=alg, check=rng.random() < .5)
            if alg in ("OCAGE", "OiCAGE"):
                a["aargs"] = [one_way_order(rng, proc, qs)]
            if w == "cnot":
                record(rec, "exact", "compile_cnot_circuit " + alg, cp.compile_cnot_circuit, [s, proc.pspec], a, n, qs, T,
                       canonical(rec, n, ()), canon_names(rec))
            else:
                record(rec, "paulis", "compile_cnot_circuit " + alg + " to native gates", cp.compile_cnot_circuit, [s, proc.pspec], dict(a, clname="paulieq"),
                       n, qs, T, al, nm)
        elif w == "cond":
            alg = rng.choice(["BGE", "ROCAGE", "COCAGE", "COiCAGE"])
            e = dict(op="layers", name="compile_conditional_symplectic " + alg, raised=False, kept=True, n=n, lays=[], lines=[], first=[], target=T,
                     allowed=canonical(rec, n))
            was = s.copy()
            try:
                with vf.time_limit(60):
                    c2, c1 = cp.compile_conditional_symplectic(s, proc.pspec, ql, calg=alg, check=rng.random() < .5)
                e["lays"] = layers(rec, c2, qs, canon_names(rec))
                e["first"] = [g for lay in layers(rec, c1, qs, lambda nm: rec.lib.internal("CNOT") if nm == "CNOT" else 0) for g in lay]
                e["lines"] = [qs.index(q) + 1 if q in qs else 0 for q in c2.line_labels]
                if any(g["g"] == 0 for g in e["first"]):
                    e["raised"], e["why"] = True, "first circuit is not of CNOTs"
            except Exception as x:
                e["raised"], e["why"] = True, repr(x)[:200]
            e["kept"] = bool(np.array_equal(was, s))
            rec.ev.append(e)
    return rec.done()


def library(tid, rng, proc, k=30):
    """what the libraries of a processor hold; requests for compilations under filters; the relations the processor records"""
    rec = Rec(tid, rng)
    qs, ps = list(proc.labels), proc.pspec
    n = proc.n
    nm = native_names(rec, proc)

    def target(l):
        G, q = gtab(l.name), [qs.index(x) for x in l.sslbls]
        return tab_embed(l.name, q, n)
    keep = lambda kind: "exact" if kind == "absolute" else "paulis"
    items = [(ct, l, c) for ct, lb in ps.compilations.items() for l, c in lb.items() if isinstance(l, Label)]
    for ct, l, c in rng.sample(items, min(k, len(items))):
        al = proc.allowed(rec, qs)
        if len(l.sslbls) == 1:
            al = [x for x in al if all(qs[i - 1] in l.sslbls for i in x["q"])]
        e = dict(op="compile", kind=keep(ct), name="library entry %s %s" % (ct, l.name), raised=False, kept=True, n=n, lays=layers(rec, c, qs, nm),
                 lines=[qs.index(q) + 1 for q in c.line_labels], target=target(l), allowed=al)
        if len(c.line_labels) != n:
            e["lines"] = list(range(1, n + 1))
        rec.ev.append(e)
    # relations
    ones = [g for g in proc.names if len(STD[g]) == 2 and g != "Gt"]
    allg = [g for g in proc.names if g != "Gt"]
    ix = lambda g: 0 if g is None else rec.lib.add(g, STD[g])
    rec.ev.append(dict(op="rel", name="processor", raised=False, kept=True, paulis=False, one=[ix(g) for g in ones], all=[ix(g) for g in allg],
                       rels=[[ix(a), ix(b), ix(c)] for (a, b), c in ps.oneQgate_relations.items() if "Gt" not in (a, b, c)],
                       inv=[[ix(a), ix(b)] for a, b in ps.gate_inverse.items() if "Gt" not in (a, b)]))
    return rec.done()


def tab_embed(g, q, n):
    return step(ident(n), g, q)


def requests(tid, rng, proc, k=8):
    """a fresh library asked for compilations in some order, under filters, reloaded in between"""
    rec = Rec(tid, rng)
    qs, ps, n = list(proc.labels), proc.pspec, proc.n
    nm = native_names(rec, proc)
    ct = rng.choice(["paulieq", "absolute", "paulieq"])
    lib = CompilationLibrary(ps.models["clifford"], ct)
    if "CNOT" in ps.compilations["paulieq"].templates and ct == "paulieq":
        lib.templates["CNOT"] = list(ps.compilations["paulieq"].templates["CNOT"])
    _, es = proc.graph()
    if ct == "paulieq" and n > 1:
        # the local CNOTs first: the non-local ones are made of them
        for a, b in itertools.permutations(qs, 2):
            if frozenset((a, b)) in es:
                try:
                    lib.add_local_compilation_of(Label("CNOT", (a, b)), verbosity=0)
                except Exception:
                    return rec.done()
    for _ in range(k):
        w = rng.random()
        if w < .1:
            lib = pickle.loads(pickle.dumps(lib)) if rng.random() < .5 else copy.deepcopy(lib)
            continue
        if w < .5 or n < 3 or ct == "absolute":
            g = rng.choice(["I", "X", "Y", "Z", "H", "P", "HP", "PH", "HPH", "C3", "C14", "C23"])
            l = Label(g, rng.choice(qs))
            f = rng.choice(["get", "add"])
            force = rng.random() < .3
            if f == "get":
                fn = lambda: lib.get_local_compilation_of(l, force=force, verbosity=0)
            else:
                def fn():
                    lib.add_local_compilation_of(l, force=force, verbosity=0)
                    return lib[l]
            al = [x for x in proc.allowed(rec, qs) if all(qs[i - 1] in l.sslbls for i in x["q"])]
            if not generates(proc, g, ct):
                continue
            record(rec, "exact" if ct == "absolute" else "paulis", "%s_local_compilation_of %s" % (f, ct), fn, [], {}, n, qs, tab_embed(g, [qs.index(l.sslbls[0])], n), al, nm)
        else:
            a, b = rng.sample(qs, 2)
            l = Label("CNOT", (a, b))
            sub = None
            if rng.random() < .7:
                sub = {a, b} | set(rng.sample(qs, rng.randrange(0, n - 1)))
                if not proc.connected([q for q in qs if q in sub]):
                    sub = None
            direct = frozenset((a, b)) in es
            f = rng.choice(["get", "add", "getany", "addany"]) if not direct else rng.choice(["getany", "addany"])
            force = rng.random() < .2
            if f == "get":
                fn = lambda: lib.get_nonlocal_compilation_of(l, force=force, allowed_filter=sub, verbosity=0)
            elif f == "add":
                def fn():
                    lib.add_nonlocal_compilation_of(l, force=force, allowed_filter=sub, verbosity=0)
                    return lib.get_nonlocal_compilation_of(l, allowed_filter=sub, verbosity=0)
            elif f == "getany":
                fn = lambda: lib.get_compilation_of(l, force=force, allowed_filter=sub, verbosity=0)
            else:
                def fn():
                    lib.add_compilation_of(l, force=force, allowed_filter=sub, verbosity=0)
                    return lib.get_compilation_of(l, allowed_filter=sub, verbosity=0)
            al = [x for x in proc.allowed(rec, qs) if sub is None or all(qs[i - 1] in sub for i in x["q"])]
            record(rec, "paulis", f + "_compilation_of CNOT" + (" within some qubits" if sub else ""), fn, [], {}, n, qs,
                   tab_embed("CNOT", [qs.index(a), qs.index(b)], n), al, nm)
    return rec.done()


_gen = {}


def generates(proc, g, ct):
    """whether the one-qubit gates of the processor make g (up to Paulis), within the length the search may use"""
    ones = tuple(sorted(x for x in proc.names if len(STD[x]) == 2 and x != "Gt"))
    key = (ones, g, ct)
    if key not in _gen:
        norm = lambda T: str([(t["x"], t["z"]) + ((t["p"],) if ct == "absolute" else ()) for t in T])
        want, seen, layer = norm(gtab(g)), {norm(ident(1))}, [ident(1)]
        ok = want in seen
        for _ in range(6):
            nxt = []
            for T in layer:
                for x in ones:
                    _tabs.setdefault(x, tab_of(STD[x]))
                    R = step(T, x, [0])
                    if norm(R) not in seen:
                        seen.add(norm(R))
                        nxt.append(R)
            layer = nxt
            ok = ok or want in seen
        _gen[key] = ok
    return _gen[key]


def corrupt(t):
    """another phase in what one exact compilation should do"""
    for e in t["ev"]:
        if e["op"] == "compile" and e["kind"] == "exact" and not e["raised"] and e["lays"]:
            e["target"][0]["p"] = (e["target"][0]["p"] + 2) % 4
            return t
    return None
