"""Samples randomized-benchmarking circuits with the real code and records them for RandCircTrace.tla (C14)."""
import itertools, copy
import numpy as np
import vf
import symdrive as S
from symdrive import Rec, Proc, STD
from pygsti.objects import Circuit, Label, DataSet, ProcessorSpec
from pygsti.algorithms import randomcircuit as rc
from pygsti.protocols import rb, ProtocolData
from pygsti.tools import rbtools
import pygsti.tools.group as group

INV = {"Gi": "Gi", "Gh": "Gh", "Gp": "Gpdag", "Gpdag": "Gp", "Gxpi": "Gxpi", "Gypi": "Gypi", "Gzpi": "Gzpi", "Gcnot": "Gcnot", "Gcphase": "Gcphase", "Gswap": "Gswap",
       "Gxpi2": "Gxmpi2", "Gxmpi2": "Gxpi2", "Gypi2": "Gympi2", "Gympi2": "Gypi2"}
for a, b in itertools.product(range(24), repeat=2):
    P = STD["Gc%d" % a] @ STD["Gc%d" % b]
    if abs(abs(np.trace(P)) - 2) < 1e-9:
        INV["Gc%d" % a] = "Gc%d" % b
MSETS = [["Gh", "Gp", "Gpdag", "Gxpi", "Gypi", "Gzpi", "Gcnot"], ["Gi", "Gxpi2", "Gxmpi2", "Gypi2", "Gympi2", "Gcnot"], ["Gc%d" % i for i in range(24)] + ["Gcnot"],
         ["Gh", "Gp", "Gpdag", "Gxpi", "Gzpi", "Gcnot", "Gswap"], ["Gh", "Gp", "Gpdag", "Gcnot"], ["Gi", "Gh", "Gp", "Gpdag", "Gxpi", "Gypi", "Gzpi", "Gcnot"]]


def proc(rng, n=None, sets=None, full=False):
    """a processor whose gates all have inverses among them"""
    p = Proc.__new__(Proc)
    p.n = n = n or rng.choice([1, 2, 2, 3, 3, 4])
    p.labels = rng.choice([list(range(n)), rng.sample(range(30), n), ["Q%d" % i for i in rng.sample(range(9), n)]])
    names = list(rng.choice(sets or MSETS))
    if n == 1:
        names = [g for g in names if len(STD[g]) == 2]
    rng.shuffle(names)
    p.names, p.av, av = names, {}, {}
    for g in sorted(names, key=lambda g: g == "Gswap"):
        if len(STD[g]) == 4:
            es = list(itertools.permutations(p.labels, 2)) if full else S.edges(rng, n, p.labels) if g != "Gswap" else p.av["Gcnot"]
            if g == "Gswap":
                es = sorted(set(es) | {(b, a) for a, b in es}, key=str)
            av[g] = p.av[g] = es
        else:
            p.av[g] = [(q,) for q in p.labels]
    p.avspec = av
    with vf.time_limit(120):
        p.pspec = ProcessorSpec(n, names, availability=av, qubit_labels=p.labels, verbosity=0,
                                construct_clifford_compilations={'paulieq': ('1Qcliffords', 'allcnots'), 'absolute': ('paulis', '1Qcliffords')})
    return p


def subset(rng, p, size=None):
    """(connected qubits in some order, what to pass as qubit_labels)"""
    if size is None and rng.random() < .4:
        return list(p.labels), rng.choice([None, None, list(p.labels)])
    qs = [rng.choice(p.labels)]
    size = size or rng.randrange(1, p.n + 1)
    while len(qs) < size:
        ok = [q for q in p.labels if q not in qs and p.connected(qs + [q])]
        if not ok:
            break
        qs.append(rng.choice(ok))
    rng.shuffle(qs)
    return qs, rng.choice([list, tuple])(qs)


def structure(rng, p):
    """disjoint connected subsets of the qubits"""
    free, out = list(p.labels), []
    while free and (not out or rng.random() < .85):
        qs = [rng.choice(free)]
        for _ in range(rng.randrange(2)):
            ok = [q for q in free if q not in qs and p.connected(qs + [q])]
            if ok:
                qs.append(rng.choice(ok))
        out.append(tuple(qs))
        free = [q for q in free if q not in qs]
    rng.shuffle(out)
    return tuple(out)


def sampler(rng, p, qs, ql, rec):
    """a sampler usable on these qubits"""
    w = rng.choice(["Qelimination", "Qelimination", "local", "co2Qgates", "edgegrab", "function"])
    ones, twos = gates(p, qs, 1), gates(p, qs, 2)
    if w == "Qelimination":
        a = rng.choice([[], [0], [1], [.5], [None], [.7, ones, twos]])
    elif w == "local":
        a = rng.choice([[], [[rng.choice([g for g in p.names if len(STD[g]) == 2])]]])
    elif w == "co2Qgates":
        a = [co2(rng, twos)[0]] + rng.choice([[], ["uniform", .5]])
    elif w == "edgegrab":
        a = [rng.choice([0, .5, 1] if any(frozenset(l.qubits) <= set(qs) for l in twos) else [0])]
    else:
        full = [completed(rng, p, qs) for _ in range(3)]
        w, a = (lambda pspec, qubit_labels, *args: list(rng.choice(full))), []
    return w, a


def gates(p, qs, k):
    return [Label(g, q) for g in p.names if len(STD[g]) == 2 ** k for q in p.av[g] if all(x in qs for x in q)]


def completed(rng, p, qs, two=.5):
    free, lay = list(qs), []
    rng.shuffle(free)
    while free:
        ok = [l for l in gates(p, free, 2) if free[0] in l.qubits]
        l = rng.choice(ok) if ok and rng.random() < two else rng.choice([l for l in gates(p, free, 1) if l.qubits[0] == free[0]])
        lay.append(l)
        free = [q for q in free if q not in l.qubits]
    return lay


def co2(rng, twos):
    """sets of two-qubit gates that act on different qubits"""
    sets = []
    for _ in range(rng.randrange(1, 4)):
        s, used = [], set()
        for l in rng.sample(twos, len(twos)):
            if rng.random() < .6 and not used & set(l.qubits):
                s.append(l)
                used |= set(l.qubits)
        sets.append(s)
    nested = rng.random() < .3
    arg = [[sets[0]], sets[1:] + [sets[0]]] if nested else sets
    return arg, sets


def lay_of(rec, names, qs, lay):
    return [dict(g=names(l.name), q=[qs.index(q) + 1 for q in l.qubits]) for l in lay]


def circ(rec, p, name, c, qs, ideal, who=None, core=None, **kw):
    """c: the circuit; ideal: probabilities of 1 for the qubits `who` (default: qs in order, as the functions document)"""
    nm = S.native_names(rec, p)
    e = dict(op="circ", name=name, raised=False, n=len(qs), lays=[], lines=[], al=p.allowed(rec, qs), who=[], ideal=[], zero=False, ident=False, mirror=False,
             depth=-1, mindepth=0, full=[1, 0], definite=True)
    e.update(kw)
    e["lays"] = S.layers(rec, c, qs, nm)
    e["lines"] = [qs.index(q) + 1 if q in qs else 0 for q in c.line_labels]
    e["who"] = [qs.index(q) + 1 for q in (who if who is not None else qs)]
    e["ideal"] = [S.int1(2 * float(x)) for x in ideal]
    if e["full"][1] > len(e["lays"]):
        e["full"] = [1, 0]
        e["mindepth"] = len(e["lays"]) + 1
    rec.ev.append(e)
    return e


def safe(rec, name, f, limit=120):
    try:
        with vf.time_limit(limit):
            return f()
    except vf.Timeout:
        rec.ev.append(dict(op="circ", name=name, raised=True, why="took more than %d s" % limit))
    except Exception as x:
        rec.ev.append(dict(op="circ", name=name, raised=True, why=repr(x)[:200]))
    return None


def ev(rec, op, name, **kw):
    rec.ev.append(dict(op=op, name=name, raised=False, **kw))


def start(tid, rng):
    rec = Rec(tid, rng)
    rec.ev = [dict(op="gates", name="", raised=False)]
    return rec


# ---------------------------------------------------------------- layers
def layers(tid, rng, p, allp, k=20):
    rec = start(tid, rng)
    for _ in range(k):
        w = rng.choice(["pairing", "edgegrab", "Qelimination", "co2", "oneQ", "sets"])
        q = allp if w == "pairing" else p
        qs, ql = subset(rng, q)
        ones, twos = gates(q, qs, 1), gates(q, qs, 2)
        nm = S.native_names(rec, q)
        n1, n2 = [g for g in q.names if len(STD[g]) == 2], [g for g in q.names if len(STD[g]) == 4]
        e = dict(n=len(qs), lay=[], twos=-1, sets=[], all=False, al=q.allowed(rec, qs))
        f = None
        only = lambda names: [x for x in q.allowed(rec, qs) if rec.lib.gates[x["g"] - 1]["name"] in names]
        if w == "pairing":
            if not n2 and len(qs) > 1:
                continue
            pr = rng.choice([0, 1, .5])
            a1 = rng.choice(["all", rng.sample(n1, rng.randrange(1, len(n1) + 1))])
            a2 = rng.choice(["all", list(n2)])
            f = lambda: rc.circuit_layer_by_pairing_qubits(q.pspec, ql, pr, a1, a2)
            e["al"] = only((n1 if a1 == "all" else a1) + n2)
            e["twos"] = 0 if pr == 0 else len(qs) // 2 if pr == 1 else -1
        elif w == "edgegrab":
            m = rng.choice([0, .5, 1]) if twos else 0
            f = lambda: rc.circuit_layer_by_edgegrab(q.pspec, ql, m)
            e["twos"] = 0 if m == 0 else -1
        elif w == "Qelimination":
            pr = rng.choice([0, 1, .5, None])
            a1 = "all"
            if rng.random() < .4:
                a1 = [l for x in qs for l in rng.sample([l for l in ones if l.qubits[0] == x], rng.randrange(1, len(n1) + 1))]
                rng.shuffle(a1)
            a2 = "all" if rng.random() < .6 else rng.sample(twos, rng.randrange(len(twos) + 1))
            f = lambda: rc.circuit_layer_by_Qelimination(q.pspec, ql, pr, a1, a2)
            e["al"] = lay_of(rec, nm, qs, (ones if a1 == "all" else a1) + (twos if a2 == "all" else a2))
            e["twos"] = 0 if pr == 0 else -1
        elif w == "co2":
            arg, sets = co2(rng, twos)
            pr = rng.choice([1, 1, 0, .5])
            dist = rng.choice(["uniform", [rng.randrange(1, 5) for _ in arg]])
            a1 = rng.choice(["all", rng.sample(n1, rng.randrange(1, len(n1) + 1))])
            f = lambda: rc.circuit_layer_by_co2Qgates(q.pspec, ql, arg, dist, pr, a1)
            e["sets"], e["all"] = [lay_of(rec, nm, qs, s) for s in sets], pr == 1
            e["al"] = only((n1 if a1 == "all" else a1) + n2)
            e["twos"] = 0 if pr == 0 else -1
        elif w == "oneQ":
            a1 = rng.choice(["all", rng.sample(n1, rng.randrange(1, len(n1) + 1))])
            dist = "uniform" if a1 == "all" or rng.random() < .5 else [rng.randrange(0, 2) for _ in a1[1:]] + [1]
            f = lambda: rc.circuit_layer_of_oneQgates(q.pspec, ql, a1, dist)
            e["al"] = only(n1 if a1 == "all" else [g for g, d in zip(a1, dist if dist != "uniform" else [1] * len(a1)) if d])
            e["twos"] = 0
        else:
            if not twos or any(not isinstance(x, str) for x in qs):
                continue
            es = sorted({l.qubits for l in twos if l.name == "Gcnot"})
            k2 = rng.randrange(0, 3)
            lab = rng.random() < .7
            r = safe(rec, "find_all_sets_of_compatible_twoQgates", lambda: rc.find_all_sets_of_compatible_twoQgates(es, k2, aslabel=lab))
            if r is None:
                continue
            if not lab:
                r = [[Label(x.split(":")[0], tuple(x.split(":")[1:])) for x in s] for s in r]
            want = [s for s in itertools.combinations(es, k2) if len({x for e2 in s for x in e2}) == 2 * k2]
            ev(rec, "lens", "compatible gates", a=sorted(str(sorted((l.name,) + l.qubits for l in s)) for s in r), b=sorted(str(sorted(("Gcnot",) + x for x in s)) for s in want))
            continue
        for _ in range(3):
            lay = safe(rec, "layer by " + w, f)
            if lay is not None:
                ev(rec, "layer", "by " + w, **dict(e, lay=lay_of(rec, nm, qs, lay)))
    return rec.done()


# ---------------------------------------------------------------- circuits
def comp_args(rng):
    """optional arguments of the compilers, after the number of iterations"""
    return rng.choice([[], [], ["ROGGE"], ["BGGE"]])


def circuits(tid, rng, p, k=6):
    rec = start(tid, rng)
    paulis = all(g in p.names for g in ("Gxpi", "Gypi", "Gzpi")) or "Gc0" in p.names
    for _ in range(k):
        w = rng.choice(["random", "simultaneous", "crb", "drb", "drb", "drbp", "sdrb", "mirror", "mirror", "germ", "gmirror"])
        qs, ql = subset(rng, p)
        smp, sa = sampler(rng, p, qs, ql, rec)
        it, L = rng.choice([1, 2]), rng.choice([0, 1, 2, 3, 5])
        loc, out = rng.random() < .4, rng.random() < .6
        ls = rng.choice([[], [[rng.choice([g for g in p.names if len(STD[g]) == 2])]]])
        who = None
        nm = S.native_names(rec, p)
        D = 2 * L + 1 if loc else L
        sname = smp if isinstance(smp, str) else "function"
        if w == "random":
            c = safe(rec, "random_circuit " + sname, lambda: rc.random_circuit(p.pspec, L, ql, smp, sa, loc, ls))
            if c is not None:
                # what comes out of a random circuit is judged through simultaneous_random_circuit
                o = [0] * len(qs)
                ev(rec, "power", "depth of random_circuit " + sname, lays=S.layers(rec, c, qs, nm), germ=S.layers(rec, c, qs, nm), depth=D)
                for lay in S.layers(rec, c, qs, nm):
                    ev(rec, "layer", "of random_circuit " + sname, n=len(qs), lay=lay, twos=-1, sets=[], all=False, al=p.allowed(rec, qs))
        elif w == "simultaneous":
            st = structure(rng, p) if rng.random() < .7 else "1Q"
            ss = [(q,) for q in p.labels] if st == "1Q" else st
            qs = [q for s in ss for q in s]
            Ls = L if rng.random() < .5 else [rng.randrange(4) for _ in ss]
            smp, sa = rng.choice([("Qelimination", []), ("Qelimination", [1]), ("local", [])])
            D = [2 * x + 1 if loc else x for x in (Ls if isinstance(Ls, list) else [L] * len(ss))]
            r = safe(rec, "simultaneous_random_circuit", lambda: rc.simultaneous_random_circuit(p.pspec, Ls, st, smp, sa, loc, ls))
            if r is not None:
                circ(rec, p, "simultaneous_random_circuit", r[0], qs, [x for s in r[1] for x in s], who=qs, definite=False, depth=max(D), full=[1, min(D)])
        elif w == "crb":
            r = safe(rec, "clifford_rb_circuit", lambda: rc.clifford_rb_circuit(p.pspec, min(L, 3), ql, out, it, comp_args(rng)))
            if r is not None:
                circ(rec, p, "clifford_rb_circuit", r[0], qs, r[1], zero=not out, ident=True)
        elif w in ("drb", "drbp"):
            tw, co = rng.random() < .6, rng.random() < .6
            args = (p.pspec, L, ql, smp, sa, loc, ls, out, tw, co, it)
            nme = "direct_rb_circuit %s%s%s%s" % (sname, " twirl" if tw else "", " conditional" if co else "", " local" if loc else "")
            if w == "drb":
                r = safe(rec, nme, lambda: rc.direct_rb_circuit(*args))
                if r is not None:
                    circ(rec, p, nme, r[0], qs, r[1], zero=not out, ident=not co, mindepth=D, full=[1, 0] if tw else [1, D])
            else:
                r = safe(rec, nme + " partitioned", lambda: rc.direct_rb_circuit(*args, partitioned=True))
                if r is not None:
                    whole = Circuit([], line_labels=r[0][0].line_labels, editable=True)
                    for x in r[0]:
                        whole.append_circuit(x)
                    circ(rec, p, nme + " partitioned", whole, qs, r[1], zero=not out, ident=not co)
                    mid = S.layers(rec, r[0][1 if tw else 0], qs, nm)
                    ev(rec, "power", "depth of the random part, " + nme, lays=mid, germ=mid, depth=D)
                    for lay in mid:
                        ev(rec, "layer", "of the random part, " + nme, n=len(qs), lay=lay, twos=-1, sets=[], all=False, al=p.allowed(rec, qs))
        elif w == "sdrb":
            st = structure(rng, p) if rng.random() < .7 else "1Q"
            ss = [(q,) for q in p.labels] if st == "1Q" else st
            qs = [q for s in ss for q in s]
            smp, sa = rng.choice([("Qelimination", []), ("Qelimination", [1]), ("local", [])])
            tw, co, part = rng.random() < .6, rng.random() < .6, rng.random() < .3
            nme = "simultaneous_direct_rb_circuit%s%s" % (" twirl" if tw else "", " conditional" if co else "")
            r = safe(rec, nme, lambda: rc.simultaneous_direct_rb_circuit(p.pspec, L, st, smp, sa, loc, ls, out, tw, co, it, [], part))
            if r is not None:
                c = r[0]
                if part:
                    c = Circuit([], line_labels=r[0][0].line_labels, editable=True)
                    for x in r[0]:
                        c.append_circuit(x)
                    mid = S.layers(rec, r[0][1 if tw else 0], qs, nm)
                    ev(rec, "power", "depth of the random part, " + nme, lays=mid, germ=mid, depth=D)
                circ(rec, p, nme, c, qs, [x for s in r[1] for x in s], who=qs, zero=not out, ident=not co, full=[1, 0] if tw else [1, D])
        elif w == "mirror":
            lc, pr = rng.random() < .5, rng.random() < .6
            L = rng.choice([0, 2, 4])
            nme = "mirror_rb_circuit %s%s%s" % (sname, " local" if lc else "", " Paulis" if pr else "")
            r = safe(rec, nme, lambda: rc.mirror_rb_circuit(p.pspec, L, ql, smp, sa, lc, pr))
            if r is not None:
                plain = not lc and not pr
                circ(rec, p, nme, r[0], qs, r[1], zero=not pr, ident=True, mirror=not pr, depth=L if plain else 2 * L + 1 if pr and not lc and paulis else -1,
                     mindepth=2 * L + 1 if pr else L, full=[1, L] if plain else [1, 0])
        else:
            twos = gates(p, qs, 2)
            dens = rng.choice([0, 1 / 8, 1 / 4]) if len(qs) > 1 and twos else 0
            depths, fixed = rng.sample([0, 1, 2, 4, 8, 16], 3), rng.random() < .5
            if w == "germ":
                r = safe(rec, "random_germpower_circuits", lambda: rc.random_germpower_circuits(p.pspec, depths, dens, ql, fixed))
                if r is not None:
                    for i, (c, d) in enumerate(zip(r[0], depths)):
                        g = S.layers(rec, r[1]["germ"] if fixed else r[1]["germ"][i], qs, nm)
                        ls2 = S.layers(rec, c, qs, nm)
                        ev(rec, "power", "random_germpower_circuits", lays=ls2, germ=g, depth=d)
                        for lay in ls2:
                            ev(rec, "layer", "of a germ power", n=len(qs), lay=lay, twos=-1, sets=[], all=False, al=p.allowed(rec, qs))
            else:
                lc, pr = rng.random() < .5, rng.random() < .6
                r = safe(rec, "random_germpower_mirror_circuits", lambda: rc.random_germpower_mirror_circuits(p.pspec, depths, ql, lc, pr, dens, fixed))
                if r is not None:
                    for c, o, d in zip(r[0], r[1], depths):
                        circ(rec, p, "random_germpower_mirror_circuits" + (" local" if lc else "") + (" Paulis" if pr else ""), c, qs, o, zero=not pr, ident=True, mirror=not pr,
                             mindepth=2 * d)
    return rec.done()


# ---------------------------------------------------------------- enumerated layers
NAMES = dict(H="Gh", P="Gp", X="Gxpi", C="Gcnot")


def enumerated(tid, rng, scripts, p):
    """the layer sequences of RandCircMC as the layers of a user's sampler"""
    rec = start(tid, rng)
    nm = S.native_names(rec, p)
    for sc in scripts:
        core = [[Label(NAMES[x["g"]], tuple(p.labels[i - 1] for i in x["q"])) for x in lay] for lay in sc["lays"]]
        todo = list(core)
        smp = lambda pspec, qubit_labels: list(todo.pop(0))
        want = [lay_of(rec, nm, p.labels, lay) for lay in core]
        L, qs = len(core), list(p.labels)
        w = rng.choice(["drb", "mirror", "mirrorp", "random"])
        ql = rng.choice([None, list(p.labels), tuple(reversed(p.labels))])
        if w == "drb":
            tw, co, out = rng.random() < .5, rng.random() < .5, rng.random() < .5
            r = safe(rec, "direct_rb_circuit of given layers", lambda: rc.direct_rb_circuit(p.pspec, L, ql, smp, [], False, [], out, tw, co, 1, [], True))
            if r is not None:
                ev(rec, "core", "direct_rb_circuit", lays=S.layers(rec, r[0][1 if tw else 0], qs, nm), core=want)
                c = Circuit([], line_labels=r[0][0].line_labels, editable=True)
                for x in r[0]:
                    c.append_circuit(x)
                circ(rec, p, "direct_rb_circuit of given layers", c, qs, r[1], who=ql or qs, zero=not out, ident=not co)
        elif w == "random":
            c = safe(rec, "random_circuit of given layers", lambda: rc.random_circuit(p.pspec, L, ql, smp))
            if c is not None:
                ev(rec, "core", "random_circuit", lays=S.layers(rec, c, qs, nm), core=want)
        else:
            pr, lc = w == "mirrorp", rng.random() < .4
            r = safe(rec, "mirror_rb_circuit of given layers", lambda: rc.mirror_rb_circuit(p.pspec, 2 * L, ql, smp, [], lc, pr))
            if r is not None:
                e = circ(rec, p, "mirror_rb_circuit of given layers", r[0], qs, r[1], who=ql or qs, zero=not pr, ident=True, mirror=not pr, mindepth=2 * L)
                if not pr and not lc:
                    ev(rec, "core", "mirror_rb_circuit", lays=e["lays"][:L], core=want)
    return rec.done()


# ---------------------------------------------------------------- experiments
def experiments(tid, rng, p):
    rec = start(tid, rng)
    nm = S.native_names(rec, p)
    st = structure(rng, p) if rng.random() < .7 else "1Q"
    ss = tuple((q,) for q in p.labels) if st == "1Q" else st
    qs = [q for s in ss for q in s]
    depths, K = rng.sample([0, 1, 2, 3], 2), rng.choice([1, 2])
    iso, com = rng.random() < .7, rng.random() < .5
    direct = rng.random() < .6
    smp, sa = rng.choice([("Qelimination", []), ("Qelimination", [1]), ("local", [])])
    loc = rng.random() < .3
    out, tw, co = rng.random() < .5, rng.random() < .5, rng.random() < .5
    part = direct and rng.random() < .2
    if direct:
        name, key = "simultaneous_direct_rb_experiment", "target"
        f = lambda: rc.simultaneous_direct_rb_experiment(p.pspec, depths, K, st, smp, sa, loc, [], out, tw, co, 1, [], part, iso, com, verbosity=0)
    else:
        name, key = "simultaneous_random_circuits_experiment", "probs"
        f = lambda: rc.simultaneous_random_circuits_experiment(p.pspec, depths, K, st, smp, sa, loc, [], iso, com, verbosity=0)
    if part:
        name += " partitioned"
    joined = lambda c: c if not isinstance(c, list) else sum(c[1:], c[0])
    r = safe(rec, name, f)
    if r is not None:
        seen = {s: [] for s in ss}
        keys = [(d, j) for d in depths for j in range(K)]
        ev(rec, "lens", name, a=sorted(map(str, r["circuits"])), b=sorted(map(str, keys)))
        for k in keys:
            got, ideal, sett = r["circuits"][k], r[key][k], r["settings"][k]
            if not iso and not com:
                got, ideal, sett = {ss: got}, {ss: ideal}, {ss: sett}
            want = [ss] + ([(s,) for s in ss] if iso else []) + ([tuple(x for x in ss if x != s) for s in ss] if com else [])
            ev(rec, "lens", name + ": circuits of one setting", a=sorted(map(str, got)), b=sorted(set(map(str, want))))
            whole = None
            for subs in dict.fromkeys(want):
                c = joined(got[subs])
                o = ideal[subs]
                kept = [q for s in subs for q in s]
                lays = S.layers(rec, c, qs, nm)
                if subs == ss:
                    whole = lays
                    circ(rec, p, name, c, qs, [x for s in o for x in s], who=qs, definite=direct, zero=direct and not out)
                else:
                    ev(rec, "part", name, whole=whole, keep=[qs.index(q) + 1 for q in kept], lays=lays)
                    oo = {q: x for s, y in zip(subs, o) for q, x in zip(s, y)}
                    circ(rec, p, name + ": some of the subsets", c, qs, [oo.get(q, 0) for q in qs], who=qs, definite=direct)
                for s in ss:
                    seen[s].append(dict(s=sett[subs][s] if isinstance(sett, dict) and subs in sett else int(sett[s]),
                                        lays=[[x for x in lay if set(x["q"]) & {qs.index(q) + 1 for q in s}] for lay in lays]))
        for s in ss:
            ev(rec, "settings", name, cs=seen[s])
    # every combination of circuits on the subsets
    if len(ss) < 4:
        n2 = rng.choice([1, 2])
        r = safe(rec, "exhaustive_independent_random_circuits_experiment",
                 lambda: rc.exhaustive_independent_random_circuits_experiment(p.pspec, depths, n2, st, smp, sa, verbosity=0))
        if r is not None:
            ev(rec, "lens", "exhaustive", a=sorted(map(str, r["circuits"])), b=sorted(map(str, itertools.product(range(n2), repeat=len(ss)))))
            for comb, c in r["circuits"].items():
                lays = S.layers(rec, c, qs, nm)
                for i, s in enumerate(ss):
                    ev(rec, "part", "exhaustive", whole=lays, keep=[qs.index(q) + 1 for q in s], lays=S.layers(rec, r["subset_circuits"][s][comb[i]], qs, nm))
    return rec.done()


# ---------------------------------------------------------------- designs and their data
def designs(tid, rng, p):
    rec = start(tid, rng)
    qs, ql = subset(rng, p)
    kind = rng.choice(["crb", "drb", "mrb"])
    depths, K = rng.sample([0, 2, 4] if kind == "mrb" else [0, 1, 2, 3], 2), rng.choice([1, 2, 3])
    out, tw, co = rng.random() < .6, rng.random() < .5, rng.random() < .5
    seed = rng.randrange(10 ** 6)
    pr = rng.random() < .5
    if kind == "crb":
        f = lambda: rb.CliffordRBDesign(p.pspec, depths, K, ql, out, 1, seed=seed, verbosity=0)
    elif kind == "drb":
        f = lambda: rb.DirectRBDesign(p.pspec, depths, K, ql, randomizeout=out, cliffordtwirl=tw, conditionaltwirl=co, citerations=1, seed=seed, verbosity=0)
    else:
        f = lambda: rb.MirrorRBDesign(p.pspec, depths, K, ql, paulirandomize=pr, localclifford=rng.random() < .5)
    d = safe(rec, kind + " design", f)
    if d is None:
        return rec.done()
    ev(rec, "lens", kind + " design", a=[len(x) for x in d.circuit_lists] + [len(x) for x in d.idealout_lists] + list(d.depths), b=[K] * len(depths) * 2 + depths)
    zero = not pr if kind == "mrb" else not out
    for L, cl, il in zip(depths, d.circuit_lists, d.idealout_lists):
        for c, (o,) in zip(cl, il):
            circ(rec, p, kind + " design", c, qs, [int(x) for x in o], zero=zero, ident=kind != "drb" or not co, mindepth=0 if kind == "crb" else L)
    if kind != "mrb":
        d2 = safe(rec, kind + " design", f)
        if d2 is not None:
            ev(rec, "same", kind + " design", a=[c.str for x in d.circuit_lists for c in x] + [str(x) for x in d.idealout_lists],
               b=[c.str for x in d2.circuit_lists for c in x] + [str(x) for x in d2.idealout_lists])
    # counts
    ds, rows, done = DataSet(), [], {}
    for cl, il in zip(d.circuit_lists, d.idealout_lists):
        for c, (o,) in zip(cl, il):
            if c not in done:
                bits = list(itertools.product("01", repeat=len(qs)))
                cs = {}
                for _ in range(rng.randrange(0 if rng.random() < .2 else 1, 5)):
                    b = o if rng.random() < .4 else "".join(rng.choice(bits))
                    cs[b] = rng.choice([1, 2, 7, 40])
                done[c] = cs
                ds.add_count_dict(c, {(b,): v for b, v in cs.items()})
    ds.done_adding_data()
    fn = rng.choice(["compute", "rbtools"])

    def summary():
        return rb.RandomizedBenchmarking(name="RB").compute_summary_data(ProtocolData(d, ds))
    s = safe(rec, "compute_summary_data", summary)
    if s is None:
        return rec.done()
    for L, cl, il in zip(depths, d.circuit_lists, d.idealout_lists):
        for i, (c, (o,)) in enumerate(zip(cl, il)):
            cs, N = done[c], len(o)
            tot = sum(cs.values())
            g = lambda k: s[k][L][i]
            bad = lambda x: -7 if not np.isfinite(x) else S.int1(x)
            row = dict(cs=[dict(o=[int(x) for x in b], c=v) for b, v in cs.items()], ideal=[int(x) for x in o], total=bad(g("total_counts")), success=bad(g("success_counts")),
                       ham=[bad(x) for x in g("hamming_distance_counts")], sp=0, adj=0)
            if tot:
                row["sp"], row["adj"] = bad(g("success_probabilities") * tot), bad(g("adjusted_success_probabilities") * tot * 2 ** N)
                # the same from the helpers
                h = rbtools.marginalized_hamming_distance_counts(ds[c], c, o, c.line_labels)
                if [bad(x) for x in h] != row["ham"] or bad(rbtools.adjusted_success_probability(np.array(h) / tot) * tot * 2 ** N) != row["adj"] \
                        or bad(rbtools.marginalized_success_counts(ds[c], c, (o,) if False else o, tuple(reversed(c.line_labels)))) != row["success"]:
                    row["ham"] = [-8]
            rows.append(row)
    ev(rec, "summary", kind + " design", rows=rows)
    return rec.done()


def one_qubit(tid, rng):
    """length of Clifford circuits: with all the one-qubit Cliffords at hand each Clifford is one layer or, if it is the identity, none"""
    rec = start(tid, rng)
    p = proc(rng, 1, [["Gc%d" % i for i in range(24)]])
    m, K = rng.choice([5, 6, 7]), 40
    tot = 0
    for _ in range(K):
        r = safe(rec, "clifford_rb_circuit of one qubit", lambda: rc.clifford_rb_circuit(p.pspec, m, None, True, 1))
        if r is None:
            return rec.done()
        tot += circ(rec, p, "clifford_rb_circuit of one qubit", r[0], list(p.labels), r[1], ident=True)["lays"].__len__()
    rec.ev[1:-3] = []
    ev(rec, "between", "number of Cliffords of clifford_rb_circuit", x=tot, lo=K * (m + 2) - K * (m + 2) // 8, hi=K * (m + 2))
    # sequences over a group or a model
    from pygsti.construction import std1Q_Cliffords as std
    g = group.construct_1Q_Clifford_group()
    nm = lambda name: rec.lib.add(name, STD[name])
    for _ in range(8):
        m, inter = rng.choice([1, 2, 5]), rng.choice([None, None, "Gc%d" % rng.randrange(24)])
        src = rng.choice(["group", "model"])
        a = g if src == "group" else std.target_model()
        c = safe(rec, "oneQ_generalized_rb_sequence of a " + src, lambda: rc.oneQ_generalized_rb_sequence(m, a, True, False, inter, seed=rng.randrange(1000)))
        if c is not None:
            lays = [[dict(g=nm(l.name), q=[1])] for l in c]
            al = [dict(g=nm("Gc%d" % i), q=[1]) for i in range(24)]
            ev(rec, "circ", "oneQ_generalized_rb_sequence of a " + src, n=1, lays=lays, lines=[1], al=al, who=[1], ideal=[0], zero=True, ident=True, mirror=False,
               depth=(2 * m if inter else m) + 1, mindepth=0, full=[1, 0], definite=True)
            if inter:
                ev(rec, "between", "interleaved gate", x=sum(1 for i in range(m) if lays[2 * i + 1][0]["g"] == nm(inter)), lo=m, hi=m)
    # a group generated by a few gates of a model
    comp = {"Gc%d" % i: list(v) for i, v in enumerate([()] * 24)}
    prim = ["Gc1", "Gc12"]
    words, todo = {"Gc0": []}, [("Gc0", [])]
    while todo:
        lbl, wd = todo.pop(0)
        for x in prim:
            t = g.product([lbl, x])
            if t not in words:
                words[t] = wd + [x]
                todo.append((t, wd + [x]))
    if len(words) == 24:
        mdl = std.target_model()
        for l in list(mdl.operations):
            if str(l) not in prim:
                del mdl.operations[l]
        for _ in range(6):
            m, pauli, prep = rng.choice([1, 3, 6]), rng.random() < .5, rng.random() < .5
            r = safe(rec, "oneQ_generalized_rb_sequence of a generated group", lambda: rc.oneQ_generalized_rb_sequence(
                m, mdl, True, pauli, None, True, prep, {k: [Label(x) for x in v] for k, v in words.items()}, g, {Label(x): x for x in prim}, seed=rng.randrange(1000)))
            if r is not None:
                c, flip = r if pauli else (r, False)
                ev(rec, "circ", "oneQ_generalized_rb_sequence of a generated group", n=1, lays=[[dict(g=nm(l.name), q=[1])] for l in c], lines=[1],
                   al=[dict(g=nm(x), q=[1]) for x in prim], who=[1], ideal=[2 if flip else 0], zero=not pauli, ident=True, mirror=False, depth=-1, mindepth=m, full=[1, 0], definite=True)
    return rec.done()


def corrupt(t):
    for e in t["ev"]:
        if e["op"] == "circ" and not e["raised"] and e["ideal"]:
            e["ideal"][0] = 2 - e["ideal"][0] if e["ideal"][0] != 1 else 0
            return t
    return None
