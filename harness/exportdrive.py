"""Converts circuits to OpenQASM and Quil, reads the programs back, and records both for ExportTrace.tla (C19)."""
import itertools, math, random, re, warnings
import numpy as np
import vf
from pygsti.objects.circuit import Circuit
from pygsti.objects.label import Label
from pygsti.tools import internalgates as itg

EXC = Exception
QASM = itg.get_standard_gatenames_openqasm_conversions()
QUIL = itg.get_standard_gatenames_quil_conversions()


def norm(s):
    return re.sub(r"\s+", "", s)


def stm(k, n="", q=(), b=-1):
    return dict(k=k, n=n, q=list(q), b=b)


def read_qasm(text):
    p = dict(prog=[], nq=-2, nb=-2)
    strange = []
    lines = [x.strip() for x in text.split("\n") if x.strip()]
    if not lines or norm(lines[0]) != "OPENQASM2.0;":
        strange.append("no OPENQASM 2.0 header")
    if not any(norm(x) == 'include"qelib1.inc";' for x in lines[1:2]):
        strange.append("no include of qelib1.inc")
    for s in lines[2:]:
        m = re.match(r"^qreg\s+q\[(\d+)\];$", s)
        if m and p["nq"] == -2 and not p["prog"]:
            p["nq"] = int(m.group(1))
            continue
        m = re.match(r"^creg\s+cr\[(\d+)\];$", s)
        if m and p["nb"] == -2 and not p["prog"]:
            p["nb"] = int(m.group(1))
            continue
        m = re.match(r"^measure\s+q\[(\d+)\]\s*->\s*cr\[(\d+)\];$", s)
        if m:
            p["prog"].append(stm("measure", "", [int(m.group(1))], int(m.group(2))))
            continue
        m = re.match(r"^([a-zA-Z_0-9]+(?:\s*\([^)]*\))?)\s+((?:q\[\d+\]\s*,\s*)*q\[\d+\])\s*;$", s)
        if not m:
            strange.append(s)
            continue
        q = [int(x) for x in re.findall(r"q\[(\d+)\]", m.group(2))]
        p["prog"].append(stm("sync", "", q) if m.group(1) == "barrier" else stm("gate", norm(m.group(1)), q))
    if p["nq"] == -2 or p["nb"] == -2:
        strange.append("registers not declared")
    return p, strange


def entry(s):
    z = complex(s.replace("i", "j"))
    return ["%d" % round(4 * z.real), "%d" % round(4 * z.imag)] if abs(4 * z - complex(round(4 * z.real), round(4 * z.imag))) < 1e-9 else [s, s]


def read_quil(text):
    p = dict(prog=[], nq=-1, nb=-2)
    strange, defs, head = [], [], []
    cur = None
    for raw in text.split("\n"):
        s = raw.strip()
        if not s:
            continue
        if raw.startswith("    ") and cur is not None:
            cur["rows"].append([entry(x) for x in s.split(",")])
            continue
        cur = None
        m = re.match(r"^DEFGATE\s+(\S+):$", s)
        if m:
            cur = dict(name=m.group(1), rows=[])
            defs.append(cur)
            continue
        m = re.match(r"^DECLARE\s+ro\s+BIT\[(\d+)\]$", s)
        if m and p["nb"] == -2 and not p["prog"]:
            p["nb"] = int(m.group(1))
            continue
        if s in ("RESET", 'PRAGMA INITIAL_REWIRING "NAIVE"') and not p["prog"]:
            head.append(s)
            continue
        if s in ("PRAGMA PRESERVE_BLOCK", "PRAGMA END_PRESERVE_BLOCK"):
            p["prog"].append(stm("sync"))
            continue
        m = re.match(r"^MEASURE\s+(\d+)\s+ro\[(\d+)\]$", s)
        if m:
            p["prog"].append(stm("measure", "", [int(m.group(1))], int(m.group(2))))
            continue
        m = re.match(r"^([A-Za-z_0-9]+(?:\([^)]*\))?)((?:\s+\d+)+)$", s)
        if not m or m.group(1) in ("RESET", "PRAGMA", "DECLARE", "MEASURE"):
            strange.append(s)
            continue
        p["prog"].append(stm("gate", norm(m.group(1)), [int(x) for x in m.group(2).split()]))
    if sorted(head) != ['PRAGMA INITIAL_REWIRING "NAIVE"', "RESET"]:
        strange.append("no RESET or rewiring pragma")
    if p["nb"] == -2:
        strange.append("bits not declared")
    return p, strange, defs


def run(c, fmt, conv=None, qmap=None, nq=None, ro=None, between=None, idles=None, decl=None):
    """c: a real circuit"""
    tab = conv if conv is not None else (QASM if fmt == "qasm" else QUIL)
    ls = c.line_labels
    if qmap is not None:
        num = dict(qmap)
    elif all(isinstance(x, int) for x in ls):
        num = {x: x for x in ls}
    elif all(isinstance(x, str) and x[0] == "Q" for x in ls):
        num = {x: int(x[1:]) for x in ls}
    else:
        num = {}
    lay = []
    for x in c.layertup:
        y = []
        for g in (x.components if not x.issimple() else [x]):
            im = fmt == "qasm" and g.name == "Iz"
            y.append(dict(n="Iz" if im else norm(tab.get(g.name, "")), q=[num.get(z, -1) for z in (g.sslbls or ())], all=g.sslbls is None, im=im))
        lay.append(y)
    b = True if between is None else between
    ims = sum(g["im"] for y in lay for g in y)
    nums = [num.get(x, -1) for x in ls]
    e = dict(op="program", fmt=fmt, c=dict(lines=nums, layers=lay), idle="id" if fmt == "qasm" else "I", between=b,
             around=fmt == "quil" and (True if idles is None else idles), raised=False, strange=[])
    e["bits"] = [ims + x for x in nums] if fmt == "qasm" else nums if ro is None else [ro[x] for x in ls]
    out = [e]
    kw = {}
    for k, v in (("gatename_conversion", conv), ("qubit_conversion", qmap), ("num_qubits", nq), ("block_between_layers", between)):
        if v is not None:
            kw[k] = v
    if fmt == "quil":
        for k, v in (("readout_conversion", ro), ("block_idles", idles), ("gate_declarations", decl)):
            if v is not None:
                kw[k] = v
    before = (c.tup, c.str, dict(conv or {}), dict(qmap or {}))
    try:
        text = c.convert_to_openqasm(**kw) if fmt == "qasm" else c.convert_to_quil(**kw)
        if fmt == "qasm":
            e["p"], e["strange"] = read_qasm(text)
        else:
            e["p"], e["strange"], defs = read_quil(text)
            if decl is not None or defs:
                want = [dict(name=k, rows=[[["%d" % round(4 * complex(z).real), "%d" % round(4 * complex(z).imag)] for z in row] for row in m]) for k, m in (decl or {}).items()]
                out.append(dict(op="defs", raised=False, want=want, got=defs))
        if (c.tup, c.str, dict(conv or {}), dict(qmap or {})) != before:
            e["strange"] = e["strange"] + ["the circuit or a given table changed"]
    except vf.Timeout:
        raise
    except EXC as x:
        e.update(raised=True, exc="%s: %s" % (type(x).__name__, str(x)[:60]))
    return out


SIG = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]


def words():
    ev = []
    un = itg.get_standard_gatename_unitaries()
    for tab in (QASM, QUIL):
        for name, w in sorted(tab.items()):
            if w == name or name not in un:
                continue
            U = un[name]
            m = re.match(r"^([A-Za-z0-9]+)(?:\((.*)\))?$", norm(w))
            f, a = (m.group(1), m.group(2)) if m else ("?", None)
            ang = []
            for x in (a.split(",") if a else []):
                n = re.match(r"^(-?)pi(?:/(\d+))?$", x)
                v = (-1 if n.group(1) else 1) * math.pi / int(n.group(2) or 1) if n else float(x)
                k = v / (math.pi / 4)
                ang.append(int(round(k)) % 8 if abs(k - round(k)) < 1e-6 else 99)
            if 99 in ang or len(ang) != {"u3": 3, "RX": 1, "RY": 1, "RZ": 1}.get(f, 0):
                f = "?"
            if U.shape == (2, 2):
                rot = [[int(round(500 * np.trace(SIG[i] @ U @ SIG[j] @ U.conj().T).real)) for j in (1, 2, 3)] for i in (1, 2, 3)]
                ev.append(dict(op="word1", name=name, f=f, a=ang, rot=rot))
            else:
                img = []
                P = {"".join("IXYZ"[i] for i in ij): np.kron(SIG[ij[0]], SIG[ij[1]]) for ij in itertools.product(range(4), repeat=2)}
                for g in ("XI", "IX", "ZI", "IZ"):
                    V = U @ P[g] @ U.conj().T
                    img += [[s, k] for k, m in P.items() for s in (1, -1) if np.allclose(V, s * m)] or [[0, "?"]]
                ev.append(dict(op="word2", name=name, f=f, img=img))
    return [dict(id="words", ev=ev)]


def labels(rng, n):
    w = rng.random()
    if w < 0.3:
        return list(range(n)), None
    if w < 0.55:
        return ["Q%d" % i for i in range(n)], None
    if w < 0.7:
        return rng.choice([rng.sample(range(9), n), ["Q%d" % i for i in rng.sample(range(9), n)]]), None
    ls = rng.choice([list(range(n)), ["a", "b", "Qx", "c0"][:n], ["Q%d" % i for i in range(n)]])
    return ls, dict(zip(ls, rng.sample(range(8), n)))


def scripts(chk, sc):
    out = []
    for i in range(0, len(sc), 10):
        ev = []
        for s in sc[i:i + 10]:
            rng = random.Random(chk.rng.getrandbits(48))
            n = len(s["lines"])
            ls = [s["lines"][k] for k in range(n)]
            real = {x: (x if rng.random() < 0.5 else "Q%d" % x) for x in ls}
            if len(set(type(v) for v in real.values())) > 1:
                real = {x: x for x in ls}
            for fmt in ("qasm", "quil"):
                nm = {"I": "Gi", "A": "Gxpi2", "C": "Gcnot", "M": "Iz" if fmt == "qasm" else "Gh"}
                lay = [Label([(nm[g["n"]],) + tuple(real[x] for x in g["q"]) if not g["all"] else nm[g["n"]] for g in y]) for y in s["layers"]]
                c = Circuit(lay, [real[x] for x in ls])
                ev += run(c, fmt, between=s["between"], idles=s["around"])
        out.append(dict(id="small-%d" % i, ev=ev))
    return out


def histories(chk, n):
    out = []
    for i in range(n):
        rng = random.Random(chk.rng.getrandbits(48))
        ev = []
        with vf.time_limit(60), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for _ in range(10):
                nl = rng.choice([1, 2, 2, 3, 4])
                ls, qmap = labels(rng, nl)
                fmt = rng.choice(["qasm", "quil"])
                conv = None
                names = sorted(k for k in (QASM if fmt == "qasm" else QUIL) if k not in ("Gcphase", "Gcnot", "Gswap"))
                twos = ["Gcnot", "Gcphase"]
                if rng.random() < 0.3:
                    names, twos = ["Gx", "Gi", "Ga"], ["Gcnot", "Gzz"]
                    conv = {"Gx": "RX(pi/2)" if fmt == "quil" else "rx(pi/2)", "Gi": "I" if fmt == "quil" else "id", "Ga": rng.choice(["FOO", "foo2"]), "Gcnot": "CX2", "Gzz": "zz"}
                bad = rng.random() < 0.05
                lay = []
                for _ in range(rng.choice([0, 1, 2, 3, 5])):
                    if rng.random() < 0.12:
                        lay.append(Label(rng.choice(["Gi"] + names)))
                        continue
                    left, y = list(ls), []
                    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
                        k = 2 if rng.random() < 0.3 else 1
                        if len(left) < k:
                            break
                        q = rng.sample(left, k)
                        left = [x for x in left if x not in q]
                        nm = rng.choice(twos) if k == 2 else "Iz" if fmt == "qasm" and rng.random() < 0.15 else rng.choice(names)
                        if bad and rng.random() < 0.3:
                            nm = "Gunknown"
                        y.append(Label(nm, tuple(q)))
                    if bad and len(ls) > 2 and rng.random() < 0.3:
                        y = [Label("Gcnot", tuple(rng.sample(ls, 3)))]
                    lay.append(Label(y))
                c = Circuit(lay, ls)
                w = rng.random()
                if w < 0.3:
                    c = c.repeat(rng.choice([2, 3]))
                elif w < 0.4:
                    c = c.serialize()
                elif w < 0.5:
                    c = c.parallelize()
                elif w < 0.6 and len(c):
                    c = c[0:len(c)] + c[rng.randrange(len(c)):]
                nums = list(qmap.values()) if qmap else [int(str(x).replace("Q", "")) for x in ls if str(x).replace("Q", "").isdigit()]
                nq = rng.choice([None, None, max(nums + [0]) + 1 + rng.randint(0, 2)])
                ro = dict(zip(ls, rng.sample(range(nl + 2), nl))) if fmt == "quil" and rng.random() < 0.3 else None
                if nq is not None and ro is not None:
                    nq = max(nq, max(ro.values()) + 1)
                decl = None
                if fmt == "quil" and rng.random() < 0.3:
                    d = rng.choice([1, 2])
                    def z():
                        return complex(rng.choice([0, 1, -1, .5, -.25]), rng.choice([0, 0, 1, -1, .5]))
                    decl = {k: np.array([[z() for _ in range(2 ** d)] for _ in range(2 ** d)]) for k in rng.sample(["FOO", "Gc0", "BAR"], rng.choice([1, 2]))}
                    if rng.random() < 0.3:
                        decl = {k: m.real for k, m in decl.items()}
                ev += run(c, fmt, conv, qmap, nq, ro, rng.choice([None, True, False]), rng.choice([None, True, False]), decl)
        out.append(dict(id="program-%d" % i, ev=ev))
    return out


def corrupt(t):
    for e in t["ev"]:
        if e["op"] == "program" and not e["raised"] and e["p"]["prog"]:
            e["p"]["prog"].pop()
            return t
    return t
