"""Histories that restrict two-qubit data to some of its qubits (filter_dataset)."""
import random, shutil, tempfile
import vf
import dsdrive as D
from dsworld import TAB, FILTERS


def histories(chk, n):
    traces = []
    tmp = tempfile.mkdtemp(prefix="ds_", dir=vf.scratch())
    mix = D.ADD + ["filter"] * 8 + ["done", "addfrom", "process", "remove", "slice", "merge", "addaux", "rename", "new", "trunc"]
    for i in range(n):
        r = random.Random(chk.rng.getrandbits(48))
        with vf.time_limit(60):
            d = D.Driver(r, 3, tmp, mix, outs=[1, 2, 4, 5], circs=["A", "B", "D", "H", "J"])
            ev = d.history(r.randint(8, 16))
        traces.append(dict(id="filter-%d" % i, slots=3, ev=ev))
    shutil.rmtree(tmp, ignore_errors=True)
    return traces


def pick(rng, st):
    if any(o not in (1, 2, 4, 5) for o in st["ols"]) or any(r[1] or str(r[0]).islower() for r in st["rows"]):
        return None
    keep, new = rng.choice(FILTERS)
    pos = keep if rng.random() < 0.7 else rng.choice([[1], [0]] if len(keep) == 1 else [[0, 1], [1, 0]])
    return dict(keep=keep, new=new, pos=pos, zero=rng.random() < 0.5, circ=rng.random() < 0.85, tab=TAB)
