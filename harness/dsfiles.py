"""Data files used over time: cached loading, files written again, options of the reader, wide ranges of numbers.

Events of DataSetFile.tla: the files of a directory, their contents and the caches kept beside them."""
import os, random, shutil, tempfile, pickle
import numpy as np
import pygsti
from pygsti.objects import DataSet, Circuit
import vf

CS = [Circuit("Gx"), Circuit("GxGy"), Circuit("Gx:0Gy:1@(0,1)"), Circuit("{}@(0,1)"), Circuit("(Gx:0)^3@(0,1)")]
OS = ["0", "1", ("a", "1")]
# counts and times of several sizes: none of them may be rounded, and the text of two of them may not be the same
NUM = [0, 1, 7, 1000, 999999, 1000001, 123456789, 0.5, 0.1, 1 / 3, 1e-7, 1e6 + 0.25, 123456.789, 2.5e9, 1e15, 3e-5]
TIME = [0.0, 0.1, 0.25, 1 / 3, 1.0, 7.0, 1234.5678901, 1e6 + 1e-3, 1.6e9, 1.6e9 + 0.125, 1e-9]
TIDX = {t: i for i, t in enumerate(TIME)}
F32 = {float(np.float32(n)): i for i, n in enumerate(NUM)}
assert len(F32) == len(NUM)


def num(n):
    return F32.get(float(np.float32(n)), -1)


def tim(t):
    return TIDX.get(float(t), -1)


def rows(ds):
    r = []
    for c, row in ds.items():
        r.append([CS.index(c) if c in CS else -1,
                  [[OS.index(o[0] if len(o) == 1 else o) if (o[0] if len(o) == 1 else o) in OS else -1, tim(t), num(n)] for o, t, n in row]])
    return r


def make(rng, td):
    ds = DataSet(outcomeLabels=OS)
    for c in rng.sample(CS, rng.randint(1, len(CS))):
        if td:
            ts = sorted(rng.sample(range(len(TIME)), rng.randint(1, 4)), key=lambda i: TIME[i])
            ols = [rng.choice(OS) for _ in ts]
            ds.add_raw_series_data(c, ols, [TIME[i] for i in ts], [NUM[rng.randrange(len(NUM))] for _ in ts])
        else:
            n = {o: NUM[rng.randrange(len(NUM))] for o in OS}
            n[rng.choice(OS)] = NUM[rng.randrange(1, len(NUM))]
            import collections
            ds.add_count_dict(c, collections.OrderedDict(sorted(n.items(), key=lambda x: str(x[0]).lstrip("('"))))
    ds.done_adding_data()
    return ds


def histories(chk, n):
    traces = []
    for i in range(n):
        rng = random.Random(chk.rng.getrandbits(48))
        tmp = tempfile.mkdtemp(prefix="df_", dir=vf.scratch())
        ev = []
        t = 10 ** 9
        have = set()
        with vf.time_limit(60):
            for _ in range(rng.randint(3, 9)):
                f = rng.randrange(2)
                fn = os.path.join(tmp, "d%d.txt" % f)
                op = rng.choice(["write", "write", "load", "load", "load", "loadc", "loadc", "loadc", "save"])
                if op in ("load", "loadc") and f not in have:
                    op = "write"
                t += 10                       # a clock of our own: files get the times in order of writing
                e = dict(op=op, f=f, raised=False, rows=[], got=[])
                try:
                    if op in ("write", "save"):
                        td = rng.random() < 0.5
                        ds = make(rng, td)
                        e["rows"] = rows(ds)
                        if op == "save":
                            ds.save(fn)
                        elif td:
                            pygsti.io.write_dataset(fn, ds, fixedColumnMode=False, withTimes=True)
                        else:
                            pygsti.io.write_dataset(fn, ds, fixedColumnMode=rng.random() < 0.5)
                        os.utime(fn, (t, t))
                        have.add(f)
                    else:
                        kw = dict(cache=True) if op == "loadc" else {}
                        before = set(os.listdir(tmp))
                        ds = pygsti.io.load_dataset(fn, verbosity=0, **kw)
                        e["got"] = rows(ds)
                        for new in sorted(os.listdir(tmp)):
                            if os.path.getmtime(os.path.join(tmp, new)) > 1.1e9:
                                os.utime(os.path.join(tmp, new), (t, t))
                except Exception as ex:
                    e["raised"] = True
                    e["err"] = "%s: %s" % (type(ex).__name__, str(ex)[:300])
                ev.append(e)
        shutil.rmtree(tmp, ignore_errors=True)
        traces.append(dict(id="files-%d" % i, ev=ev))
    return traces
