"""C22: multiple-test corrections reject exactly what their rule rejects."""
import itertools, warnings
from fractions import Fraction as F
import numpy as np
import vf
from pygsti.objects.hypothesistest import HypothesisTest
from pygsti.objects import DataSet, Circuit, DataComparator
from pygsti.tools import hypothesis as hyp

CORR = ["Holms", "Hochberg", "Bonferroni", "none", "Benjamini-Hochberg"]
PRIME = 1009


def rat(f):
    return [f.numerator, f.denominator]


def graphs(rng, m):
    style = rng.choice(["halves", "halves", "thirds", "cycle", "partial"])
    g = [[F(0)] * m for _ in range(m)]
    for i in range(m):
        others = [j for j in range(m) if j != i]
        if not others:
            continue
        if style == "cycle":
            g[i][rng.choice(others)] = F(1)
        elif style == "partial":
            g[i][rng.choice(others)] = rng.choice([F(0), F(1, 2), F(1, 4)])
        else:
            k = 2 if style == "halves" else 3
            for _ in range(k):
                if rng.random() < 0.9:
                    g[i][rng.choice(others)] += F(1, k)
    return g


def label(rng, used, style):
    while True:
        x = rng.choice(["h%d" % rng.randint(0, 99), rng.randint(0, 99), Circuit(("Gx",) * rng.randint(1, 40))]) if style == "mixed" else "h%02d" % rng.randint(0, 99)
        if x not in used:
            used.add(x)
            return x


def pvals(rng, n, alpha, dyadic):
    if dyadic:
        return [rng.choice([alpha, alpha / 2, alpha / 4, alpha * 3 / 4, alpha * 2, F(rng.randint(0, 64), 64)]) for _ in range(n)]
    r = []
    for _ in range(n):
        c = rng.random()
        if c < 0.15 and r:
            r.append(rng.choice(r))       # ties between p-values
        else:
            top = max(2, int(alpha * PRIME / rng.choice([1, 1, 2, 3, n, n]) * rng.choice([1, 1, 2])))
            r.append(F(rng.randint(1, min(top, PRIME - 1)), PRIME))
    return r


class One(object):
    """one test object, its labels and the permutation of its hypotheses"""
    def __init__(self, rng, dyadic):
        self.rng = rng
        self.dyadic = dyadic
        self.alpha = F(rng.choice([2, 4, 8, 16, 32]), 64)
        used = set()
        style = rng.choice(["str", "str", "mixed"])
        if dyadic:
            m = rng.choice([1, 2])
            self.sizes = [rng.choice([0, 1, 2, 4])] if m == 1 else rng.choice([[0, 0], [0, 2], [4, 0], [2, 4], [1, 2]])
        else:
            m = rng.randint(1, 5)
            self.sizes = [rng.choice([0, 0, 0, rng.randint(1, 6)]) for _ in range(m)]
        self.kind = [rng.choice(CORR) if s else "" for s in self.sizes]
        if rng.random() < 0.5 and any(self.kind):
            c = rng.choice([k for k in self.kind if k])
            self.kind = [c if k else "" for k in self.kind]
        self.w = [1] * m if (dyadic or rng.random() < 0.4) else [rng.randint(0, 4) for _ in range(m)]
        if not any(self.w):
            self.w[0] = 1
        self.holm = dyadic or rng.random() < 0.4
        self.g = graphs(rng, m)
        self.labels = [label(rng, used, style) if not s else tuple(label(rng, used, style) for _ in range(s)) for s in self.sizes]
        perm = list(range(m))
        rng.shuffle(perm)
        inner = {}
        for i in range(m):
            if self.sizes[i]:
                q = list(range(self.sizes[i]))
                rng.shuffle(q)
                inner[i] = q
        self.shown = [self.labels[i] if not self.sizes[i] else tuple(self.labels[i][j] for j in inner[i]) for i in range(m)]
        hyps = [self.shown[i] for i in perm]
        hyps = tuple(hyps) if rng.random() < 0.5 else hyps
        corr = set(k for k in self.kind if k)
        if len(corr) == 1 and rng.random() < 0.7:
            lc = corr.pop()
        else:
            lc = {self.shown[i]: self.kind[i] for i in range(m) if self.kind[i]}
        weighting = {self.shown[i]: self.w[i] for i in range(m)}
        if len(set(self.w)) == 1 and rng.random() < 0.5:
            weighting = "equal"
        pg = "Holms" if self.holm else np.array([[float(self.g[perm[a]][perm[b]]) for b in range(m)] for a in range(m)])
        self.t = HypothesisTest(hyps, significance=float(self.alpha), weighting=weighting, passing_graph=pg, local_corrections=lc)

    def cfg(self):
        return dict(kind=self.kind, alpha=rat(self.alpha), w=self.w, holm=bool(self.holm), graph=[[rat(x) for x in r] for r in self.g])

    def addp(self):
        self.p = [pvals(self.rng, max(1, s), self.alpha, self.dyadic) for s in self.sizes]
        d = {}
        for i, s in enumerate(self.sizes):
            for j in range(max(1, s)):
                d[self.labels[i][j] if s else self.labels[i]] = float(self.p[i][j])
        self.t.add_pvalues(d)
        if self.rng.random() < 0.3:
            for k in d:
                d[k] = 0.5     # the caller's dictionary is his own
        return dict(op="pvalues", p=[[rat(x) for x in q] for q in self.p])

    def run(self):
        self.t.implement()
        r = self.t.hypothesis_rejected
        return dict(op="implement", got=[[bool(r[self.labels[i][j] if s else self.labels[i]]) for j in range(max(1, s))]
                                          for i, s in enumerate(self.sizes)])


def big(o):
    """skip configurations whose exact rationals outgrow TLC's integers"""
    m = len(o.sizes)
    if o.holm and m <= 5:
        return False
    from fractions import Fraction
    al = [o.alpha * o.w[i] / sum(o.w) for i in range(m)]
    g = [[F(0) if o.sizes[i] else o.g[i][j] for j in range(m)] for i in range(m)]
    lim = 2 ** 31 // (PRIME * 2)
    worst = 0
    for order in itertools.permutations([i for i in range(m) if not o.sizes[i]]):
        a, h = list(al), [list(r) for r in g]
        R = set()
        for x in order:
            R.add(x)
            for l in range(m):
                if l not in R:
                    a[l] += a[x] * h[x][l]
            nh = [[F(0)] * m for _ in range(m)]
            for l in range(m):
                for k in range(m):
                    if l != k and l not in R and k not in R:
                        b = 1 - h[l][x] * h[x][l]
                        nh[l][k] = (h[l][k] + h[l][x] * h[x][k]) / b if b else F(0)
            h = nh
            worst = max([worst] + [z.denominator for z in a] + [z.denominator ** 2 for r in h for z in r])
    return worst * 6 > lim


def comparator(rng, i):
    """the same machinery as used to compare data sets, with known p-values in place of the computed ones"""
    n = rng.randint(1, 6)
    circs = [Circuit(("Gx",) * k) for k in range(1, n + 1)]
    dss = []
    for _ in range(rng.choice([2, 2, 3])):
        ds = DataSet(outcomeLabels=["0", "1"])
        for c in circs:
            a = rng.randint(1, 99)
            ds.add_count_dict(c, {"0": a, "1": 100 - a})
        ds.done_adding_data()
        dss.append(ds)
    dc = DataComparator(dss)
    alpha = F(rng.choice([2, 4, 8, 16]), 64)
    corr = rng.choice(CORR)
    pas = rng.random() < 0.6
    wn = rng.choice([0, 1, 2, 3])
    ev = []
    for _ in range(2):
        pa = pvals(rng, 1, alpha, False)[0]
        ps = pvals(rng, n, alpha, False)
        for c, x in zip(circs, ps):
            dc.pVals[c] = float(x)
        dc.aggregate_pVal = float(pa)
        ev.append(dict(op="pvalues", p=[[rat(pa)], [rat(x) for x in ps]]))
        dc.implement(significance=float(alpha), per_sequence_correction=corr, aggregate_test_weighting=wn / 4, pass_alpha=pas, verbosity=0)
        r = dc.results.hypothesis_rejected
        got = [bool(r[c]) for c in circs]
        assert int(dc.number_of_significant_sequences) == sum(got)
        assert bool(dc.inconsistent_datasets_detected) == (any(got) or bool(r["aggregate"]))
        ev.append(dict(op="implement", got=[[bool(r["aggregate"])], got]))
    z = [0, 1]
    return dict(id="cmp-%d" % i, ev=ev, cfg=dict(kind=["", corr], alpha=rat(alpha), w=[wn, 4 - wn], holm=bool(pas), graph=[[z, z], [z, z]]))


def corrections(rng, i):
    ev = []
    for _ in range(4):
        alpha = F(rng.randint(1, 60), 64)
        n = rng.randint(1, 12)

        def asrat(x, den):
            k = round(float(x) * den)
            return rat(F(k, den)) if abs(float(x) * den - k) < 1e-6 else [-1, 1]
        if rng.random() < 0.3:
            x, k = F(rng.randint(1, 7), 8), rng.randint(1, 4)
            al = 1 - (1 - x) ** k
            got = hyp.sidak_correction(float(al), k)
            if rng.random() < 0.5 and al < F(3, 4):      # the same level reached as a share of a larger one
                al2 = al * F(4, 3)
                got = hyp.generalized_bonferroni_correction(float(al2), [0.75, 0.25], [k, 1], nested_method="sidak")[0]
            ev.append(dict(op="sidak", alpha=[rat(al)], n=[k], got=[asrat(got, 8)]))
        elif rng.random() < 0.4:
            ev.append(dict(op="corr", what="bonferroni", alpha=rat(alpha), n=n, got=[asrat(hyp.bonferroni_correction(float(alpha), n), 64 * n)]))
        else:
            w = [rng.randint(0, 4) for _ in range(rng.randint(1, 4))]
            w[0] += 1
            num = [rng.randint(1, 9) for _ in w] if rng.random() < 0.6 else []
            got = hyp.generalized_bonferroni_correction(float(alpha), [x / sum(w) for x in w], num or None)
            ev.append(dict(op="corr", what="generalized", alpha=rat(alpha), w=w, num=num,
                           got=[asrat(x, 64 * sum(w) * (num[j] if num else 1)) for j, x in enumerate(got)]))
    return dict(id="corr-%d" % i, ev=ev, cfg=dict(kind=[], alpha=[1, 2], w=[], holm=True, graph=[]))


def main(chk):
    warnings.simplefilter("ignore")
    chk.mc("HypoTestMC", "HypoTestMC_q.cfg" if chk.quick else "HypoTestMC.cfg")
    rng = chk.rng
    tr = []
    n = chk.n(4000, 40000)
    while len(tr) < n:
        o = One(rng, rng.random() < 0.25)
        if big(o):
            continue
        ev = []
        for _ in range(rng.choice([1, 1, 2])):
            ev.append(o.addp())
            for _ in range(rng.choice([1, 1, 2])):
                ev.append(o.run())
        tr.append(dict(id="test-%d" % len(tr), cfg=o.cfg(), ev=ev))
    chk.validate("HypoTestTrace", tr, label="hypothesis tests")
    chk.validate("HypoTestTrace", [comparator(rng, i) for i in range(chk.n(150, 1500))], label="data comparators")
    chk.validate("HypoTestTrace", [corrections(rng, i) for i in range(chk.n(200, 2000))], label="plain corrections")

    def corrupt(t):
        t["ev"][1]["got"][0][0] = not t["ev"][1]["got"][0][0]
        return t
    chk.selftest("HypoTestTrace", tr[0], corrupt)
