"""C14: randomized-benchmarking circuits and experiments."""
import copy, random
import randdrive as D


def main(chk):
    sub = lambda: random.Random(chk.rng.random())
    chk.mc("RandCircMC", "RandCircMC1.cfg")
    chk.mc("RandCircMC", "RandCircMC.cfg" if chk.quick else "RandCircMCu.cfg")
    sc = chk.scripts("RandCircMC", "RandCircGen.cfg")
    tr = []
    for i in range(chk.n(2, 24)):
        rng = sub()
        p = D.proc(rng, 2, [["Gh", "Gp", "Gpdag", "Gxpi", "Gcnot"], ["Gh", "Gp", "Gpdag", "Gxpi", "Gypi", "Gzpi", "Gcnot"]], full=True)
        pick = chk.rng.sample(sc, min(len(sc), chk.n(60, 183)))
        tr += [D.enumerated("e%d.%d" % (i, j), sub(), pick[j:j + 10], p) for j in range(0, len(pick), 10)]
    chk.validate("RandCircTrace", tr, label="enumerated layers")
    tr = [D.one_qubit("o%d" % i, sub()) for i in range(chk.n(1, 10))]
    for i in range(chk.n(8, 200)):
        rng = sub()
        p, a = D.proc(rng), D.proc(rng, rng.choice([1, 2, 3, 3]), full=True)
        tr.append(D.layers("l%d" % i, sub(), p, a))
        tr += [D.circuits("c%d.%d" % (i, j), sub(), p if j else a) for j in range(chk.n(3, 8))]
        tr.append(D.experiments("x%d" % i, sub(), p))
        tr.append(D.designs("d%d" % i, sub(), p))
    chk.validate("RandCircTrace", tr, label="sampled circuits")
    good = next(t for t in tr if D.corrupt(copy.deepcopy(t)))
    chk.selftest("RandCircTrace", good, D.corrupt)
