"""C13: Clifford algebra in symplectic form, compilation libraries, compilers."""
import copy, random
import symdrive as D
import vf


def main(chk):
    sub = lambda: random.Random(chk.rng.random())
    chk.mc("CliffordMC", "CliffordMC1.cfg")
    chk.mc("CliffordMC", "CliffordMC.cfg" if chk.quick else "CliffordMCu.cfg")
    sc = chk.scripts("CliffordMC", "CliffordGen1.cfg") + chk.scripts("CliffordMC", "CliffordGen.cfg")
    pick = sc[:24] + chk.rng.sample(sc, chk.n(180, 9000))
    tr = [D.words("w%d" % i, sub(), pick[i:i + 12]) for i in range(0, len(pick), 12)]
    tr.append(D.tables("tables", sub()))
    chk.validate("CliffordAlgTrace", tr, label="enumerated Cliffords")
    tr = [D.algebra("a%d" % i, sub()) for i in range(chk.n(70, 2500))]
    tr += [D.matrices("m%d" % i, sub()) for i in range(chk.n(30, 800))]
    chk.validate("CliffordAlgTrace", tr, label="algebra")
    tr = []
    for i in range(chk.n(9, 300)):
        proc = D.Proc(sub(), slow=not chk.quick).build()
        tr += [D.compiles("c%d.%d" % (i, j), sub(), proc) for j in range(chk.n(2, 6))]
        tr.append(D.library("l%d" % i, sub(), proc))
        tr.append(D.requests("r%d" % i, sub(), proc))
    chk.validate("CliffordAlgTrace", tr, label="compilers")
    good = next(t for t in tr if D.corrupt(copy.deepcopy(t)))
    chk.selftest("CliffordAlgTrace", good, D.corrupt)
