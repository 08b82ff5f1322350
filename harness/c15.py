"""C15: circuit lists, circuit structures and designs of gate-set tomography."""
import copy, random
import gstdrive as D


def main(chk):
    sub = lambda: random.Random(chk.rng.random())
    for i in (0, 1, 2):
        chk.mc("GstListsMC", "GstListsMC%d.cfg" % i if chk.quick else "GstListsMC%dt.cfg" % i)
    sc = chk.scripts("GstListsMC", "GstListsGen.cfg")
    sc = chk.rng.sample(sc, min(len(sc), chk.n(120, 2000)))
    tr = [D.script("e%d" % i, sub(), s) for i, s in enumerate(sc)]
    chk.validate("GstListsTrace", tr, label="enumerated histories")
    tr = [D.world("w%d" % i, sub()) for i in range(chk.n(160, 4000))]
    chk.validate("GstListsTrace", tr, label="structures")
    tr = [D.listed("l%d" % i, sub(), 8) for i in range(chk.n(160, 4000))]
    chk.validate("GstListsTrace", tr, label="lists and designs")
    good = next(t for t in tr if D.corrupt(copy.deepcopy(t)))
    chk.selftest("GstListsTrace", good, D.corrupt)
