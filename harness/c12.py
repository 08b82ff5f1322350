"""C12: stabilizer simulation agrees with quantum mechanics."""
import random
import stabdrive as D


def main(chk):
    chk.mc("StabilizerMC", "StabilizerMC.cfg")
    if not chk.quick:
        chk.mc("StabilizerMC", "StabilizerMCt.cfg")
    sc = chk.scripts("StabilizerMC", "StabilizerGen.cfg")
    if not chk.quick:
        sc3 = chk.scripts("StabilizerMC", "StabilizerGen3.cfg")
    tr = []
    for route in ("frame", "sp", "rep"):
        pick = chk.rng.sample(sc, min(len(sc), chk.n(60, 480)))
        tr += [D.script("%s-%d" % (route, i), pick[i:i + 10], random.Random(chk.rng.random()), route) for i in range(0, len(pick), 10)]
        if not chk.quick:
            pick = chk.rng.sample(sc3, 600)
            tr += [D.script("%s3-%d" % (route, i), pick[i:i + 6], random.Random(chk.rng.random()), route) for i in range(0, len(pick), 6)]
    chk.validate("StabilizerTrace", tr, label="enumerated states")
    tr = [D.history("h%d" % i, random.Random(chk.rng.random())) for i in range(chk.n(160, 4000))]
    chk.validate("StabilizerTrace", tr, label="random histories")
    mt = [D.models("m%d" % i, random.Random(chk.rng.random())) for i in range(chk.n(40, 800))]
    chk.validate("StabilizerTrace", mt, label="models")
    good = next(t for t in tr if D.corrupt(t))
    chk.selftest("StabilizerTrace", good, D.corrupt)
