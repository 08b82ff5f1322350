"""C01: a data set reports exactly what was added to it."""
import dsdrive as D


def main(chk):
    chk.mc("DataSetMC", "DataSetMC_C01.cfg")
    sc = chk.scripts("DataSetMC", "DataSetGen_C01.cfg")
    tr = D.run_scripts(chk, chk.rng.sample(sc, min(len(sc), chk.n(900, 7296))), 1, "gen")
    chk.validate("DataSetTrace", tr, label="TLC-enumerated histories")
    mix = D.ADD * 2 + D.EDIT + ["done", "addfrom", "new"]
    for k in range(chk.n(1, 8)):
        tr = D.run_histories(chk, chk.n(450, 1500), mix, 2, 16, "rnd%d" % k)
        chk.validate("DataSetTrace", tr, label="random histories %d" % k)
    chk.selftest("DataSetTrace", D.corruptible(tr), D.corrupt)
