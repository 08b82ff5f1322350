"""C02: derived data sets hold exactly the defined part and never alias."""
import dsdrive as D
import dsfilter


def main(chk):
    chk.mc("DataSetMC", "DataSetMC_C02.cfg")
    sc = chk.scripts("DataSetMC", "DataSetGen_C02.cfg")
    tr = D.run_scripts(chk, chk.rng.sample(sc, min(len(sc), chk.n(900, 20000))), 2, "gen")
    chk.validate("DataSetTrace", tr, label="TLC-enumerated histories")
    mix = D.ADD + D.DERIVE * 2 + D.EDIT + ["done", "addfrom", "new", "rename", "rename", "process", "process", "free"]
    for k in range(chk.n(1, 8)):
        tr = D.run_histories(chk, chk.n(350, 1500), mix, 3, 16, "rnd%d" % k)
        chk.validate("DataSetTrace", tr, label="random histories %d" % k)
        chk.validate("DataSetTrace", D.run_histories(chk, chk.n(250, 1000), mix, 4, 16, "multi%d" % k, multi=True), label="multi-data-sets %d" % k)
        chain = ["trunc"] * 3 + ["slice", "merge", "mergefn", "copy", "copyns", "trim", "rename", "process", "remove"]
        chk.validate("DataSetTrace", D.run_histories(chk, chk.n(250, 1500), [], 3, 16, "chain%d" % k, chain=chain), label="derivations, then new outcomes %d" % k)
    chk.validate("DataSetTrace", dsfilter.histories(chk, chk.n(150, 1500)), label="per-qubit marginalisation")
    chk.selftest("DataSetTrace", D.corruptible(tr), D.corrupt)
