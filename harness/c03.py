"""C03: stored data sets come back as they were."""
import dsdrive as D
import dsfiles


def main(chk):
    chk.mc("DataSetMC", "DataSetMC_C03.cfg")
    sc = chk.scripts("DataSetMC", "DataSetGen_C03.cfg")
    tr = D.run_scripts(chk, chk.rng.sample(sc, min(len(sc), chk.n(700, 20000))), 2, "gen")
    chk.validate("DataSetTrace", tr, label="TLC-enumerated histories")
    mix = D.ADD + ["store"] * 8 + ["done", "process", "remove", "trunc", "copyns", "slice", "rename", "addaux", "merge", "addfrom", "new"]
    for k in range(chk.n(1, 8)):
        tr = D.run_histories(chk, chk.n(300, 1500), mix, 3, 16, "rnd%d" % k)
        chk.validate("DataSetTrace", tr, label="random histories %d" % k)
        chk.validate("DataSetTrace", D.run_histories(chk, chk.n(200, 1000), mix, 4, 16, "multi%d" % k, multi=True), label="multi-data-sets %d" % k)
        chain = ["store"] * 4 + ["trunc"] * 2 + ["merge", "slice", "rename", "remove", "process", "copyns"]
        chk.validate("DataSetTrace", D.run_histories(chk, chk.n(250, 1500), [], 3, 16, "chain%d" % k, chain=chain), label="stored derivations, then new outcomes %d" % k)
        chk.validate("DataSetTrace", D.run_histories(chk, chk.n(150, 1000), [], 3, 16, "gaps%d" % k, gaps=True), label="stored parts, then new outcomes %d" % k)
    chk.validate("DataSetFile", dsfiles.histories(chk, chk.n(150, 1500)), label="large numbers and cached files")
    chk.selftest("DataSetTrace", D.corruptible(tr), D.corrupt)
