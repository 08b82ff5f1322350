"""C05: circuit transformations preserve the program."""
import circdrive as D


def main(chk):
    chk.mc("CircuitMC", "CircuitMC_C05.cfg")
    sc = chk.scripts("CircuitMC", "CircuitGen_C05.cfg")
    tr = D.run_scripts(chk, chk.rng.sample(sc, min(len(sc), chk.n(3000, 60000))), "gen")
    chk.validate("CircuitTrace", tr, label="every transformation of every small circuit")
    mix = D.TRANSF * 2 + ["set", "inslayers", "new", "new", "copy", "clear", "get"]
    tr = D.histories(chk, chk.n(500, 6000), mix, 24, "transf", boxes=True, pread=0.3)
    chk.validate("CircuitTrace", tr, label="random transformations")
    chk.selftest("CircuitTrace", tr[0], D.corrupt)
