"""C04: editing a circuit changes exactly the addressed layers and lines."""
import circdrive as D


def main(chk):
    chk.mc("CircuitMC", "CircuitMC_C04.cfg")
    sc = chk.scripts("CircuitMC", "CircuitGen_C04.cfg")
    tr = D.run_scripts(chk, chk.rng.sample(sc, min(len(sc), chk.n(3000, 60000))), "gen")
    chk.validate("CircuitTrace", tr, label="every edit of every small circuit")
    tr = D.histories(chk, chk.n(500, 6000), D.EDITS, 24, "edit", boxes=True)
    chk.validate("CircuitTrace", tr, label="random edits")
    chk.selftest("CircuitTrace", tr[0], D.corrupt)
