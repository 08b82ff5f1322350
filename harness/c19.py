"""C19: exported programs perform the circuit's gates in the circuit's order."""
import exportdrive as D


def main(chk):
    chk.mc("ExportMC", "ExportMC.cfg" if chk.quick else "ExportMCt.cfg")
    sc = chk.scripts("ExportMC", "ExportGen.cfg")
    chk.validate("ExportTrace", D.words(), label="names of gates")
    chk.validate("ExportTrace", D.scripts(chk, chk.rng.sample(sc, min(len(sc), chk.n(1500, 20000)))), label="small circuits")
    tr = D.histories(chk, chk.n(250, 4000))
    chk.validate("ExportTrace", tr, label="random circuits")
    chk.selftest("ExportTrace", tr[0], D.corrupt)
