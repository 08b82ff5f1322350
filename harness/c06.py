"""C06: a circuit and its text, hash, pickle and parsed forms denote the same thing."""
import textdrive as D


def main(chk):
    chk.mc("CircTextMC", "CircTextMC.cfg")
    sc = chk.scripts("CircTextMC", "CircTextGen.cfg")
    chk.validate("CircTextTrace", D.scripts(chk, chk.rng.sample(sc, min(len(sc), chk.n(4000, 200000)))), label="short token sequences")
    tr = D.histories(chk, chk.n(250, 4000))
    chk.validate("CircTextTrace", tr, label="random texts and circuits")
    chk.validate("CircTextTrace", D.operated(chk, chk.n(60, 1500)), label="texts of operated circuits")
    chk.selftest("CircTextTrace", tr[0], D.corrupt)
