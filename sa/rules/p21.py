from ..rulelib import cases

EXPLANATION = """
Value numbering of both label masks for arbitrary potentials of a two and a one dimensional sweep (all resolutions): the conductive
mask must have the value number of the three-regime definition, the peak mask that of the nearest point of every peak (per line),
numbered in configuration order whatever the order of the peaks, zero outside of the oscillation regime; repeated evaluation and
evaluation after another measurement must give the same value numbers again.
"""
ANCHOR = "simcats/sensor/_sensor_scan_sensor_generic.py"


def check(R):
    I = R.session("comp", "gen", "p09", "p10", "p11", "p12", "p20", "p21")
    cases(R, I, "p21", "conductive", 24)
    cases(R, I, "p21", "wavefronts", 14)
    cases(R, I, "p21", "bent", 18)
    cases(R, I, "p21", "again", 8)
