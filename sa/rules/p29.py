from ..rulelib import cases

EXPLANATION = """
Interdot transitions analysed with symbolic control points of the total charge transitions, voltages and width factors: the
occupation of the first dot at every point of a region with N electrons has the value number of N steps, each at the distance
(from the line through the first control points of the transitions below and above the region) of one outward corner of the
transition below the region, as wide as its round part divided by the width factor; the second dot holds the rest.
"""
ANCHOR = "simcats/ideal_csd/geometric/_get_electron_occupation.py"


def check(R):
    I = R.session("comp", "gen", "p19", "p28", "p29")
    for f in ("sweep1", "sweep2", "sweep3"):
        cases(R, I, "p29", f, 8)
    cases(R, I, "p29", "given", 8)
    cases(R, I, "p29", "oblong", 4)
    cases(R, I, "p29", "scan2d", 2)
    cases(R, I, "p29", "device", 4)
    cases(R, I, "p29", "sharp", 2)
