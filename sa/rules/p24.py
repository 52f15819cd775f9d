from ..rulelib import cases, scenes

EXPLANATION = """
Array-content analysis of the dot jumps: the occupation and transition arrays are uninterpreted functions of the voltages at each
pixel, and so is the re-simulation facility for adjoining regions.  For both axes, all sweep directions, 1D and 2D, with and without
re-simulation and lead transitions and for several shift patterns, the content of every pixel after the jump must have the value
number of the function at the voltage shifted by a whole number of steps along the jump axis, the same pattern for both dots and
the transitions, the other gate's voltage unchanged.
"""
ANCHOR = "simcats/distortions/_dot_jumps.py"


def check(R):
    I = R.session("comp", "gen", "p24")
    for f in ("test2d", "small2d", "far2d", "none2d", "inner2d", "plain2d", "test1d", "small1d", "inner1d", "plain1d", "fixed1d"):
        cases(R, I, "p24", f, 8)
    scenes(R, I, "p24", only=("pixelwise", "huge"))
