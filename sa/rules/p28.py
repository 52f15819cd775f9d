from ..rulelib import cases

EXPLANATION = """
Transition curves analysed with symbolic start points, extents and straight lengths and an arbitrary function in place of the
round construction curve: in every straight part the returned ordinate has the value number of the straight line through the
corner points, in every round part that of the construction curve shifted or point-mirrored into place; the control points
computed for the interdot transitions have the value number of the same corner points after rotation.
"""
ANCHOR = "simcats/ideal_csd/geometric/_tct_bezier.py"


def check(R):
    I = R.session("comp", "gen", "p28")
    cases(R, I, "p28", "straight", 8)
    cases(R, I, "p28", "endless", 4)
    for f in ("rounded", "table", "single", "whole", "sharp"):
        cases(R, I, "p28", f, 4)
    cases(R, I, "p28", "numbers", 8)
    cases(R, I, "p28", "functions", 6)
    cases(R, I, "p28", "anchors", 6)
