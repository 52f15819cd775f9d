from ..rulelib import cases

EXPLANATION = """
Algebraic identities over value numbers: the geometry helpers are abstractly evaluated on uninterpreted points, angles, lines and
circles and their results are substituted into the equations that define rotation, signed distance, pixel conversion and
intersection; the resulting normal forms have to vanish.
"""
ANCHOR = "simcats/support_functions"


def check(R):
    I = R.session("comp", "gen", "p24", "noise", "p27")
    cases(R, I, "p27", "rotation", 3)
    cases(R, I, "p27", "distance", 2)
    cases(R, I, "p27", "pixel", 2)
    cases(R, I, "p27", "pixels", 18)
    cases(R, I, "p27", "line_line", 6)
    cases(R, I, "p27", "line_circle", 4)
    cases(R, I, "p27", "below", 4)
    cases(R, I, "p27", "nearly", 6)
