from ..rulelib import cases

EXPLANATION = """
Array-content analysis of the ideal occupations with arbitrary transition curves and control points: for each pixel of a small
sweep or scan the two occupations must have a sum with the value number of the region's number (the count of transitions at or
below the point) and signs that cannot be negative, for both transition shapes; regions without data raise on every path; the
transition masks have the value number of the stated function of the totals (1D) and of the transition levels (2D).
"""
ANCHOR = "simcats/ideal_csd/geometric/_get_electron_occupation.py"


def check(R):
    I = R.session("comp", "gen", "p19")
    for f in ("sums1d", "sums2d", "columns2d", "mask1d", "mask2d", "mask2d_any"):
        cases(R, I, "p19", f, 4)
    cases(R, I, "p19", "missing_many", 8)
    for f in ("missing1d", "missing2d", "kinds"):
        cases(R, I, "p19", f, 2)
