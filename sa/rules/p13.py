from ..rulelib import cases

EXPLANATION = """
Unit (dimension) analysis by value numbers: dot jumps, blurring and telegraph noise are analysed with an uninterpreted strength in
volts, uninterpreted sweep voltages of different spans (either gate being the wider one) and several square and non-square resolutions in 1D and 2D.  The parameter
that reaches the draw (mean block length, mean jump height, mean burst length) or the filter (width) must have the value number of
strength times number of pixels along the own axis divided by the span of the own gate.
"""
ANCHOR = "simcats/distortions"


def check(R):
    I = R.session("comp", "gen", "p24", "noise", "p13")
    cases(R, I, "p13", "jumps", 16)
    cases(R, I, "p13", "blur", 16)
    cases(R, I, "p13", "telegraph", 24)
    cases(R, I, "p13", "jumps_small", 24)
    cases(R, I, "p13", "blur_small", 12)
    cases(R, I, "p13", "telegraph_small", 18)
