from ..rulelib import cases

EXPLANATION = """
Alias and content analysis: every occupation distortion is applied to arrays with uninterpreted content in 1D and 2D, fresh and
frozen, with and without lead-transition data and re-simulation, for every combination of sweep directions, active and inactive,
and on windows of larger arrays.  The returned objects must be the objects handed over (abstract identity, not equality) and the
content of those objects after the call must have the value number of the specified disturbance.
"""
ANCHOR = "simcats/distortions"


def check(R):
    I = R.session("comp", "gen", "p24", "noise", "p04")
    cases(R, I, "p04", "jumps", 8)
    cases(R, I, "p04", "view", 8)
    cases(R, I, "p04", "inactive", 8)
    cases(R, I, "p04", "blur", 12)
