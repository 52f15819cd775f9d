from ..rulelib import cases

EXPLANATION = """
Value-range and typestate analysis of all samplers: constructors and draws are analysed with uninterpreted ranges and a generator
whose draws are uninterpreted values constrained only by what the draw documents.  For every combination of range, sampling
range (absent, narrower, too wide) and distribution the value returned must be entailed to lie in the stored range (linear
entailment in the interval/polyhedral domain), the range must be drawn once at creation inside the total range, and the last
sample must be the object returned by the latest draw.
"""
ANCHOR = "simcats/support_functions/_parameter_sampling.py"


def check(R):
    I = R.session("comp", "p16")
    for f in ("whole_range", "narrow_range", "too_wide"):
        cases(R, I, "p16", f, 9)
    cases(R, I, "p16", "reversed_exponential", 2)
    cases(R, I, "p16", "zero_samples", 4)
    cases(R, I, "p16", "zero_width", 2)
    cases(R, I, "p16", "negative_range", 6)
    cases(R, I, "p16", "centre", 3)
