from ..rulelib import cases

EXPLANATION = """
Sign, monotonicity and limit analysis of the normal forms of all response, logistic and transition functions with uninterpreted
parameters (bounded only in sign): peaks have value offset plus height at the centre, are mirror symmetric, strictly fall off
(monotonicity domain) and tend to the offset (limit domain); logistic functions are strictly monotone between their two limits;
inverse, pinch-off and fully conductive points are checked by composing the functions; transition functions run from 0 to 1
through 1/2; the weights handed to the convolution are symmetric, non-negative and sum to one.
"""
ANCHOR = "simcats/support_functions"


def check(R):
    I = R.session("comp", "gen", "p24", "noise", "p18", "p25")
    cases(R, I, "p25", "peak", 2)
    cases(R, I, "p25", "logistic", 32)
    cases(R, I, "p25", "inverse", 2)
    cases(R, I, "p25", "transition", 2)
    cases(R, I, "p25", "kernel", 3)
    cases(R, I, "p25", "width", 3)
    cases(R, I, "p25", "orientation", 5)
    cases(R, I, "p25", "wide_kernel", 2)
