from ..rulelib import cases

EXPLANATION = """
Typestate and effect analysis of frozen applications: every occupation distortion is analysed through sequences of fresh, inactive
and frozen applications with a generator and samplers that record every draw.  A frozen application must record no draw and no
sample, must transform the (uninterpreted) region data exactly as the latest fresh application's pattern or strength does (value
numbers of the array contents against the recorded pattern, or against a twin with the recorded strength), must do nothing after an
inactive or missing application, and must leave recorded strength and activation as they were.
"""
ANCHOR = "simcats/distortions"


def check(R):
    I = R.session("comp", "gen", "p24", "noise", "p03")
    cases(R, I, "p03", "jumps", 8)
    cases(R, I, "p03", "other", 8)
    cases(R, I, "p03", "blur", 12)
    cases(R, I, "p03", "fixed", 8)
    cases(R, I, "p03", "far", 16)
