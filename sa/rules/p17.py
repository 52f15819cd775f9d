from ..rulelib import cases

EXPLANATION = """
Dependence and linearity analysis of the noise classes: input arrays are uninterpreted functions of the voltages, strengths are
uninterpreted numbers or recorded samples, random draws are uninterpreted arrays of the requested size.  Returned minus given
content must not depend on the input function (information flow on value numbers), must be a new array of the same shape with the
input left as it was, must be linear in the strength (equal to strength times the disturbance of a twin with unit strength),
exactly one sample per application may be taken and the reported strength must be that very sample.
"""
ANCHOR = "simcats/distortions"


def check(R):
    I = R.session("comp", "gen", "p24", "noise", "p17")
    cases(R, I, "p17", "white", 12)
    cases(R, I, "p17", "special", 12)
    cases(R, I, "p17", "telegraph", 18)
