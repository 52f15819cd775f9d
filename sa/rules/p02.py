from ..rulelib import cases

EXPLANATION = """
Effect and typestate analysis: every distortion with an occurrence ratio is analysed with a generator whose decision is fixed to
active or inactive and which records every draw.  For inactive applications the recorded draws must be exactly one decision with
the configured ratio, no parameter may be sampled, and the content of the returned and the given arrays must keep its value
number; for active ones the disturbance must be applied.  Sequences active / inactive / frozen on one object check that the
reported activation (property and printed form) is that of the latest fresh application.
"""
ANCHOR = "simcats/distortions"


def check(R):
    I = R.session("comp", "gen", "p24", "noise", "p02")
    cases(R, I, "p02", "telegraph", 12)
    cases(R, I, "p02", "jumps", 8)
    cases(R, I, "p02", "unswept", 4)
    cases(R, I, "p02", "certain", 12)
    cases(R, I, "p02", "certain_jumps", 4)
