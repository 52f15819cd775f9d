from ..rulelib import cases

EXPLANATION = """
Parameter-role analysis: every component is constructed by name and by position and then re-assigned one parameter at a time, all
with distinct uninterpreted values.  After every step each attribute must have exactly its own value number, the printed text must
contain that value directly after the parameter's name, and the component's computation must have the value number of the
documented formula with the current values in their roles.  Values refused at construction must be refused on assignment, before
anything is stored.
"""
ANCHOR = "simcats"


def check(R):
    I = R.session("comp", "gen", "p09", "p10", "p11", "p20", "p21", "p22", "p24", "noise", "p17", "p18", "p19", "p14", "p28", "p29", "p30", "reuse")
    cases(R, I, "p18", "component", 15)
    cases(R, I, "p18", "multi_glf", 1)
    cases(R, I, "p18", "refused", 5)
    # the current value counts, also for a component that was used before
    for f, n in (("additive_reassigned", 4), ("telegraph_reassigned", 3), ("blurring_reassigned", 4), ("jumping_reassigned", 4),
                 ("ideal_reassigned", 8), ("generic_reassigned", 4), ("scan_reassigned", 8)):
        cases(R, I, "reuse", f, n)
