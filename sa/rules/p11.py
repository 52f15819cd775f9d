from ..rulelib import scenes

EXPLANATION = """
Mod/ref analysis by abstract interpretation: every public operation (measurements, ideal diagrams, transition curves and
masks, sensors, peaks, barriers, rises, deformations, noise, filters, geometry helpers, plotting) is analysed with
uninterpreted arguments; afterwards every object reachable from an argument must hold exactly the abstract content it held
before (arrays: same value number; lists and objects: same members).  Views, slices and in-place operators write through to
the base object in the abstract heap, so an in-place update of an alias counts as an update of the argument.
"""
ANCHOR = "simcats"


def check(R):
    I = R.session("comp", "p09", "p10", "p11")
    scenes(R, I, "p11", helpers=("noises", "tct_list", "dims", "tct"), raises=False)
