from ..rulelib import cases

EXPLANATION = """
Every component and the whole simulation, built twice with the same symbolic configuration: one copy only answers a request, the
other one first answers different requests, whose results the caller then overwrites; results handed out earlier must stay as they are. The second copy's results must have the same
value numbers; generators are scripted, so that both copies receive the same draws.
"""
ANCHOR = "simcats/_simulation.py"


def check(R):
    I = R.session("comp", "gen", "p09", "p10", "p11", "p20", "p21", "p22", "p24", "noise", "p17", "p19", "p14", "p28", "p29", "p30", "reuse")
    for f, n in (("diagrams", 16), ("diagrams1d", 4), ("curves", 4), ("sensors", 8), ("scans", 8), ("additive", 12), ("telegraph", 12),
                 ("blurring", 8), ("jumping", 12), ("simulation", 9), ("interleaved", 9),
                 ("kept_diagrams", 16), ("kept_signals", 6), ("kept_scans", 8), ("kept_measurements", 9)):
        cases(R, I, "p30", f, n)
    for f, n in (("additive_reassigned", 12), ("telegraph_reassigned", 12), ("blurring_reassigned", 8), ("jumping_reassigned", 6),
                 ("ideal_reassigned", 8), ("curve_reassigned", 4), ("generic_reassigned", 4), ("scan_reassigned", 16),
                 ("simulation_reassigned", 9)):
        cases(R, I, "reuse", f, n)
