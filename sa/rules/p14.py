from ..rulelib import cases

EXPLANATION = """
Value-number comparison of sweeps in opposite directions: the geometric parts of the ideal diagram, the scanned fields and the
re-simulation facility are uninterpreted functions of the voltages of each pixel, the drawing canvas records what it is handed.
For every combination of directions the content of every pixel must have the value number of the same pixel of the ascending
sweep after mirroring, and that of the field at its own voltages.
"""
ANCHOR = "simcats/ideal_csd/geometric/_ideal_csd_geometric.py"


def check(R):
    I = R.session("comp", "gen", "p09", "p10", "p11", "p24", "p19", "p14")
    for f in ("ideal2d", "wide2d", "ideal1d", "occupations1d", "rows_of_scan", "sensor_direction"):
        cases(R, I, "p14", f, 4)
    for f in ("jumps2d", "jumps2d_far", "jumps2d_small", "jumps1d", "jumps1d_plain", "plot2d", "plot1d"):
        cases(R, I, "p14", f, 8)
