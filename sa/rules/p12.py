from ..rulelib import scenes

EXPLANATION = """
Value-number comparison: ideal-diagram voltages, sensor potentials (basic and scan-capable sensors, 1D and 2D) and label
computations are analysed with distinct uninterpreted symbols for every gate, lever arm and voltage and with array contents
kept as functions of the pixel index.  The resulting per-pixel expression must have the value number of the stated sum, in which
gate 1 runs along columns and meets index 0 of every parameter, gate 2 along rows and index 1, and sensor quantities only meet
sensor quantities; any exchange changes the polynomial.
"""
ANCHOR = "simcats/sensor"


def check(R):
    I = R.session("comp", "p09", "p10", "p11", "p12")
    scenes(R, I, "p12", helpers=("grid", "pixel_volts", "spec", "spec_scan", "both", "scan_case"))
