from ..rulelib import cases

EXPLANATION = """
Value numbering of the sensor responses with uninterpreted potentials, peaks, barriers and final rise: the value number of every
pixel must be that of the sum of the peaks at this pixel's potential, respectively of the series connection with both barriers
evaluated at their own potentials, with the final rise entering only as maximum; for deformed peaks the distance of every pixel is
compared with the closed-form distance from the symmetry line.
"""
ANCHOR = "simcats/sensor/_sensor_scan_sensor_generic.py"


def check(R):
    I = R.session("comp", "gen", "p09", "p10", "p11", "p12", "p20")
    cases(R, I, "p20", "generic", 4)
    cases(R, I, "p20", "many", 4)
    cases(R, I, "p20", "small_levers", 8)
    cases(R, I, "p20", "scan", 18)
    cases(R, I, "p20", "closed", 12)
    cases(R, I, "p20", "scan_rise", 12)
    cases(R, I, "p20", "deformed", 12)
    cases(R, I, "p20", "deformed_rise", 2)
    cases(R, I, "p20", "deformed_plungers", 2)
