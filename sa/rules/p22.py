from ..rulelib import cases

EXPLANATION = """
Typestate of the sensor (remembered sweep ranges and occupation) over histories of potential, label and response evaluations: after
every history of the bounded set (potential / labels / response in all legal orders, two measurements in both kinds of sweep, 1D and
2D, with and without final rise and deformed peaks) the value numbers of the response must be those of a sensor that was used for
nothing else. Potentials, occupations, voltages, peaks and barriers are uninterpreted.
"""
ANCHOR = "simcats/sensor/_sensor_scan_sensor_generic.py"


def check(R):
    I = R.session("comp", "gen", "p09", "p10", "p11", "p12", "p20", "p21", "p22")
    cases(R, I, "p22", "response_twice", 8)
    cases(R, I, "p22", "response_twice_csd", 4)
    cases(R, I, "p22", "labels_between", 8)
    cases(R, I, "p22", "labels_between_deformed", 2)
    cases(R, I, "p22", "labels_before_deformed", 2)
    cases(R, I, "p22", "sequence", 32)
    cases(R, I, "p22", "label_history", 8)
    cases(R, I, "p22", "points", 24)
    cases(R, I, "p22", "simulated", 4)
