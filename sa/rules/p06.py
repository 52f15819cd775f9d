from ..rulelib import scenes

EXPLANATION = """
The whole sensor-scan routine is abstractly interpreted with stand-in components that are uninterpreted functions of the
data they receive.  The value numbers of the returned scan and masks must equal those of the specified stage sequence, for
one or several stacked potentials, with and without ideal diagram / plunger voltages, for every kind of resolution and for
all given/omitted distortion lists.
"""
ANCHOR = "simcats/_simulation.py:Simulation.measure_sensor_scan"
DEEP = []


def check(R):
    I = R.session("comp", "p06")
    scenes(R, I, "p06", skip=() if R.thorough else DEEP, helpers=("oracle", "run", "twice", "scanned", "reassign"))
