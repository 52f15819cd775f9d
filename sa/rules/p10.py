from ..rulelib import scenes

EXPLANATION = """
Both measurement entries are abstractly interpreted for every kind of sensor, resolution and given/omitted voltage, with
atoms for all values.  Decided per metadata key: presence, value number equal to the value of the request or configuration
of the same name, component state equal to the state after (not before) the measurement, and heap disjointness from
the simulation, the request objects, the results and the metadata of other measurements.
"""
ANCHOR = "simcats/_simulation.py: Simulation.measure, Simulation.measure_sensor_scan (metadata)"


def check(R):
    I = R.session("comp", "p10")
    scenes(R, I, "p10")
