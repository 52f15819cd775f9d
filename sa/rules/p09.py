from ..rulelib import scenes

EXPLANATION = """
Every configuration property of the simulation and of both sensors is analysed with one representative of every kind of
value it may receive (right kind, every wrong kind, wrong sizes, lists with the offending element at every position,
None), by assignment and at construction.  Heap reachability in the abstract state decides independence: what the object
stores must not share any mutable object with what it was given, with default values, or with another instance.  Refused
values must end in ValueError on every path and leave the very object stored before in place.
"""
ANCHOR = "simcats/_simulation.py, simcats/sensor/_sensor_generic.py, simcats/sensor/_sensor_scan_sensor_generic.py: property setters"


def check(R):
    I = R.session("comp", "p09")
    scenes(R, I, "p09", helpers=("simulation", "wrong_parts", "rise", "barrier"))
