from ..rulelib import scenes

EXPLANATION = """
Request space partitioned by order position of every voltage relative to its limits (outside, on, inside; both ends; both
directions; every gate), by given/omitted limits and voltages, and by every kind of resolution and range shape.  For each
partition the measurement entry is abstractly interpreted with order facts only; every path must end in ValueError before
any component call or random draw, or no path may raise.
"""
ANCHOR = "simcats/_simulation.py:Simulation.measure"


def check(R):
    I = R.session("comp", "p07")
    scenes(R, I, "p07", helpers=("gate", "sim_with", "request"))
