from ..rulelib import cases

EXPLANATION = """
Guards, option flow and heap separation of the configuration sampler: the quality guard is decided for the whole intervals outside and
inside of (0, 1] (interval domain), every option is an atom that has to arrive unchanged at the parts (value numbers, dependence),
the returned dictionary is bound against the constructor of the simulation, and points-to sets show that two samples share nothing
with each other or with the shipped configurations.
"""
ANCHOR = "simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py"


def check(R):
    I = R.session("comp", "gen", "p09", "p23")
    cases(R, I, "p23", "rejected", 3)
    cases(R, I, "p23", "unknown_sensor", 2)
    cases(R, I, "p23", "forwarded", 12)
    cases(R, I, "p23", "accepted", 3)
    cases(R, I, "p23", "sensors", 4)
    cases(R, I, "p23", "ideal", 1)
