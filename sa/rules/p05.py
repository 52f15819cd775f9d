EXPLANATION = """
The whole measurement routine is abstractly interpreted with stand-in components that are uninterpreted functions of the
data they receive.  The value numbers of the returned arrays must equal those of the specified stage sequence, for plain,
scan-capable and stacked sensors, 1D and 2D requests, all given/omitted distortion lists; the re-simulation closure handed
to each distortion is interpreted on a fresh symbolic region.
"""
LEVEL = "other"
QUICK = ["plain2d", "plain2d_positional", "plain1d_int", "plain1d_arr", "plain_sensor_volts", "scan2d", "scan2d_positional",
         "scan1d", "scan2d_none", "stacked2d", "stacked1d", "stacked1d_none", "no_distortions_none", "no_distortions_empty",
         "only_occ", "only_pot", "only_resp", "same_kind_twice", "twice_plain", "twice_stacked", "closure1", "closure2",
         "closure3", "three", "closure4", "closure3_1d", "closure7", "seven", "seven_stacked_1d", "reassign_plain",
         "reassign_scan", "reassign_stacked", "new_components"]
DEEP = []


def check(R):
    I = R.session("comp", "p05")
    for s in QUICK + (DEEP if R.thorough else []):
        R.scene(I, "p05", s)
