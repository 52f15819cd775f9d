from comp import *

CSD_KEYS = ["sweep_range_g1", "sweep_range_g2", "volt_sensor_g1", "volt_sensor_g2", "volt_limits_g1", "volt_limits_g2",
            "volt_limits_sensor_g1", "volt_limits_sensor_g2", "resolution", "ideal_csd_config", "sensor", "occupation_distortions",
            "sensor_potential_distortions", "sensor_response_distortions"]
SCAN_KEYS = ["sweep_range_sensor_g1", "sweep_range_sensor_g2", "volt_g1", "volt_g2", "volt_limits_g1", "volt_limits_g2",
             "volt_limits_sensor_g1", "volt_limits_sensor_g2", "resolution", "ideal_csd_config", "sensor", "occupation_distortions",
             "sensor_potential_distortions", "sensor_response_distortions"]


def wide(name):
    a, b = __atom__(name + "_lo"), __atom__(name + "_hi")
    __lohi__(a, None, -1000)
    __lohi__(b, 1000, None)
    return np.array([a, b])


def near(name):
    v = volts(name)
    __lohi__(v[0], -10, 10)
    __lohi__(v[1], -10, 10)
    return v


def one(name):
    x = __atom__(name)
    __lohi__(x, -10, 10)
    return x


def full(sensor):
    return Simulation(volt_limits_g1=wide("L1"), volt_limits_g2=wide("L2"), volt_limits_sensor_g1=wide("S1"),
                      volt_limits_sensor_g2=wide("S2"), ideal_csd_config=Ideal(), sensor=sensor,
                      occupation_distortions=[OccD("A"), OccD("B")], sensor_potential_distortions=[PotD("P"), PotD("Q")],
                      sensor_response_distortions=[RespD("R"), RespD("T")])


def check_config(md, L1, L2, S1, S2, times, occ_times, frozen):
    __same__("volt_limits_g1", md["volt_limits_g1"], L1)
    __same__("volt_limits_g2", md["volt_limits_g2"], L2)
    __same__("volt_limits_sensor_g1", md["volt_limits_sensor_g1"], S1)
    __same__("volt_limits_sensor_g2", md["volt_limits_sensor_g2"], S2)
    __check__("ideal diagram kind", isinstance(md["ideal_csd_config"], Ideal))
    __same__("ideal diagram parameters", md["ideal_csd_config"].payload, [__atom__("ideal_payload")])
    __same__("sensor parameters", md["sensor"].payload, [__atom__("sensor_payload")])
    __check__("sensor state after the measurement", md["sensor"].count == times)
    o, p, r = md["occupation_distortions"], md["sensor_potential_distortions"], md["sensor_response_distortions"]
    __check__("occupation distortions listed in order", len(o) == 2 and o[0].name == "A" and o[1].name == "B"
              and isinstance(o[0], OccD) and isinstance(o[1], OccD))
    __check__("potential distortions listed in order", len(p) == 2 and p[0].name == "P" and p[1].name == "Q"
              and isinstance(p[0], PotD) and isinstance(p[1], PotD))
    __check__("response distortions listed in order", len(r) == 2 and r[0].name == "R" and r[1].name == "T"
              and isinstance(r[0], RespD) and isinstance(r[1], RespD))
    __check__("occupation distortion state after the measurement", o[0].fresh == occ_times and o[1].fresh == occ_times)


def keys_of(label, md, keys):
    for k in keys:
        __check__(label + " has " + k, k in md)


def csd_with(sensor, resolution, v1, v2, s1, s2, label):
    sim = full(sensor)
    out = sim.measure(v1, v2, s1, s2, resolution)
    __check__("four results", len(out) == 4)
    md = out[3]
    keys_of(label, md, CSD_KEYS)
    __same__("sweep_range_g1", md["sweep_range_g1"], v1)
    __same__("sweep_range_g2", md["sweep_range_g2"], v2)
    __same__("volt_sensor_g1", md["volt_sensor_g1"], s1)
    __same__("volt_sensor_g2", md["volt_sensor_g2"], s2)
    __same__("resolution", md["resolution"], resolution)
    check_config(md, wide("L1"), wide("L2"), wide("S1"), wide("S2"), 1, 1, 0)
    p = md["sensor_potential_distortions"]
    r = md["sensor_response_distortions"]
    __check__("response distortion state after the measurement", r[0].count == 1 and r[1].count == 1)
    __check__("potential distortion state after the measurement", p[0].count == p[1].count and p[0].count >= 1)
    __independent__("metadata shares nothing with the simulation", md, sim)
    __independent__("metadata shares nothing with the request", md, [v1, v2, resolution])
    __independent__("metadata shares nothing with the results", md, [out[0], out[1], out[2]])
    # a later measurement and later changes do not alter it
    out2 = sim.measure(near("c"), near("d"), None, None, res2())
    check_config(md, wide("L1"), wide("L2"), wide("S1"), wide("S2"), 1, 1, 0)
    md2 = out2[3]
    check_config(md2, wide("L1"), wide("L2"), wide("S1"), wide("S2"), 2, 2, 0)
    __same__("second sweep_range_g1", md2["sweep_range_g1"], near("c"))
    __same__("second sweep_range_g2", md2["sweep_range_g2"], near("d"))
    __same__("second volt_sensor_g1", md2["volt_sensor_g1"], None)
    __same__("second volt_sensor_g2", md2["volt_sensor_g2"], None)
    __same__("second resolution", md2["resolution"], res2())
    __independent__("two metadata share nothing", md, md2)


def csd_2d_plain():
    csd_with(Plain(), res2(), near("a"), near("b"), one("v"), one("w"), "plain 2D")


def csd_2d_scan():
    csd_with(Scan(), res2(), near("a"), near("b"), one("v"), one("w"), "scan sensor 2D")


def csd_2d_stacked():
    csd_with(Stacked(), res2(), near("a"), near("b"), None, None, "stacked 2D")


def csd_1d_int():
    csd_with(Plain(), __dim__("n"), near("a"), near("b"), one("v"), one("w"), "1D int")


def csd_1d_array():
    csd_with(Scan(), np.array([__dim__("n")]), near("a"), near("b"), None, None, "1D array")


def csd_1d_fixed():
    x = one("x")
    csd_with(Stacked(), [__dim__("n")], np.array([x, x]), near("b"), one("v"), one("w"), "1D fixed gate 1")
    csd_with(Plain(), __dim__("n"), near("a"), np.array([x, x]), one("v"), one("w"), "1D fixed gate 2")


def csd_default_resolution():
    sim = full(Plain())
    md = sim.measure(near("a"), near("b"))[3]
    __same__("default resolution", md["resolution"], np.array([100, 100]))
    __same__("default volt_sensor_g1", md["volt_sensor_g1"], None)
    __same__("default volt_sensor_g2", md["volt_sensor_g2"], None)
    md["resolution"][0] = 7
    md2 = sim.measure(near("a"), near("b"))[3]
    __same__("default resolution again", md2["resolution"], np.array([100, 100]))


def csd_unset():
    sim = Simulation(ideal_csd_config=Ideal(), sensor=Plain())
    md = sim.measure(near("a"), near("b"), resolution=res2())[3]
    keys_of("unset", md, CSD_KEYS)
    for k in ("volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2", "occupation_distortions",
              "sensor_potential_distortions", "sensor_response_distortions"):
        __same__("unset " + k, md[k], None)
    sim.volt_limits_g2 = wide("N2")
    sim.sensor_response_distortions = [RespD("late")]
    md2 = sim.measure(near("a"), near("b"), resolution=res2())[3]
    __same__("changed volt_limits_g2 is reported", md2["volt_limits_g2"], wide("N2"))
    __same__("unchanged volt_limits_g1 is reported", md2["volt_limits_g1"], None)
    __check__("changed distortions are reported", len(md2["sensor_response_distortions"]) == 1
              and md2["sensor_response_distortions"][0].name == "late")
    __same__("earlier metadata keeps volt_limits_g2", md["volt_limits_g2"], None)
    __same__("earlier metadata keeps distortions", md["sensor_response_distortions"], None)


def scan_with(sensor, resolution, s1, s2, v1, v2, label):
    sim = full(sensor)
    out = sim.measure_sensor_scan(s1, s2, v1, v2, resolution)
    __check__("four results", len(out) == 4)
    md = out[3]
    keys_of(label, md, SCAN_KEYS)
    __same__("sweep_range_sensor_g1", md["sweep_range_sensor_g1"], s1)
    __same__("sweep_range_sensor_g2", md["sweep_range_sensor_g2"], s2)
    __same__("volt_g1", md["volt_g1"], v1)
    __same__("volt_g2", md["volt_g2"], v2)
    __same__("resolution", md["resolution"], resolution)
    check_config(md, wide("L1"), wide("L2"), wide("S1"), wide("S2"), sim.sensor.count, 0, 0)
    p = md["sensor_potential_distortions"]
    r = md["sensor_response_distortions"]
    __check__("response distortion state after the measurement", r[0].count == 1 and r[1].count == 1)
    __check__("potential distortion state after the measurement", p[0].count == p[1].count and p[0].count >= 1)
    __independent__("metadata shares nothing with the simulation", md, sim)
    __independent__("metadata shares nothing with the request", md, [s1, s2, resolution])
    __independent__("metadata shares nothing with the results", md, [out[0], out[1], out[2]])
    out2 = sim.measure_sensor_scan(near("c"), near("d"), None, None, res2())
    md2 = out2[3]
    __same__("second sweep_range_sensor_g1", md2["sweep_range_sensor_g1"], near("c"))
    __same__("second sweep_range_sensor_g2", md2["sweep_range_sensor_g2"], near("d"))
    __same__("second volt_g1", md2["volt_g1"], None)
    __same__("second volt_g2", md2["volt_g2"], None)
    __same__("second resolution", md2["resolution"], res2())
    __independent__("two metadata share nothing", md, md2)
    check_config(md2, wide("L1"), wide("L2"), wide("S1"), wide("S2"), sim.sensor.count, 0, 0)
    __check__("second response distortion state", md2["sensor_response_distortions"][0].count == 2)


def scan_2d():
    scan_with(Scan(), res2(), near("a"), near("b"), one("v"), one("w"), "2D")


def scan_2d_stacked():
    scan_with(Stacked(), res2(), near("a"), near("b"), one("v"), one("w"), "stacked 2D")


def scan_2d_no_plunger():
    scan_with(Scan(), res2(), near("a"), near("b"), None, None, "2D without plunger voltages")


def scan_1d():
    scan_with(Scan(), __dim__("n"), near("a"), near("b"), one("v"), one("w"), "1D int")
    scan_with(Stacked(), np.array([__dim__("n")]), near("a"), near("b"), None, None, "1D array")


def scan_default_resolution():
    sim = full(Scan())
    md = sim.measure_sensor_scan(near("a"), near("b"))[3]
    __same__("default resolution", md["resolution"], np.array([100, 100]))
    __same__("default volt_g1", md["volt_g1"], None)
    __same__("default volt_g2", md["volt_g2"], None)
    md["resolution"][0] = 7
    md2 = sim.measure_sensor_scan(near("a"), near("b"))[3]
    __same__("default resolution again", md2["resolution"], np.array([100, 100]))


def scan_then_csd():
    """the two kinds of measurement do not leak into each other's metadata"""
    sim = full(Scan())
    a = sim.measure(near("a"), near("b"), one("v"), one("w"), res2())[3]
    b = sim.measure_sensor_scan(near("c"), near("d"), one("x"), one("y"), __dim__("n"))[3]
    c = sim.measure(near("e"), near("f"), None, None, __dim__("m"))[3]
    __same__("volt_sensor_g1 of the first", a["volt_sensor_g1"], one("v"))
    __same__("volt_sensor_g2 of the first", a["volt_sensor_g2"], one("w"))
    __same__("volt_g1 of the scan", b["volt_g1"], one("x"))
    __same__("volt_g2 of the scan", b["volt_g2"], one("y"))
    __same__("resolution of the scan", b["resolution"], __dim__("n"))
    __same__("resolution of the last", c["resolution"], __dim__("m"))
    __same__("sweep_range_g1 of the last", c["sweep_range_g1"], near("e"))
    __same__("volt_sensor_g1 of the last", c["volt_sensor_g1"], None)
    __independent__("metadata share nothing", a, [b, c])
    __independent__("metadata of scan and last share nothing", b, c)
