from p07 import *


def measurer(sim):
    return sim.measure_sensor_scan


def sweep_sensor1():
    for sensor in (Scan(), Stacked()):
        S1, S2 = gate("S1"), gate("S2")
        sim = sim_with(None, None, S1, S2, False, sensor=sensor)
        r = res2()
        for a in ALL:
            for b in ALL:
                if a != b:
                    ok = a in INSIDE and b in INSIDE
                    request(ok, "sensor gate 1 sweep from " + a + " to " + b, sim.measure_sensor_scan, np.array([S1[a], S1[b]]),
                            np.array([S2["in1"], S2["in2"]]), resolution=r)


def sweep_sensor2():
    S1, S2 = gate("S1"), gate("S2")
    sim = sim_with(None, None, S1, S2, False, sensor=Scan())
    r = res2()
    for a in ALL:
        for b in ALL:
            if a != b:
                ok = a in INSIDE and b in INSIDE
                request(ok, "sensor gate 2 sweep from " + a + " to " + b, sim.measure_sensor_scan, np.array([S1["in2"], S1["in1"]]),
                        np.array([S2[a], S2[b]]), resolution=r)


def fixed_sensor_gates():
    S1, S2 = gate("S1"), gate("S2")
    sim = sim_with(None, None, S1, S2, True, sensor=Scan())
    n = __dim__("n")
    for a in ALL:
        request(a in INSIDE, "sensor gate 1 fixed at " + a, sim.measure_sensor_scan, np.array([S1[a], S1[a]]),
                np.array([S2["in1"], S2["in2"]]), resolution=n)
        request(a in INSIDE, "sensor gate 2 fixed at " + a, sim.measure_sensor_scan, np.array([S1["in1"], S1["in2"]]),
                np.array([S2[a], S2[a]]), resolution=np.array([n]))


def only_one_sensor_limit():
    S1, S2 = gate("S1"), gate("S2")
    r = res2()
    sim = sim_with(None, None, S1, None, False, sensor=Scan())
    request(True, "any sensor gate 2 voltages without its limits", sim.measure_sensor_scan, np.array([S1["low"], S1["high"]]),
            np.array([S2["below"], S2["above"]]), resolution=r)
    request(False, "sensor gate 1 leaving its limits without sensor gate 2 limits", sim.measure_sensor_scan,
            np.array([S1["low"], S1["above"]]), np.array([S2["below"], S2["above"]]), resolution=r)
    sim = sim_with(None, None, None, S2, True, sensor=Scan())
    request(True, "any sensor gate 1 voltages without its limits", sim.measure_sensor_scan, np.array([S1["above"], S1["below"]]),
            np.array([S2["high"], S2["low"]]), resolution=r)
    request(False, "sensor gate 2 leaving its limits without sensor gate 1 limits", sim.measure_sensor_scan,
            np.array([S1["low"], S1["above"]]), np.array([S2["below"], S2["high"]]), resolution=r)
    sim = sim_with(None, None, None, None, True, sensor=Scan())
    request(True, "any sensor voltages without limits", sim.measure_sensor_scan, np.array([S1["above"], S1["below"]]),
            np.array([S2["above"], S2["below"]]), resolution=r)


def plunger_volts():
    G1, G2 = gate("G1"), gate("G2")
    r = res2()
    for ideal in (True, False):
        sim = sim_with(G1, G2, None, None, False, ideal=ideal, sensor=Scan())
        t = " with ideal diagram" if ideal else " without ideal diagram"
        for a in ALL:
            request(a in INSIDE, "gate 1 voltage " + a + t, sim.measure_sensor_scan, volts("a"), volts("b"), G1[a], G2["in1"], r)
            request(a in INSIDE, "gate 2 voltage " + a + t, sim.measure_sensor_scan, volts("a"), volts("b"), G1["in1"], G2[a], r)
        request(True, "omitted gate voltages" + t, sim.measure_sensor_scan, volts("a"), volts("b"), None, None, r)
        request(False, "only gate 1 given" + t, sim.measure_sensor_scan, volts("a"), volts("b"), G1["in1"], None, r)
        request(False, "only gate 2 given" + t, sim.measure_sensor_scan, volts("a"), volts("b"), None, G2["in1"], r)


def plunger_volts_one_limit():
    G1, G2 = gate("G1"), gate("G2")
    n = __dim__("n")
    sim = sim_with(G1, None, None, None, True, sensor=Scan())
    f = sim.measure_sensor_scan
    request(True, "any gate 2 voltage without its limits", f, volts("a"), volts("b"), G1["high"], G2["above"], n)
    request(False, "gate 1 leaving its limits, no limits for gate 2", f, volts("a"), volts("b"), G1["below"], G2["in1"], n)
    request(False, "only gate 2 given, limits for gate 1 only", f, volts("a"), volts("b"), None, G2["in1"], n)
    sim = sim_with(None, G2, None, None, True, sensor=Scan())
    f = sim.measure_sensor_scan
    request(True, "any gate 1 voltage without its limits", f, volts("a"), volts("b"), G1["above"], G2["low"], n)
    request(False, "gate 2 leaving its limits, no limits for gate 1", f, volts("a"), volts("b"), G1["in1"], G2["above"], n)
    sim = sim_with(None, None, None, None, True, sensor=Scan())
    f = sim.measure_sensor_scan
    request(True, "any gate voltages without limits", f, volts("a"), volts("b"), G1["above"], G2["below"], n)
    request(False, "only gate 1 given, no limits", f, volts("a"), volts("b"), G1["in1"], None, n)
    request(False, "only gate 2 given, no limits", f, volts("a"), volts("b"), None, G2["in1"], n)


def resolutions():
    n, m, k = __dim__("n"), __dim__("m"), __dim__("k")
    __lohi__(n, 2, None)
    __lohi__(m, 2, None)
    x = __atom__("x")
    v1, v2 = volts("a"), volts("b")
    for ideal in (True, False):
        sim = sim_with(None, None, None, None, False, ideal=ideal, sensor=Scan())
        f = sim.measure_sensor_scan
        g = {"volt_g1": __atom__("g1"), "volt_g2": __atom__("g2")}
        t = " with ideal diagram" if ideal else " without ideal diagram"
        request(True, "integer resolution" + t, f, v1, v2, resolution=n, **g)
        request(True, "numpy integer resolution" + t, f, v1, v2, resolution=np.int64(100), **g)
        request(True, "one resolution in an array" + t, f, v1, v2, resolution=np.array([n]), **g)
        request(True, "one resolution in a list" + t, f, v1, v2, resolution=[n], **g)
        request(True, "two resolutions" + t, f, v1, v2, resolution=np.array([n, m]), **g)
        request(True, "two resolutions in a list" + t, f, v1, v2, resolution=[n, m], **g)
        request(False, "three resolutions" + t, f, v1, v2, resolution=np.array([n, m, k]), **g)
        request(False, "2D resolution with first entry one" + t, f, v1, v2, resolution=np.array([1, n]), **g)
        request(False, "2D resolution with second entry one" + t, f, v1, v2, resolution=np.array([n, 1]), **g)
        request(False, "2D resolution with second entry zero" + t, f, v1, v2, resolution=[n, 0], **g)
        request(False, "2D resolution with fixed sensor gate 1" + t, f, np.array([x, x]), v2, resolution=np.array([n, m]), **g)
        request(False, "2D resolution with fixed sensor gate 2" + t, f, v1, np.array([x, x]), resolution=np.array([n, m]), **g)
        request(True, "1D resolution with fixed sensor gate 1" + t, f, np.array([x, x]), v2, resolution=n, **g)
        request(True, "1D resolution with fixed sensor gate 2" + t, f, v1, np.array([x, x]), resolution=np.array([n]), **g)


def ranges():
    sim = sim_with(None, None, None, None, False, sensor=Scan())
    x, y, z = __atom__("x"), __atom__("y"), __atom__("z")
    v1, v2 = volts("a"), volts("b")
    for res in (res2(), __dim__("n")):
        f = sim.measure_sensor_scan
        request(False, "three voltages for sensor gate 1", f, np.array([x, y, z]), v2, resolution=res)
        request(False, "three voltages for sensor gate 2", f, v1, np.array([x, y, z]), resolution=res)
        request(False, "one voltage for sensor gate 1", f, np.array([x]), v2, resolution=res)
        request(False, "one voltage for sensor gate 2", f, v1, np.array([x]), resolution=res)


def unsupported_sensor():
    sim = sim_with(None, None, None, None, False, sensor=Plain())
    request(False, "sensor without scan support", sim.measure_sensor_scan, volts("a"), volts("b"), resolution=res2())
    request(False, "sensor without scan support (1D)", sim.measure_sensor_scan, volts("a"), volts("b"), resolution=__dim__("n"))
    request(False, "default sensor", Simulation(ideal_csd_config=Ideal()).measure_sensor_scan, volts("a"), volts("b"),
            resolution=res2())
