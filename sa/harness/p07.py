from comp import *


def gate(g):
    """limits and voltages in every order position: below < lower limit < two inner voltages < upper limit < above"""
    names = ["below", "low", "in1", "in2", "high", "above"]
    out = {}
    k = 0
    for n in names:
        out[n] = __atom__(g + "_" + n)
        __rank__(g, k, out[n])
        k += 1
    return out


def sim_with(G1, G2, S1, S2, aslist, ideal=True, sensor=None):
    def lim(g):
        if g is None:
            return None
        return [g["low"], g["high"]] if aslist else np.array([g["low"], g["high"]])
    return Simulation(volt_limits_g1=lim(G1), volt_limits_g2=lim(G2), volt_limits_sensor_g1=lim(S1), volt_limits_sensor_g2=lim(S2),
                      ideal_csd_config=Ideal() if ideal else None, sensor=sensor if sensor is not None else Plain(),
                      occupation_distortions=[OccD("A")], sensor_potential_distortions=[PotD("P")],
                      sensor_response_distortions=[RespD("R")])


INSIDE = ["low", "in1", "in2", "high"]
ALL = ["below", "low", "in1", "in2", "high", "above"]


def request(ok, label, f, *args, **kw):
    if ok:
        __accepts__("accepts " + label, lambda: f(*args, **kw))
    else:
        __raises__("rejects " + label, "ValueError", lambda: f(*args, **kw))


def sweep_gate1():
    G1, G2 = gate("G1"), gate("G2")
    sim = sim_with(G1, G2, None, None, False)
    r = res2()
    for a in ALL:
        for b in ALL:
            if a != b:
                ok = a in INSIDE and b in INSIDE
                request(ok, "gate 1 sweep from " + a + " to " + b, sim.measure, np.array([G1[a], G1[b]]),
                        np.array([G2["in1"], G2["in2"]]), resolution=r)


def sweep_gate2():
    G1, G2 = gate("G1"), gate("G2")
    sim = sim_with(G1, G2, None, None, False)
    r = res2()
    for a in ALL:
        for b in ALL:
            if a != b:
                ok = a in INSIDE and b in INSIDE
                request(ok, "gate 2 sweep from " + a + " to " + b, sim.measure, np.array([G1["in2"], G1["in1"]]),
                        np.array([G2[a], G2[b]]), resolution=r)


def fixed_gates():
    G1, G2 = gate("G1"), gate("G2")
    sim = sim_with(G1, G2, None, None, True)
    n = __dim__("n")
    for a in ALL:
        request(a in INSIDE, "gate 1 fixed at " + a, sim.measure, np.array([G1[a], G1[a]]), np.array([G2["in1"], G2["in2"]]),
                resolution=n)
        request(a in INSIDE, "gate 2 fixed at " + a, sim.measure, np.array([G1["in1"], G1["in2"]]), np.array([G2[a], G2[a]]),
                resolution=np.array([n]))


def only_one_limit():
    G1, G2 = gate("G1"), gate("G2")
    r = res2()
    sim = sim_with(G1, None, None, None, False)
    request(True, "any gate 2 voltages without gate 2 limits", sim.measure, np.array([G1["low"], G1["high"]]),
            np.array([G2["below"], G2["above"]]), resolution=r)
    request(False, "gate 1 leaving its limits without gate 2 limits", sim.measure, np.array([G1["low"], G1["above"]]),
            np.array([G2["below"], G2["above"]]), resolution=r)
    sim = sim_with(None, G2, None, None, True)
    request(True, "any gate 1 voltages without gate 1 limits", sim.measure, np.array([G1["above"], G1["below"]]),
            np.array([G2["high"], G2["low"]]), resolution=r)
    request(False, "gate 2 leaving its limits without gate 1 limits", sim.measure, np.array([G1["low"], G1["above"]]),
            np.array([G2["below"], G2["high"]]), resolution=r)
    sim = sim_with(None, None, None, None, True)
    request(True, "any voltages without limits", sim.measure, np.array([G1["above"], G1["below"]]),
            np.array([G2["above"], G2["below"]]), resolution=r)


def sensor_volts():
    S1, S2 = gate("S1"), gate("S2")
    r = res2()
    for sensor in (Plain(), Scan()):
        sim = sim_with(None, None, S1, S2, False, sensor=sensor)
        for a in ALL:
            request(a in INSIDE, "sensor gate 1 voltage " + a, sim.measure, volts("a"), volts("b"), S1[a], S2["in1"], r)
            request(a in INSIDE, "sensor gate 2 voltage " + a, sim.measure, volts("a"), volts("b"), S1["in1"], S2[a], r)
        request(True, "omitted sensor voltages", sim.measure, volts("a"), volts("b"), None, None, r)
        request(False, "only sensor gate 1 given", sim.measure, volts("a"), volts("b"), S1["in1"], None, r)
        request(False, "only sensor gate 2 given", sim.measure, volts("a"), volts("b"), None, S2["in1"], r)


def sensor_volts_one_limit():
    S1, S2 = gate("S1"), gate("S2")
    n = __dim__("n")
    sim = sim_with(None, None, S1, None, True)
    request(True, "any sensor gate 2 voltage without its limits", sim.measure, volts("a"), volts("b"), S1["high"], S2["above"], n)
    request(False, "sensor gate 1 leaving its limits, no limits for sensor gate 2", sim.measure, volts("a"), volts("b"),
            S1["below"], S2["in1"], n)
    request(False, "only sensor gate 2 given, limits for sensor gate 1 only", sim.measure, volts("a"), volts("b"), None, S2["in1"], n)
    request(False, "only sensor gate 1 given, limits for sensor gate 1 only", sim.measure, volts("a"), volts("b"), S1["in1"], None, n)
    sim = sim_with(None, None, None, S2, True)
    request(True, "any sensor gate 1 voltage without its limits", sim.measure, volts("a"), volts("b"), S1["above"], S2["low"], n)
    request(False, "sensor gate 2 leaving its limits, no limits for sensor gate 1", sim.measure, volts("a"), volts("b"),
            S1["in1"], S2["above"], n)
    sim = sim_with(None, None, None, None, True)
    request(True, "any sensor voltages without limits", sim.measure, volts("a"), volts("b"), S1["above"], S2["below"], n)
    request(False, "only sensor gate 1 given, no limits", sim.measure, volts("a"), volts("b"), S1["in1"], None, n)
    request(False, "only sensor gate 2 given, no limits", sim.measure, volts("a"), volts("b"), None, S2["in1"], n)


def resolutions():
    sim = sim_with(None, None, None, None, False)
    n, m, k = __dim__("n"), __dim__("m"), __dim__("k")
    __lohi__(n, 2, None)
    __lohi__(m, 2, None)
    v1, v2 = volts("a"), volts("b")
    request(True, "integer resolution", sim.measure, v1, v2, resolution=n)
    request(True, "numpy integer resolution", sim.measure, v1, v2, resolution=np.int64(100))
    request(True, "one resolution in an array", sim.measure, v1, v2, resolution=np.array([n]))
    request(True, "one resolution in a list", sim.measure, v1, v2, resolution=[n])
    request(True, "two resolutions", sim.measure, v1, v2, resolution=np.array([n, m]))
    request(True, "two resolutions in a list", sim.measure, v1, v2, resolution=[n, m])
    request(True, "resolution of two pixels", sim.measure, v1, v2, resolution=np.array([2, 2]))
    request(False, "three resolutions", sim.measure, v1, v2, resolution=np.array([n, m, k]))
    request(False, "three resolutions in a list", sim.measure, v1, v2, resolution=[n, m, k])
    request(False, "2D resolution with first entry one", sim.measure, v1, v2, resolution=np.array([1, n]))
    request(False, "2D resolution with second entry one", sim.measure, v1, v2, resolution=np.array([n, 1]))
    request(False, "2D resolution with first entry zero", sim.measure, v1, v2, resolution=np.array([0, n]))
    request(False, "2D resolution with second entry zero", sim.measure, v1, v2, resolution=[n, 0])
    request(False, "2D resolution with both entries one", sim.measure, v1, v2, resolution=np.array([1, 1]))
    x = __atom__("x")
    request(False, "2D resolution with fixed gate 1", sim.measure, np.array([x, x]), v2, resolution=np.array([n, m]))
    request(False, "2D resolution with fixed gate 2", sim.measure, v1, np.array([x, x]), resolution=np.array([n, m]))
    request(True, "1D resolution with fixed gate 1", sim.measure, np.array([x, x]), v2, resolution=n)
    request(True, "1D resolution with fixed gate 2", sim.measure, v1, np.array([x, x]), resolution=np.array([n]))


def ranges():
    sim = sim_with(None, None, None, None, False)
    x, y, z = __atom__("x"), __atom__("y"), __atom__("z")
    v1, v2 = volts("a"), volts("b")
    r = res2()
    for res in (r, __dim__("n")):
        request(False, "three voltages for gate 1", sim.measure, np.array([x, y, z]), v2, resolution=res)
        request(False, "three voltages for gate 2", sim.measure, v1, np.array([x, y, z]), resolution=res)
        request(False, "one voltage for gate 1", sim.measure, np.array([x]), v2, resolution=res)
        request(False, "one voltage for gate 2", sim.measure, v1, np.array([x]), resolution=res)


def no_ideal():
    sim = sim_with(None, None, None, None, False, ideal=False)
    request(False, "no ideal diagram configured", sim.measure, volts("a"), volts("b"), resolution=res2())
    request(False, "no ideal diagram configured (1D)", sim.measure, volts("a"), volts("b"), resolution=__dim__("n"))
