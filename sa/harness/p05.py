from comp import *


def oracle(sensor_kind, occ_names, pot_names, resp_names, v1, v2, s1, s2, resolution):
    sh = shape_of(resolution)
    occ = __oparr__("occ", sh + (2,), v1[0], v1[1], v2[0], v2[1], sh)
    lt = __oparr__("lt", sh, v1[0], v1[1], v2[0], v2[1], sh)
    for n in occ_names:
        occ, lt = occ_effect(n, occ, lt, v1, v2, False)
    if sensor_kind == "plain":
        mu = plain_potential(occ, v1, v2)
    elif sensor_kind == "scan":
        mu = scan_potential(occ, v1, v2, s1, s2)
    else:
        mu = stacked_potential(occ, v1, v2, s1, s2)
    for n in pot_names:
        if sensor_kind == "stacked":
            new = np.zeros(mu.shape)
            for k in range(3):
                new[k] = pot_effect(n, mu[k], v1, v2)
            mu = new
        else:
            mu = pot_effect(n, mu, v1, v2)
    csd = stacked_response(mu) if sensor_kind == "stacked" else response_effect(mu)
    for n in resp_names:
        csd = resp_effect(n, csd, v1, v2)
    return csd, occ, lt


def make(kind):
    return Plain() if kind == "plain" else Scan() if kind == "scan" else Stacked()


def run(kind, occ_names, pot_names, resp_names, resolution, given, empty, positional):
    v1, v2 = volts("a"), volts("b")
    s1, s2 = (__atom__("s1"), __atom__("s2")) if given else (None, None)
    occs = [OccD(n) for n in occ_names]
    pots = [PotD(n) for n in pot_names]
    resps = [RespD(n) for n in resp_names]
    if empty:
        occs, pots, resps = occs or None, pots or None, resps or None
    sim = Simulation(ideal_csd_config=Ideal(), sensor=make(kind), occupation_distortions=occs,
                     sensor_potential_distortions=pots, sensor_response_distortions=resps)
    w1, w2 = v1.copy(), v2.copy()
    if positional:
        csd, occ, lt, md = sim.measure(v1, v2, s1, s2, resolution)
    else:
        csd, occ, lt, md = sim.measure(sweep_range_g1=v1, sweep_range_g2=v2, volt_sensor_g1=s1, volt_sensor_g2=s2,
                                       resolution=resolution)
    ecsd, eocc, elt = oracle(kind, occ_names, pot_names, resp_names, w1, w2, s1, s2, resolution)
    __same__("occupations: ideal occupations with every occupation distortion once, in order", occ, eocc)
    __same__("lead transitions: ideal data with every occupation distortion once, in order", lt, elt)
    __same__("csd: response distortions of the response of the distorted potential", csd, ecsd)
    for d in (sim.occupation_distortions or []):
        __check__("every occupation distortion applied exactly once per measurement", d.fresh == 1)
    n = 3 if kind == "stacked" else 1
    for d in (sim.sensor_potential_distortions or []):
        __check__("every potential distortion applied exactly once per potential", d.count == n)
    for d in (sim.sensor_response_distortions or []):
        __check__("every response distortion applied exactly once per measurement", d.count == 1)


def twice(kind, resolution):
    """a second measurement of other voltages starts from fresh data"""
    v1, v2 = volts("a"), volts("b")
    x1, x2 = volts("c"), volts("d")
    sim = Simulation(ideal_csd_config=Ideal(), sensor=make(kind), occupation_distortions=[OccD("A"), OccD("B")],
                     sensor_potential_distortions=[PotD("P")], sensor_response_distortions=[RespD("R")])
    s1, s2 = __atom__("s1"), __atom__("s2")
    first = sim.measure(v1, v2, s1, s2, resolution)
    csd, occ, lt, md = sim.measure(x1, x2, s2, s1, resolution)
    ecsd, eocc, elt = oracle(kind, ["A", "B"], ["P"], ["R"], x1, x2, s2, s1, resolution)
    __same__("second measurement: occupations", occ, eocc)
    __same__("second measurement: lead transitions", lt, elt)
    __same__("second measurement: csd", csd, ecsd)


def closure(n, resolution):
    """re-simulation facility handed to the n-th distortion"""
    v1, v2 = volts("a"), volts("b")
    names = ["A", "B", "C", "D"][:n]
    sim = Simulation(ideal_csd_config=Ideal(), sensor=Plain(),
                     occupation_distortions=[OccD(x, probe=(x == names[-1])) for x in names])
    sim.measure(v1, v2, resolution=resolution)
    ds = sim.occupation_distortions
    p, q = np.array([__atom__("p0"), __atom__("p1")]), np.array([__atom__("q0"), __atom__("q1")])
    sh = (__atom__("pn", "dim"), __atom__("pm", "dim"))
    occ = __oparr__("occ", sh + (2,), p[0], p[1], q[0], q[1], sh)
    lt = __oparr__("lt", sh, p[0], p[1], q[0], q[1], sh)
    for x in names[:-1]:
        occ, lt = occ_effect(x, occ, lt, p, q, True)
    __same__("re-simulation: ideal data of the requested region with the earlier distortions frozen, in order (occupations)",
             ds[-1].probed[0], occ)
    __same__("re-simulation: ideal data of the requested region with the earlier distortions frozen, in order (transitions)",
             ds[-1].probed[1], lt)
    for d in ds:
        __check__("re-simulation applies earlier distortions frozen only", d.fresh == 1)
    for d in ds[:-1]:
        __check__("re-simulation applies every earlier distortion exactly once", d.frozen == 1)
    __check__("the distortion itself is not part of its re-simulation", ds[-1].frozen == 0)


def plain2d():
    run("plain", ["A", "B"], ["P", "Q"], ["R", "S"], res2(), False, False, False)


def plain2d_positional():
    run("plain", ["A", "B"], ["P", "Q"], ["R", "S"], res2(), False, False, True)


def plain1d_int():
    n = __dim__("n")
    run("plain", ["A", "B"], ["P", "Q"], ["R", "S"], n, False, False, False)


def plain1d_arr():
    n = __dim__("n")
    run("plain", ["A", "B"], ["P", "Q"], ["R", "S"], np.array([n]), False, False, False)


def plain_sensor_volts():
    run("plain", ["A", "B"], ["P", "Q"], ["R", "S"], res2(), True, False, False)


def scan2d():
    run("scan", ["A", "B"], ["P", "Q"], ["R", "S"], res2(), True, False, False)


def scan2d_positional():
    run("scan", ["A", "B"], ["P", "Q"], ["R", "S"], res2(), True, False, True)


def scan1d():
    run("scan", ["A", "B"], ["P", "Q"], ["R", "S"], __dim__("n"), True, False, False)


def scan2d_none():
    run("scan", ["A", "B"], ["P", "Q"], ["R", "S"], res2(), False, False, False)


def stacked2d():
    run("stacked", ["A", "B"], ["P", "Q"], ["R", "S"], res2(), True, False, False)


def stacked1d():
    run("stacked", ["A", "B"], ["P", "Q"], ["R", "S"], __dim__("n"), True, False, False)


def stacked1d_none():
    run("stacked", ["A", "B"], ["P", "Q"], ["R", "S"], np.array([__dim__("n")]), False, False, False)


def no_distortions_none():
    run("plain", [], [], [], res2(), False, True, False)


def no_distortions_empty():
    run("plain", [], [], [], res2(), False, False, False)


def only_occ():
    run("plain", ["A"], [], [], res2(), False, True, False)


def only_pot():
    run("plain", [], ["P"], [], res2(), False, True, False)


def only_resp():
    run("stacked", [], [], ["R"], res2(), True, True, False)


def three():
    run("stacked", ["A", "B", "C"], ["P", "Q", "T"], ["R", "S", "U"], res2(), True, False, False)


def same_kind_twice():
    run("scan", ["A", "A"], ["P", "P"], ["R", "R"], res2(), True, False, False)


def twice_plain():
    twice("plain", res2())


def twice_stacked():
    twice("stacked", res2())


def closure1():
    closure(1, res2())


def closure2():
    closure(2, res2())


def closure3():
    closure(3, res2())


def closure4():
    closure(4, res2())


def closure3_1d():
    closure(3, __dim__("n"))


SEVEN = ["A", "B", "C", "D", "E", "F", "G"]


def seven():
    run("plain", SEVEN, ["P", "Q", "T", "V", "W", "X", "Y"], ["R", "S", "U", "Z", "M", "N", "L"], res2(), True, False, False)


def seven_stacked_1d():
    run("stacked", SEVEN, ["P", "Q", "T", "V", "W", "X", "Y"], ["R", "S", "U", "Z", "M", "N", "L"], __dim__("n"), True, False,
        False)


def closure7():
    """the n-th of many distortions gets the earlier ones"""
    v1, v2 = volts("a"), volts("b")
    sim = Simulation(ideal_csd_config=Ideal(), sensor=Plain(),
                     occupation_distortions=[OccD(x, probe=(x == "G")) for x in SEVEN])
    sim.measure(v1, v2, resolution=res2())
    ds = sim.occupation_distortions
    p, q = np.array([__atom__("p0"), __atom__("p1")]), np.array([__atom__("q0"), __atom__("q1")])
    sh = (__atom__("pn", "dim"), __atom__("pm", "dim"))
    occ = __oparr__("occ", sh + (2,), p[0], p[1], q[0], q[1], sh)
    lt = __oparr__("lt", sh, p[0], p[1], q[0], q[1], sh)
    for x in SEVEN[:-1]:
        occ, lt = occ_effect(x, occ, lt, p, q, True)
    __same__("re-simulation with six earlier distortions (occupations)", ds[-1].probed[0], occ)
    __same__("re-simulation with six earlier distortions (transitions)", ds[-1].probed[1], lt)


def measured(label, sim, kind, occs, pots, resps):
    v1, v2 = volts("a"), volts("b")
    s1, s2 = __atom__("s1"), __atom__("s2")
    r = res2()
    csd, occ, lt, md = sim.measure(v1, v2, s1, s2, r)
    ecsd, eocc, elt = oracle(kind, occs, pots, resps, v1, v2, s1, s2, r)
    __same__(label + ": occupations", occ, eocc)
    __same__(label + ": lead transitions", lt, elt)
    __same__(label + ": csd", csd, ecsd)


def reassign(kind):
    """the distortions that are active are those configured when the measurement starts"""
    sim = Simulation(ideal_csd_config=Ideal(), sensor=make(kind))
    measured("without distortions", sim, kind, [], [], [])
    sim.occupation_distortions = [OccD("A")]
    sim.sensor_potential_distortions = [PotD("P"), PotD("Q")]
    sim.sensor_response_distortions = [RespD("R")]
    measured("configured after construction", sim, kind, ["A"], ["P", "Q"], ["R"])
    sim.occupation_distortions = [OccD("C"), OccD("B")]
    sim.sensor_potential_distortions = [PotD("T")]
    sim.sensor_response_distortions = [RespD("S"), RespD("U")]
    measured("replaced", sim, kind, ["C", "B"], ["T"], ["S", "U"])
    sim.occupation_distortions = []
    sim.sensor_potential_distortions = []
    sim.sensor_response_distortions = []
    measured("removed with empty lists", sim, kind, [], [], [])
    sim.occupation_distortions = [OccD("B")]
    sim.sensor_potential_distortions = [PotD("Q")]
    sim.sensor_response_distortions = [RespD("U")]
    measured("configured again", sim, kind, ["B"], ["Q"], ["U"])
    sim.occupation_distortions = None
    sim.sensor_potential_distortions = None
    sim.sensor_response_distortions = None
    measured("removed with None", sim, kind, [], [], [])


def reassign_plain():
    reassign("plain")


def reassign_scan():
    reassign("scan")


def reassign_stacked():
    reassign("stacked")


def new_components():
    """the sensor and the ideal diagram used are those configured when the measurement starts"""
    sim = Simulation(ideal_csd_config=Ideal(), sensor=Scan(), occupation_distortions=[OccD("A")])
    measured("first sensor", sim, "scan", ["A"], [], [])
    sim.sensor = Stacked()
    measured("second sensor", sim, "stacked", ["A"], [], [])
    sim.sensor = Plain()
    measured("third sensor", sim, "plain", ["A"], [], [])
    sim.sensor = Scan()
    measured("fourth sensor", sim, "scan", ["A"], [], [])
