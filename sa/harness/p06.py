from comp import *


def oracle(kind, pot_names, resp_names, g1, g2, s1, s2, sh, ideal):
    if ideal and g1 is not None:
        src = __oparr__("occ", (1, 2), g1, g1, g2, g2, (1,))
        occ = np.zeros(sh + (2,))
        occ[..., 0] = src[0, 0]
        occ[..., 1] = src[0, 1]
    else:
        occ = np.zeros(sh + (2,))
    if kind == "scan":
        mu = scan_potential(occ, g1, g2, s1, s2)
        cm, pm = label_effect(g1, g2, s1, s2, mu)
    else:
        mu = stacked_potential(occ, g1, g2, s1, s2)
        cm, pm = label_effect(g1, g2, s1, s2, mu[0])
    for n in pot_names:
        if kind == "stacked":
            new = np.zeros(mu.shape)
            for k in range(3):
                new[k] = pot_effect(n, mu[k], s1, s2)
            mu = new
        else:
            mu = pot_effect(n, mu, s1, s2)
    scan = stacked_response(mu) if kind == "stacked" else response_effect(mu)
    for n in resp_names:
        scan = resp_effect(n, scan, s1, s2)
    return scan, cm, pm


def run(kind, pot_names, resp_names, resolution, given, ideal, empty, positional, fixed2=False):
    s1, s2 = volts("a"), volts("b")
    if fixed2:
        x = __atom__("fix")
        s2 = np.array([x, x])
    g1, g2 = (__atom__("g1"), __atom__("g2")) if given else (None, None)
    pots = [PotD(n) for n in pot_names]
    resps = [RespD(n) for n in resp_names]
    if empty:
        pots, resps = pots or None, resps or None
    sim = Simulation(ideal_csd_config=Ideal() if ideal else None, sensor=Scan() if kind == "scan" else Stacked(),
                     occupation_distortions=[OccD("A")], sensor_potential_distortions=pots, sensor_response_distortions=resps)
    w1, w2 = s1.copy(), s2.copy()
    if positional:
        scan, cm, pm, md = sim.measure_sensor_scan(s1, s2, g1, g2, resolution)
    else:
        scan, cm, pm, md = sim.measure_sensor_scan(sweep_range_sensor_g1=s1, sweep_range_sensor_g2=s2, volt_g1=g1, volt_g2=g2,
                                                   resolution=resolution)
    escan, ecm, epm = oracle(kind, pot_names, resp_names, g1, g2, w1, w2, shape_of(resolution), ideal)
    __same__("conductive mask from the noise-free potential at the requested voltages", cm, ecm)
    __same__("peak mask from the noise-free potential at the requested voltages", pm, epm)
    __same__("scan: response distortions of the response of the distorted potential", scan, escan)
    n = 3 if kind == "stacked" else 1
    for d in (sim.sensor_potential_distortions or []):
        __check__("every potential distortion applied exactly once per potential", d.count == n)
    for d in (sim.sensor_response_distortions or []):
        __check__("every response distortion applied exactly once per scan", d.count == 1)
    for d in sim.occupation_distortions:
        __check__("occupation distortions are not applied in sensor scans", d.fresh == 0 and d.frozen == 0)


def twice(kind):
    s1, s2 = volts("a"), volts("b")
    t1, t2 = volts("c"), volts("d")
    g1, g2 = __atom__("g1"), __atom__("g2")
    sim = Simulation(ideal_csd_config=Ideal(), sensor=Scan() if kind == "scan" else Stacked(),
                     sensor_potential_distortions=[PotD("P")], sensor_response_distortions=[RespD("R")])
    r = res2()
    first = sim.measure_sensor_scan(s1, s2, g1, g2, r)
    scan, cm, pm, md = sim.measure_sensor_scan(t1, t2, g2, g1, r)
    escan, ecm, epm = oracle(kind, ["P"], ["R"], g2, g1, t1, t2, shape_of(r), True)
    __same__("second scan: conductive mask", cm, ecm)
    __same__("second scan: peak mask", pm, epm)
    __same__("second scan: response", scan, escan)


P, Q = ["P", "Q"], ["R", "S"]


def scan2d():
    run("scan", P, Q, res2(), True, True, False, False)


def scan2d_positional():
    run("scan", P, Q, res2(), True, True, False, True)


def scan2d_no_ideal():
    run("scan", P, Q, res2(), True, False, False, False)


def scan2d_no_volts():
    run("scan", P, Q, res2(), False, True, False, False)


def scan2d_nothing():
    run("scan", P, Q, res2(), False, False, False, False)


def scan1d_int():
    run("scan", P, Q, __dim__("n"), True, True, False, False)


def scan1d_int_no_ideal():
    run("scan", P, Q, __dim__("n"), False, False, False, False)


def scan1d_array():
    run("scan", P, Q, np.array([__dim__("n")]), True, True, False, False)


def scan1d_array_no_ideal():
    run("scan", P, Q, np.array([__dim__("n")]), True, False, False, False)


def scan1d_fixed():
    run("scan", P, Q, __dim__("n"), True, True, False, False, True)


def stacked2d():
    run("stacked", P, Q, res2(), True, True, False, False)


def stacked1d():
    run("stacked", P, Q, __dim__("n"), True, True, False, False)


def stacked2d_no_volts():
    run("stacked", P, Q, res2(), False, True, False, False)


def none_distortions():
    run("scan", [], [], res2(), True, True, True, False)


def empty_distortions():
    run("stacked", [], [], res2(), True, True, False, False)


def only_pot():
    run("stacked", ["P"], [], res2(), True, True, True, False)


def only_resp():
    run("scan", [], ["R"], res2(), True, True, True, False)


def three():
    run("stacked", ["P", "Q", "T"], ["R", "S", "U"], res2(), True, True, False, False)


def twice_scan():
    twice("scan")


def twice_stacked():
    twice("stacked")


def seven():
    run("scan", ["P", "Q", "T", "V", "W", "X", "Y"], ["R", "S", "U", "Z", "M", "N", "L"], res2(), True, True, True, False)


def seven_stacked_1d():
    run("stacked", ["P", "Q", "T", "V", "W", "X", "Y"], ["R", "S", "U", "Z", "M", "N", "L"], __dim__("n"), True, True, True,
        False)


def scanned(label, sim, kind, pots, resps):
    s1, s2 = volts("a"), volts("b")
    g1, g2 = __atom__("g1"), __atom__("g2")
    r = res2()
    scan, cm, pm, md = sim.measure_sensor_scan(s1, s2, g1, g2, r)
    escan, ecm, epm = oracle(kind, pots, resps, g1, g2, s1, s2, shape_of(r), True)
    __same__(label + ": conductive mask", cm, ecm)
    __same__(label + ": peak mask", pm, epm)
    __same__(label + ": scan", scan, escan)


def reassign(kind):
    """the distortions that are active are those configured when the scan starts"""
    sim = Simulation(ideal_csd_config=Ideal(), sensor=Scan() if kind == "scan" else Stacked())
    scanned("without distortions", sim, kind, [], [])
    sim.sensor_potential_distortions = [PotD("P"), PotD("Q")]
    sim.sensor_response_distortions = [RespD("R")]
    scanned("configured after construction", sim, kind, ["P", "Q"], ["R"])
    sim.sensor_potential_distortions = [PotD("T")]
    sim.sensor_response_distortions = [RespD("S"), RespD("U")]
    scanned("replaced", sim, kind, ["T"], ["S", "U"])
    sim.sensor_potential_distortions = []
    sim.sensor_response_distortions = []
    scanned("removed with empty lists", sim, kind, [], [])
    sim.sensor_potential_distortions = [PotD("Q")]
    sim.sensor_response_distortions = [RespD("U")]
    scanned("configured again", sim, kind, ["Q"], ["U"])
    sim.sensor_potential_distortions = None
    sim.sensor_response_distortions = None
    scanned("removed with None", sim, kind, [], [])


def reassign_scan():
    reassign("scan")


def reassign_stacked():
    reassign("stacked")


def new_components():
    sim = Simulation(ideal_csd_config=Ideal(), sensor=Scan())
    scanned("first sensor", sim, "scan", [], [])
    sim.sensor = Stacked()
    scanned("second sensor", sim, "stacked", [], [])
    sim.sensor = Scan()
    scanned("third sensor", sim, "scan", [], [])
