from comp import *
from simcats.sensor import (SensorGeneric, SensorScanSensorGeneric, SensorPeakGaussian, SensorPeakLorentzian, SensorRiseGLF)
from simcats.sensor.barrier_function import BarrierFunctionGLF, BarrierFunctionMultiGLF
from simcats.sensor.deformation import SensorPeakDeformationLinear, SensorPeakDeformationCircle
from simcats.distortions import (OccupationDotJumps, SensorPotentialPinkNoise, SensorResponseWhiteNoise,
                                 OccupationTransitionBlurringGaussian)
from simcats.ideal_csd import IdealCSDGeometric


def accepted(label, obj, attr, value):
    """assignment is accepted and what is stored shares nothing mutable with the given value"""
    def assign():
        setattr(obj, attr, value)
    __accepts__(label + " accepted for " + attr, assign)
    setattr(obj, attr, value)
    __independent__(label + " stored in " + attr + " is a copy", getattr(obj, attr), value)


def rejected(label, obj, attr, value):
    before = getattr(obj, attr)

    def assign():
        setattr(obj, attr, value)
    __raises__(label + " refused for " + attr, "ValueError", assign)
    try:
        setattr(obj, attr, value)
    except ValueError:
        pass
    __ident__(label + " leaves " + attr + " as it was", getattr(obj, attr), before)


def at_construction(label, thunk):
    __raises__(label + " refused at construction", "ValueError", thunk)


def simulation():
    return Simulation(volt_limits_g1=np.array([__atom__("l0"), __atom__("l1")]), volt_limits_g2=np.array([__atom__("k0"), __atom__("k1")]),
                      volt_limits_sensor_g1=np.array([__atom__("s0"), __atom__("s1")]),
                      volt_limits_sensor_g2=np.array([__atom__("t0"), __atom__("t1")]),
                      ideal_csd_config=Ideal(), sensor=Plain(), occupation_distortions=[OccD("A")],
                      sensor_potential_distortions=[PotD("P")], sensor_response_distortions=[RespD("R")])


LIMITS = ["volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2"]


def sim_limits():
    a, b, c = __atom__("a"), __atom__("b"), __atom__("c")
    for attr in LIMITS:
        sim = simulation()
        rejected("a number", sim, attr, a)
        rejected("a string", sim, attr, "ab")
        rejected("one value", sim, attr, np.array([a]))
        rejected("three values", sim, attr, np.array([a, b, c]))
        rejected("a list of three", sim, attr, [a, b, c])
        rejected("an empty list", sim, attr, [])
        rejected("a dictionary", sim, attr, {0: a, 1: b})
        v = np.array([a, b])
        accepted("an array", sim, attr, v)
        __same__("array value of " + attr, getattr(sim, attr), v)
        w = [a, b]
        accepted("a list", sim, attr, w)
        __same__("list value of " + attr, getattr(sim, attr), w)
        setattr(sim, attr, None)
        __same__("None for " + attr, getattr(sim, attr), None)


def sim_limits_construction():
    a, b, c = __atom__("a"), __atom__("b"), __atom__("c")
    at_construction("volt_limits_g1 of three", lambda: Simulation(volt_limits_g1=np.array([a, b, c])))
    at_construction("volt_limits_g2 of three", lambda: Simulation(volt_limits_g2=np.array([a, b, c])))
    at_construction("volt_limits_sensor_g1 of three", lambda: Simulation(volt_limits_sensor_g1=np.array([a, b, c])))
    at_construction("volt_limits_sensor_g2 of three", lambda: Simulation(volt_limits_sensor_g2=np.array([a, b, c])))
    at_construction("volt_limits_g1 a number", lambda: Simulation(volt_limits_g1=a))
    at_construction("volt_limits_g2 a number", lambda: Simulation(volt_limits_g2=a))
    at_construction("volt_limits_sensor_g1 a number", lambda: Simulation(volt_limits_sensor_g1=a))
    at_construction("volt_limits_sensor_g2 a number", lambda: Simulation(volt_limits_sensor_g2=a))
    v1, v2, v3, v4 = np.array([a, b]), np.array([b, c]), [a, c], [c, b]
    sim = Simulation(volt_limits_g1=v1, volt_limits_g2=v2, volt_limits_sensor_g1=v3, volt_limits_sensor_g2=v4)
    __independent__("limits given at construction are copied", sim, [v1, v2, v3, v4])
    __same__("volt_limits_g1 given at construction", sim.volt_limits_g1, v1)
    __same__("volt_limits_g2 given at construction", sim.volt_limits_g2, v2)
    __same__("volt_limits_sensor_g1 given at construction", sim.volt_limits_sensor_g1, v3)
    __same__("volt_limits_sensor_g2 given at construction", sim.volt_limits_sensor_g2, v4)


def wrong_parts():
    return [("an ideal diagram", Ideal()), ("a sensor", Plain()), ("an occupation distortion", OccD("x")),
            ("a potential distortion", PotD("x")), ("a response distortion", RespD("x"))]


def sim_ideal():
    sim = simulation()
    for label, o in wrong_parts():
        if label == "an ideal diagram":
            accepted(label, sim, "ideal_csd_config", o)
            __check__("kind of stored ideal diagram", isinstance(sim.ideal_csd_config, Ideal))
            __same__("stored ideal diagram keeps its parameters", sim.ideal_csd_config.payload, o.payload)
        else:
            rejected(label, sim, "ideal_csd_config", o)
            at_construction("ideal_csd_config " + label, lambda: Simulation(ideal_csd_config=o))
    rejected("the class itself", sim, "ideal_csd_config", Ideal)
    rejected("a function", sim, "ideal_csd_config", Ideal().get_csd_data)
    rejected("a dictionary", sim, "ideal_csd_config", {})
    rejected("a string", sim, "ideal_csd_config", "default")
    sim.ideal_csd_config = None
    __same__("None stored as None", sim.ideal_csd_config, None)
    x = Ideal()
    __independent__("ideal diagram given at construction is copied", Simulation(ideal_csd_config=x), x)


def sim_sensor():
    sim = simulation()
    for label, o in wrong_parts():
        if label == "a sensor":
            accepted(label, sim, "sensor", o)
            __check__("kind of stored sensor", isinstance(sim.sensor, Plain))
            __same__("stored sensor keeps its parameters", sim.sensor.payload, o.payload)
        else:
            rejected(label, sim, "sensor", o)
            at_construction("sensor " + label, lambda: Simulation(sensor=o))
    s = Scan()
    accepted("a scan sensor", sim, "sensor", s)
    rejected("the class itself", sim, "sensor", Plain)
    rejected("a dictionary", sim, "sensor", {})
    rejected("a string", sim, "sensor", "generic")
    sim.sensor = None
    __check__("None selects a generic sensor", isinstance(sim.sensor, SensorGeneric))
    x = Plain()
    __independent__("sensor given at construction is copied", Simulation(sensor=x), x)


DIST = [("occupation_distortions", "an occupation distortion"), ("sensor_potential_distortions", "a potential distortion"),
        ("sensor_response_distortions", "a response distortion")]


def sim_distortions():
    sim = simulation()
    for attr, own in DIST:
        good = None
        for label, o in wrong_parts():
            if label == own:
                good = o
        for label, o in wrong_parts():
            if label != own:
                rejected("list with " + label, sim, attr, [o])
                rejected("list starting with " + label, sim, attr, [o, good])
                rejected("list ending with " + label, sim, attr, [good, o])
                rejected("list with inner " + label, sim, attr, [good, o, good])
        rejected("list with None", sim, attr, [good, None])
        rejected("list with a string", sim, attr, [good, "noise"])
        given = [good]
        accepted("a list", sim, attr, given)
        __check__("one stored in " + attr, len(getattr(sim, attr)) == 1)
        given2 = [good, good.__class__("second")]
        accepted("a longer list", sim, attr, given2)
        stored = getattr(sim, attr)
        __check__("two stored in " + attr, len(stored) == 2)
        __check__("order kept in " + attr, stored[0].name == "x" and stored[1].name == "second")
        accepted("an empty list", sim, attr, [])
        __check__("nothing stored in " + attr, len(getattr(sim, attr)) == 0)
        setattr(sim, attr, None)
        __same__("None for " + attr, getattr(sim, attr), None)


def sim_distortions_construction():
    o, p, r = OccD("x"), PotD("x"), RespD("x")
    at_construction("potential distortion among occupation distortions", lambda: Simulation(occupation_distortions=[o, p]))
    at_construction("response distortion among potential distortions", lambda: Simulation(sensor_potential_distortions=[p, r]))
    at_construction("potential distortion among response distortions", lambda: Simulation(sensor_response_distortions=[r, p]))
    a, b, c = [o], [p], [r]
    sim = Simulation(occupation_distortions=a, sensor_potential_distortions=b, sensor_response_distortions=c)
    __independent__("distortions given at construction are copied", sim, [a, b, c])
    __check__("distortions stored", len(sim.occupation_distortions) == 1 and len(sim.sensor_potential_distortions) == 1
              and len(sim.sensor_response_distortions) == 1)


def sim_defaults():
    s1, s2 = Simulation(), Simulation()
    __independent__("two default simulations share nothing", s1, s2)
    s1.sensor.alpha_dot[0] = 17
    s3 = Simulation()
    __same__("changed default sensor does not leak", s3.sensor.alpha_dot, s2.sensor.alpha_dot)
    s4, s5 = Simulation(sensor=None), Simulation(sensor=None)
    __independent__("two simulations without sensor share nothing", s4, s5)
    g1, g2 = SensorGeneric(), SensorGeneric()
    __independent__("two default sensors share nothing", g1, g2)
    g1.alpha_dot[0] = 13
    g1.alpha_gate[0] = 13
    g3 = SensorGeneric()
    __same__("changed default dot lever arm does not leak", g3.alpha_dot, g2.alpha_dot)
    __same__("changed default gate lever arm does not leak", g3.alpha_gate, g2.alpha_gate)


def sim_default_measure():
    """the default resolution of a request is not remembered in any way that a later request can see"""
    sim = Simulation(ideal_csd_config=Ideal(), sensor=Plain())
    v1, v2 = volts("a"), volts("b")
    md1 = sim.measure(v1, v2)[3]
    md2 = sim.measure(v1, v2)[3]
    __independent__("metadata of two default requests share nothing", md1, md2)
    __same__("default resolution", md2["resolution"], md1["resolution"])


def peak(name="k"):
    return SensorPeakGaussian(mu0=__atom__(name + "_mu0"), sigma=0.5, height=__atom__(name + "_h"), offset=__atom__(name + "_o"))


def peak2(name="k2"):
    return SensorPeakLorentzian(mu0=__atom__(name + "_mu0"), gamma=0.5, height=__atom__(name + "_h"), offset=__atom__(name + "_o"))


def peaks_of(s):
    bad = [("a sensor", Plain()), ("a string", "peak"), ("a number", 1.0), ("the class", SensorPeakGaussian),
           ("a list with a number", [peak(), 1.0]), ("a list with a sensor", [Plain(), peak()]),
           ("a list ending with None", [peak(), peak2(), None]), ("a dictionary", {0: peak()})]
    for label, o in bad:
        rejected(label, s, "sensor_peak_function", o)
    p = peak()
    accepted("one peak", s, "sensor_peak_function", p)
    __check__("one peak stored as a list", len(s.sensor_peak_function) == 1)
    l = [peak("m"), peak2("n")]
    accepted("a list of peaks", s, "sensor_peak_function", l)
    __check__("two peaks stored", len(s.sensor_peak_function) == 2)
    __same__("first peak", s.sensor_peak_function[0].mu0, l[0].mu0)
    __same__("second peak", s.sensor_peak_function[1].mu0, l[1].mu0)
    s.sensor_peak_function = None
    __same__("None for peaks", s.sensor_peak_function, None)


def generic_sensor():
    s = SensorGeneric(sensor_peak_function=[peak("q")], alpha_dot=np.array([__atom__("d0"), __atom__("d1")]),
                      alpha_gate=np.array([__atom__("g0"), __atom__("g1")]), offset_mu_sens=__atom__("off"))
    peaks_of(s)
    a, b, c = __atom__("a"), __atom__("b"), __atom__("c")
    for attr in ("alpha_dot", "alpha_gate"):
        rejected("a number", s, attr, a)
        rejected("a list", s, attr, [a, b])
        rejected("None", s, attr, None)
        rejected("three values", s, attr, np.array([a, b, c]))
        rejected("one value", s, attr, np.array([a]))
        rejected("a string", s, attr, "ab")
        v = np.array([a, b])
        accepted("an array", s, attr, v)
        __same__("array stored in " + attr, getattr(s, attr), v)
    rejected("an array", s, "offset_mu_sens", np.array([a, b]))
    rejected("a list", s, "offset_mu_sens", [a])
    rejected("None", s, "offset_mu_sens", None)
    rejected("a string", s, "offset_mu_sens", "0.1")
    s.offset_mu_sens = a
    __same__("offset stored", s.offset_mu_sens, a)


def generic_sensor_construction():
    a, b, c = __atom__("a"), __atom__("b"), __atom__("c")
    at_construction("alpha_dot of three", lambda: SensorGeneric(alpha_dot=np.array([a, b, c])))
    at_construction("alpha_gate of three", lambda: SensorGeneric(alpha_gate=np.array([a, b, c])))
    at_construction("alpha_dot list", lambda: SensorGeneric(alpha_dot=[a, b]))
    at_construction("alpha_gate list", lambda: SensorGeneric(alpha_gate=[a, b]))
    at_construction("array offset", lambda: SensorGeneric(offset_mu_sens=np.array([a, b])))
    at_construction("wrong peak", lambda: SensorGeneric(sensor_peak_function=[peak(), Plain()]))
    d, g, p = np.array([a, b]), np.array([b, c]), [peak("m"), peak2("n")]
    s = SensorGeneric(sensor_peak_function=p, alpha_dot=d, alpha_gate=g, offset_mu_sens=a)
    __independent__("everything given at construction is copied", s, [d, g, p])
    __same__("dot lever arm", s.alpha_dot, d)
    __same__("gate lever arm", s.alpha_gate, g)
    one = peak("z")
    __independent__("a single peak is copied", SensorGeneric(sensor_peak_function=one), one)




def mat(name, r, c):
    return np.array([[__atom__(name + "_" + i + j) for j in "012"[:c]] for i in "012"[:r]])


def scan_sensor(deformations=None):
    return SensorScanSensorGeneric(barrier_functions=(Bar("b1"), Bar("b2")), sensor_peak_function=[peak("q"), peak2("w")],
                                   alpha_sensor_gate=mat("as", 3, 2), alpha_gate=mat("ag", 3, 2), alpha_dot=mat("ad", 3, 2),
                                   offset_mu_sens=np.array([__atom__("o0"), __atom__("o1"), __atom__("o2")]),
                                   final_rise=Rise("r"), sensor_peak_deformations=deformations)


from simcats.sensor import SensorRiseInterface
from simcats.sensor.barrier_function import BarrierFunctionInterface


class Bar(BarrierFunctionInterface):
    def __init__(self, name):
        self.name = name
        self.payload = [__atom__("payload_" + name)]
        self.po, self.fc = __atom__("po_" + name), __atom__("fc_" + name)

    def get_value(self, potential):
        return __oparr__("bar_" + self.name, potential.shape, potential)

    @property
    def pinch_off(self):
        return self.po

    @property
    def fully_conductive(self):
        return self.fc


class Rise(SensorRiseInterface):
    def __init__(self, name):
        self.name = name
        self.payload = [__atom__("payload_" + name)]

    def sensor_function(self, mu_sens, offset=0):
        return __oparr__("rise_" + self.name, mu_sens.shape, mu_sens, offset)

    @property
    def fully_conductive(self):
        return self.payload[0]


def scan_sensor_peaks():
    peaks_of(scan_sensor())


def scan_sensor_arrays():
    s = scan_sensor()
    a, b, c = __atom__("a"), __atom__("b"), __atom__("c")
    for attr in ("alpha_dot", "alpha_gate", "alpha_sensor_gate"):
        rejected("a number", s, attr, a)
        rejected("a list", s, attr, [a, b])
        rejected("a nested list", s, attr, [[a, b], [b, c], [c, a]])
        rejected("three values", s, attr, np.array([a, b, c]))
        rejected("a 2 by 2 array", s, attr, mat("x", 2, 2))
        rejected("a 2 by 3 array", s, attr, mat("x", 2, 3))
        rejected("a string", s, attr, "ab")
        m = mat("m", 3, 2)
        accepted("a 3 by 2 array", s, attr, m)
        __same__("array stored in " + attr, getattr(s, attr), m)
    for attr in ("alpha_dot", "alpha_gate"):
        v = np.array([a, b])
        accepted("two values", s, attr, v)
        __same__("two values used for all potentials in " + attr, getattr(s, attr), np.array([[a, b], [a, b], [a, b]]))
        setattr(s, attr, None)
        __same__("None means no influence in " + attr, getattr(s, attr), np.array([[0, 0], [0, 0], [0, 0]]))
    rejected("two values", s, "alpha_sensor_gate", np.array([a, b]))
    rejected("None", s, "alpha_sensor_gate", None)
    rejected("two values", s, "offset_mu_sens", np.array([a, b]))
    rejected("a list", s, "offset_mu_sens", [a, b, c])
    rejected("None", s, "offset_mu_sens", None)
    rejected("a string", s, "offset_mu_sens", "0")
    v = np.array([a, b, c])
    accepted("three offsets", s, "offset_mu_sens", v)
    __same__("offsets stored", s.offset_mu_sens, v)
    s.offset_mu_sens = a
    __same__("one offset used for all potentials", s.offset_mu_sens, np.array([a, a, a]))


def scan_sensor_parts():
    s = scan_sensor()
    rejected("a peak", s, "final_rise", peak())
    rejected("a string", s, "final_rise", "rise")
    rejected("a list", s, "final_rise", [Rise("x")])
    rejected("the class", s, "final_rise", SensorRiseGLF)
    r = Rise("new")
    accepted("a rise", s, "final_rise", r)
    __same__("rise stored", s.final_rise.payload, r.payload)
    s.final_rise = None
    __same__("None for the rise", s.final_rise, None)
    rejected("None", s, "barrier_functions", None)
    rejected("one barrier in a list", s, "barrier_functions", [Bar("x")])
    rejected("three barriers", s, "barrier_functions", (Bar("x"), Bar("y"), Bar("z")))
    rejected("a barrier and a rise", s, "barrier_functions", (Bar("x"), Rise("y")))
    rejected("a rise and a barrier", s, "barrier_functions", [Rise("y"), Bar("x")])
    rejected("a string", s, "barrier_functions", "xy")
    b = Bar("new")
    accepted("one barrier", s, "barrier_functions", b)
    __check__("one barrier is used twice", len(s.barrier_functions) == 2)
    __same__("first use", s.barrier_functions[0].payload, b.payload)
    __same__("second use", s.barrier_functions[1].payload, b.payload)
    __independent__("the two uses of one barrier are separate", s.barrier_functions[0], s.barrier_functions[1])
    for pair in ((Bar("u"), Bar("v")), [Bar("u"), Bar("v")]):
        accepted("two barriers", s, "barrier_functions", pair)
        __same__("first of two", s.barrier_functions[0].payload, pair[0].payload)
        __same__("second of two", s.barrier_functions[1].payload, pair[1].payload)


def scan_sensor_construction():
    a, b, c = __atom__("a"), __atom__("b"), __atom__("c")
    d = {0: SensorPeakDeformationLinear(angle=__atom__("angle")), 1: SensorPeakDeformationCircle(radius=__atom__("radius"))}
    bars, ps, asg, ag, ad = (Bar("b1"), Bar("b2")), [peak("q"), peak2("w")], mat("as", 3, 2), mat("ag", 3, 2), mat("ad", 3, 2)
    off, r = np.array([a, b, c]), Rise("r")
    s = SensorScanSensorGeneric(barrier_functions=bars, sensor_peak_function=ps, alpha_sensor_gate=asg, alpha_gate=ag, alpha_dot=ad,
                                offset_mu_sens=off, final_rise=r, sensor_peak_deformations=d)
    __independent__("everything given at construction is copied", s, [bars, ps, asg, ag, ad, off, r, d])
    __same__("dot lever arms", s.alpha_dot, ad)
    __same__("gate lever arms", s.alpha_gate, ag)
    __same__("sensor gate lever arms", s.alpha_sensor_gate, asg)
    __same__("offsets", s.offset_mu_sens, off)
    __check__("first deformation attached to this sensor", s.sensor_peak_deformations[0].sensor is s)
    __check__("second deformation attached to this sensor", s.sensor_peak_deformations[1].sensor is s)
    __check__("the given deformations stay unattached", d[0].sensor is None and d[1].sensor is None)
    s2 = SensorScanSensorGeneric(barrier_functions=bars, sensor_peak_function=ps, alpha_sensor_gate=asg, sensor_peak_deformations=d)
    __independent__("two sensors made from the same parts share nothing", s, s2)
    s3 = SensorScanSensorGeneric(barrier_functions=bars[0], sensor_peak_function=ps[0], alpha_sensor_gate=asg)
    s4 = SensorScanSensorGeneric(barrier_functions=bars[0], sensor_peak_function=ps[0], alpha_sensor_gate=asg)
    __independent__("two sensors using defaults share nothing", s3, s4)
    s3.alpha_dot[0, 0] = 11
    s3.alpha_gate[0, 0] = 11
    s3.offset_mu_sens[0] = 11
    s3.sensor_peak_deformations[0] = d[0]
    s5 = SensorScanSensorGeneric(barrier_functions=bars[0], sensor_peak_function=ps[0], alpha_sensor_gate=asg)
    __same__("changed default dot lever arms do not leak", s5.alpha_dot, s4.alpha_dot)
    __same__("changed default gate lever arms do not leak", s5.alpha_gate, s4.alpha_gate)
    __same__("changed default offsets do not leak", s5.offset_mu_sens, s4.offset_mu_sens)
    __check__("changed default deformations do not leak", len(s5.sensor_peak_deformations) == 0)


def scan_sensor_refusals():
    a, b, c = __atom__("a"), __atom__("b"), __atom__("c")
    bars, ps, asg = (Bar("b1"), Bar("b2")), [peak("q"), peak2("w")], mat("as", 3, 2)

    def make(**kw):
        args = {"barrier_functions": bars, "sensor_peak_function": ps, "alpha_sensor_gate": asg}
        for k in kw:
            args[k] = kw[k]
        return SensorScanSensorGeneric(**args)
    at_construction("one barrier in a list", lambda: make(barrier_functions=[Bar("x")]))
    at_construction("a wrong barrier", lambda: make(barrier_functions=(Bar("x"), Rise("y"))))
    at_construction("a wrong peak", lambda: make(sensor_peak_function=[peak(), Rise("y")]))
    at_construction("sensor gate lever arms of two", lambda: make(alpha_sensor_gate=np.array([a, b])))
    at_construction("gate lever arms of three", lambda: make(alpha_gate=np.array([a, b, c])))
    at_construction("dot lever arms of three", lambda: make(alpha_dot=np.array([a, b, c])))
    at_construction("two offsets", lambda: make(offset_mu_sens=np.array([a, b])))
    at_construction("a wrong rise", lambda: make(final_rise=peak()))
    __accepts__("a correct configuration is accepted", lambda: make())


def copies_of_simulations():
    """assigning a part of one simulation to another one does not tie them together"""
    s1 = simulation()
    s2 = Simulation()
    for attr in LIMITS + ["ideal_csd_config", "sensor", "occupation_distortions", "sensor_potential_distortions",
                          "sensor_response_distortions"]:
        setattr(s2, attr, getattr(s1, attr))
    __independent__("simulations with the same parts share nothing", s1, s2)
    s2.volt_limits_g1[0] = 5
    s2.sensor.payload[0] = 5
    s2.occupation_distortions[0].name = "other"
    __same__("limits of the first", s1.volt_limits_g1[0], __atom__("l0"))
    __same__("sensor of the first", s1.sensor.payload[0], __atom__("sensor_payload"))
    __check__("distortion of the first", s1.occupation_distortions[0].name == "A")
