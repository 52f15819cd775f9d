from comp import *
from p09 import peak
import simcats.config_samplers._GaAs_v1_random_variations_v3_config_sampler as mod
from simcats import default_configs
from simcats.config_samplers import sample_random_variations_v3_config
from simcats.sensor import SensorGeneric, SensorScanSensorGeneric


def quality(lo=0, hi=1):
    q = __atom__("q")
    __lohi__(q, lo, hi, True) if hi == 1 and lo == 0 else __lohi__(q, lo, hi)
    return q


PARTS = ("sample_IdealCSDGeometric", "sample_SensorGeneric", "sample_SensorScanSensorGeneric", "sample_occupation_distortions",
         "sample_sensor_potential_distortions", "sample_sensor_response_distortions")


class Part1(Plain):
    def __init__(self, q, comp, steep):
        self.q, self.comp, self.steep = q, comp, steep


class Part2(Scan):
    def __init__(self, q, comp):
        self.q, self.comp = q, comp


CALLS = []


def sensor1(quality_multiplier=1.0, compensated_sensor=False, set_sensor_potential_offset_to_steepest_point=False):
    CALLS.append("generic")
    return Part1(quality_multiplier, compensated_sensor, set_sensor_potential_offset_to_steepest_point)


def sensor2(quality_multiplier=1.0, compensated_sensor=False):
    CALLS.append("scan")
    return Part2(quality_multiplier, compensated_sensor)


def install():
    """stand-ins for the costly parts; everything else is analysed as it is"""
    mod.sample_IdealCSDGeometric = Ideal
    mod.sample_SensorGeneric = sensor1
    mod.sample_SensorScanSensorGeneric = sensor2


def call(kind, **kw):
    if kind == 0:
        return sample_random_variations_v3_config(**kw)
    return sample_random_variations_v3_config(sensor_type=("SensorGeneric", "SensorScanSensorGeneric")[kind - 1], **kw)


def rejected(i):
    """quality outside of (0, 1] and unknown sensors"""
    install()
    kind = i % 3
    bad = (0, 0.0, -0.5, 1.5, -1, 2, float("nan"), float("inf"), -float("inf"), 1.0000001)
    for n in range(len(bad)):
        q = bad[n]
        __raises__("quality %d rejected" % n, "ValueError", lambda: call(kind, quality_multiplier=q))
    q = __atom__("low")
    __lohi__(q, None, 0)
    __raises__("every quality of zero or less rejected", "ValueError", lambda: call(kind, quality_multiplier=q))
    q = __atom__("high")
    __lohi__(q, 1, None, True)
    __raises__("every quality above one rejected", "ValueError", lambda: call(kind, quality_multiplier=q))
    good = (1, 1.0, 0.5, 1e-9)
    for n in range(len(good)):
        q = good[n]
        __accepts__("quality %d accepted" % n, lambda: call(kind, quality_multiplier=q))
    __accepts__("every quality in range accepted", lambda: call(kind, quality_multiplier=quality()))


def unknown_sensor(i):
    install()
    kinds = ("", "generic", "SensorScan", "sensorgeneric", "SensorGenericX", None, 1, "SensorInterface")
    for n in range(len(kinds)):
        t = kinds[n]
        __raises__("sensor type %d rejected" % n, "ValueError",
                   lambda: sample_random_variations_v3_config(sensor_type=t, quality_multiplier=(0.5, 1.0)[i]))


def forwarded(i):
    """every option reaches the parts"""
    install()
    q = quality()
    kind, comp, steep = i % 3, i // 3 % 2 == 1, i // 6 == 1
    c = call(kind, quality_multiplier=q, compensated_sensor=comp, set_sensor_potential_offset_to_steepest_point=steep)
    s = c["sensor"]
    __check__("requested sensor kind", isinstance(s, Part2) == (kind == 2))
    if len(CALLS) == 1:
        __same__("quality of the sensor", s.q, q)
        __same__("compensation of the sensor", s.comp, comp)
        if kind != 2:
            __same__("potential offset option", s.steep, steep)
    for d in c["sensor_potential_distortions"]:
        __needs__("quality of potential distortions", d, q)
    for d in c["sensor_response_distortions"]:
        __needs__("quality of response distortions", d, q)
    # defaults
    d = call(kind)
    if isinstance(d["sensor"], Part1):
        __same__("default quality", d["sensor"].q, 1)
        __same__("default compensation", d["sensor"].comp, False)
        __same__("default potential offset option", d["sensor"].steep, False)


KEYS = ("volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2", "ideal_csd_config", "sensor",
        "occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions")


def accepted(i):
    """a simulation accepts exactly the returned parameters"""
    install()
    c = call(i, quality_multiplier=quality())
    for k in KEYS:
        __check__("parameter " + k, k in c)
    __check__("no other parameters", len(c) == len(KEYS))
    __accepts__("simulation of a sampled configuration", lambda: Simulation(**c))
    __check__("occupation distortions", len(c["occupation_distortions"]) > 0)
    __check__("potential distortions", len(c["sensor_potential_distortions"]) > 0)
    __check__("response distortions", len(c["sensor_response_distortions"]) > 0)
    # two samples share nothing that can change
    d = call(i, quality_multiplier=quality())
    for k in KEYS:
        __independent__("two configurations share nothing: " + k, c[k], d[k])
    for k in KEYS:
        for name in default_configs:
            if k in default_configs[name]:
                __independent__("nothing shared with the shipped configuration: " + k, c[k], default_configs[name][k])


class Lever:
    """stand-in of the sensor that only keeps the lever arms"""
    def __init__(self, **kw):
        self.kw = kw

    def sensor_potential(self, occupations, volt_limits_g1, volt_limits_g2=None):
        return __oparr__("potential", (2,), occupations)


def peaks_stub(*args, **kw):
    if len(args) == 0 and "quality_multiplier" in kw:
        __same__("quality of the peaks and the rise", kw["quality_multiplier"], quality())
    return [__op__("sampled peaks", *args, *[kw[k] for k in sorted(kw)])], None


def barrier_stub(*args, **kw):
    if len(args) == 0 and "quality_multiplier" in kw:
        __same__("quality of every barrier", kw["quality_multiplier"], quality())
    return __op__("sampled barrier", *args, *[kw[k] for k in sorted(kw)])


class Quick:
    def __init__(self, **kw):
        pass

    def measure(self, *args, **kw):
        return None


def sensors(i):
    """the sensor itself uses the quality and the compensation"""
    q = quality()
    comp = i % 2 == 1
    if i // 2 == 0:
        mod.SensorGeneric = Lever
        s = mod.sample_SensorGeneric(quality_multiplier=q, compensated_sensor=comp)
        a = s.kw["alpha_gate"]
    else:
        mod.SensorScanSensorGeneric = Lever
        if hasattr(mod, "sample_sensor_function"):
            mod.sample_sensor_function = peaks_stub
        if hasattr(mod, "sample_barrier_function"):
            mod.sample_barrier_function = barrier_stub
        s = mod.sample_SensorScanSensorGeneric(quality_multiplier=q, compensated_sensor=comp)
        a = np.ravel(s.kw["alpha_gate"])
        for b in (s.kw["barrier_functions"] if isinstance(s.kw["barrier_functions"], (tuple, list)) else [s.kw["barrier_functions"]]):
            __needs__("quality of the barriers", b, q)
        __needs__("quality of the peaks", s.kw["sensor_peak_function"], q)
    __needs__("quality of the lever arms of the dots", s.kw["alpha_dot"], q)
    if comp:
        __check__("compensated lever arm of gate 1", abs(a[0]) <= 0.001)
        __check__("compensated lever arm of gate 2", abs(a[1]) <= 0.001)
    else:
        __check__("uncompensated lever arm of gate 1", abs(a[0]) > 0.001)
        __check__("uncompensated lever arm of gate 2", abs(a[1]) > 0.001)


def ideal(i):
    """the shipped configuration stays as it is and shares nothing with the sampled one"""
    mod.Simulation = Quick
    shipped = [default_configs[n]["ideal_csd_config"] for n in default_configs]
    snap = __snap__(shipped)
    r = mod.sample_IdealCSDGeometric()
    __unchanged__("shipped ideal configurations", shipped, snap)
    for x in shipped:
        __independent__("sampled ideal configuration shares nothing with the shipped one", r, x)
    r2 = mod.sample_IdealCSDGeometric()
    __independent__("two sampled ideal configurations share nothing", r, r2)
