from comp import *
from simcats import default_configs
from simcats.distortions import *
from simcats.sensor import *
from simcats.sensor.barrier_function import *
from simcats.sensor.deformation import *
from simcats.ideal_csd import IdealCSDGeometric
from simcats.ideal_csd.geometric import tct_bezier
from simcats.support_functions import (ParameterSamplingInterface, NormalSamplingRange, UniformSamplingRange, LogNormalSamplingRange,
                                       ExponentialSamplingRange)

NAMES = list(default_configs)


def entries(i):
    __check__("there are default configurations", len(NAMES) >= 2)
    __check__("GaAs_v1 is shipped", "GaAs_v1" in default_configs)
    __check__("GaAs_v2_extended_sensor is shipped", "GaAs_v2_extended_sensor" in default_configs)
    for a in range(len(NAMES)):
        for b in range(a):
            for k in default_configs[NAMES[a]]:
                if k in default_configs[NAMES[b]]:
                    x, y = default_configs[NAMES[a]][k], default_configs[NAMES[b]][k]
                    if isinstance(x, list) and isinstance(y, list):
                        for d in x:
                            for e in y:
                                __check__("configurations share no component (" + k + ")", d is not e)
                    else:
                        __independent__("configurations share no component (" + k + ")", x, y)


def limits(label, v):
    __check__(label + " is a pair", len(v) == 2)
    __check__(label + " is ordered", v[0] < v[1])


def accepted(i):
    cfg = default_configs[NAMES[i]]
    __accepts__("accepted by the simulation", lambda: Simulation(**cfg))
    sim = Simulation(**cfg)
    for k in ("volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2"):
        if k in cfg:
            limits(k, cfg[k])
    for k in cfg:
        __same__("stored by the simulation: " + k, getattr(sim, k) is None, cfg[k] is None)
    for k in ("ideal_csd_config", "sensor", "volt_limits_g1", "volt_limits_g2"):
        __check__("complete: " + k, k in cfg)
    if isinstance(cfg["sensor"], SensorScanSensorInterface):
        for k in ("volt_limits_sensor_g1", "volt_limits_sensor_g2"):
            __check__("complete: " + k, k in cfg)


def percentage(label, p):
    __check__(label + " above zero", p > 0)
    __check__(label + " below one", p < 1)


def curve(label, c):
    __check__(label + ": growth", c.growth_rate > 0)
    __check__(label + ": asymmetry", c.asymmetry > 0)
    __check__(label + ": shape factor", c.shape_factor > 0)
    __check__(label + ": asymptotes", c.asymptote_left < c.asymptote_right)


def sensor(i):
    cfg = default_configs[NAMES[i]]
    s = cfg["sensor"]
    peaks = s.sensor_peak_function if isinstance(s.sensor_peak_function, list) else [s.sensor_peak_function]
    scan = isinstance(s, SensorScanSensorGeneric)
    __check__("at least one peak", len(peaks) > 0)
    last = None
    for p in peaks:
        if isinstance(p, SensorPeakLorentzian):
            __check__("peak width", p.gamma > 0)
        if isinstance(p, SensorPeakGaussian):
            __check__("peak width", p.sigma > 0)
        __check__("peak height", p.height > 0)
        if last is not None:
            __check__("peaks are ordered and distinct", last < p.mu0)
        last = p.mu0
    __check__("lever arms of the dots have one entry per dot", s.alpha_dot.shape[-1] == 2)
    __check__("lever arms of the gates have one entry per gate", s.alpha_gate.shape[-1] == 2)
    if scan:
        __check__("lever arms of the sensor gates have one entry per gate", s.alpha_sensor_gate.shape[-1] == 2)
        __check__("one row for the sensor dot and for each barrier", s.alpha_sensor_gate.shape[0] == 3)
        for b in s.barrier_functions:
            percentage("pinch-off percentage", b.pinch_off_percentage)
            percentage("fully conductive percentage", b.fully_conductive_percentage)
            __check__("pinch-off below fully conductive", b.pinch_off_percentage < b.fully_conductive_percentage)
            curve("barrier", b)
        r = s.final_rise
        if r is not None:
            percentage("fully conductive percentage of the rise", r.fully_conductive_percentage)
            curve("rise", r)
            __check__("the rise follows the last peak", last < r.mu0)
        for k in s.sensor_peak_deformations:
            __check__("deformed peak exists", 0 <= k)
            __check__("deformed peak exists ", k < len(peaks))


def wave(i):
    cfg = default_configs[NAMES[i]]
    c = cfg["ideal_csd_config"]
    __check__("at least one wavefront", len(c.tct_params) > 0)
    if c.lut_entries is not None:
        __check__("lookup table", c.lut_entries > 1)
    __check__("known transition function", c.cdf_type in ("sigmoid", "cauchy"))
    last = None
    for p in c.tct_params:
        __check__("eight parameters", len(p) == 8)
        __check__("positive lengths", p[0] > 0 and p[1] > 0)
        __check__("rising and falling slope", p[3] < 0 < p[2])
        __check__("anchors from left to right", p[4] <= p[6])
        # the geometric construction accepts the parameters
        __accepts__("accepted by the construction", lambda: tct_bezier(p, np.array([p[4]]), c.lut_entries))
        if last is not None:
            __check__("wavefronts are ordered", last[5] < p[5])
            __check__("periods agree", last[0] + last[1] == p[0] + p[1])
        last = p


def sampled(label, v, low=0.0, strict=True):
    """a number or a sampler"""
    if isinstance(v, ParameterSamplingInterface):
        x = v.sample_parameter()
        __check__(label + " (sampled)", x > low if strict else x >= low)
    else:
        __check__(label, v > low if strict else v >= low)


def noise(i):
    cfg = default_configs[NAMES[i]]
    for k, kind in (("occupation_distortions", OccupationDistortionInterface), ("sensor_potential_distortions", SensorPotentialDistortionInterface),
                    ("sensor_response_distortions", SensorResponseDistortionInterface)):
        for d in (cfg[k] if k in cfg and cfg[k] is not None else []):
            __check__(k + ": kind", isinstance(d, kind))
            if hasattr(d, "sigma"):
                sampled("strength", d.sigma, 0.0)
            if hasattr(d, "ratio"):
                r = d.ratio
                sampled("ratio", r, 0.0)
                if not isinstance(r, ParameterSamplingInterface):
                    __check__("ratio is at most one", r <= 1)
            if hasattr(d, "scale"):
                sampled("scale", d.scale, 0.0)
            if hasattr(d, "std"):
                sampled("standard deviation", d.std, 0.0)
            if isinstance(d, OccupationDotJumps):
                sampled("jump rate", d.lam, 0.0)
                __check__("axis of the jumps", d.axis == 0 or d.axis == 1)
