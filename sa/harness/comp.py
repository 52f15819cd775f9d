"""Stand-in components that implement the SimCATS interfaces; analysed by the abstract interpreter, never executed.

Every stand-in is an uninterpreted function of exactly the data it is given, so the value numbers of the results record
which stage saw which data.
"""
import numpy as np
from simcats import Simulation
from simcats.ideal_csd import IdealCSDInterface
from simcats.sensor import SensorInterface, SensorScanSensorInterface
from simcats.distortions import (OccupationDistortionInterface, SensorPotentialDistortionInterface,
                                 SensorResponseDistortionInterface)


def shape_of(resolution):
    if isinstance(resolution, int):
        return (resolution,)
    if len(resolution) == 1:
        return (resolution[0],)
    return (resolution[1], resolution[0])


class Ideal(IdealCSDInterface):
    def __init__(self, name="ideal"):
        self.name = name
        self.payload = [__atom__("ideal_payload")]

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=100):
        __event__("ideal", volt_limits_g1, volt_limits_g2, resolution)
        sh = shape_of(resolution)
        return (__oparr__("occ", sh + (2,), volt_limits_g1[0], volt_limits_g1[1], volt_limits_g2[0], volt_limits_g2[1], sh),
                __oparr__("lt", sh, volt_limits_g1[0], volt_limits_g1[1], volt_limits_g2[0], volt_limits_g2[1], sh))


class OccD(OccupationDistortionInterface):
    def __init__(self, name, probe=False):
        self.name = name
        self.fresh = 0
        self.frozen = 0
        self.probe = probe
        self.probed = None

    def noise_function(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd=None, freeze=False):
        __event__("occd", self.name, freeze)
        if freeze:
            self.frozen += 1
        else:
            self.fresh += 1
        if self.probe and not freeze:
            self.probed = generate_csd(np.array([__atom__("p0"), __atom__("p1")]), np.array([__atom__("q0"), __atom__("q1")]),
                                       np.array([__atom__("pm", "dim"), __atom__("pn", "dim")]))
        new_o, new_l = occ_effect(self.name, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, freeze)
        occupations[...] = new_o
        lead_transitions[...] = new_l
        return occupations, lead_transitions


def occ_effect(name, occupations, lead_transitions, v1, v2, freeze):
    o = __oparr__("occd_" + name, occupations.shape, occupations, lead_transitions, v1[0], v1[1], v2[0], v2[1], freeze)
    t = __oparr__("ltd_" + name, lead_transitions.shape, occupations, lead_transitions, v1[0], v1[1], v2[0], v2[1], freeze)
    return o, t


class PotD(SensorPotentialDistortionInterface):
    def __init__(self, name):
        self.name = name
        self.count = 0

    def noise_function(self, mu_sens, volt_limits_g1, volt_limits_g2):
        __event__("potd", self.name)
        self.count += 1
        return pot_effect(self.name, mu_sens, volt_limits_g1, volt_limits_g2)


def pot_effect(name, mu, v1, v2):
    return __oparr__("potd_" + name, mu.shape, mu, v1[0], v1[1], v2[0], v2[1])


class RespD(SensorResponseDistortionInterface):
    def __init__(self, name):
        self.name = name
        self.count = 0

    def noise_function(self, sensor_response, volt_limits_g1, volt_limits_g2):
        __event__("respd", self.name)
        self.count += 1
        return resp_effect(self.name, sensor_response, volt_limits_g1, volt_limits_g2)


def resp_effect(name, s, v1, v2):
    return __oparr__("respd_" + name, s.shape, s, v1[0], v1[1], v2[0], v2[1])


class Plain(SensorInterface):
    def __init__(self, name="plain"):
        self.name = name
        self.count = 0
        self.payload = [__atom__("sensor_payload")]

    def sensor_potential(self, occupations, volt_limits_g1, volt_limits_g2):
        __event__("potential", "plain")
        self.count += 1
        return plain_potential(occupations, volt_limits_g1, volt_limits_g2)

    def sensor_response(self, mu_sens):
        __event__("response", "plain")
        return response_effect(mu_sens)


def plain_potential(occ, v1, v2):
    return __oparr__("mu", occ.shape[:-1], occ, v1[0], v1[1], v2[0], v2[1])


def response_effect(mu):
    return __oparr__("resp", mu.shape, mu)


class Scan(SensorScanSensorInterface):
    """one potential"""

    def __init__(self, name="scan"):
        self.name = name
        self.count = 0
        self.payload = [__atom__("sensor_payload")]

    def sensor_potential(self, occupations, volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1, volt_limits_sensor_g2):
        __event__("potential", "scan")
        self.count += 1
        return scan_potential(occupations, volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1, volt_limits_sensor_g2)

    def sensor_response(self, mu_sens):
        __event__("response", "scan")
        return response_effect(mu_sens)

    def get_sensor_scan_labels(self, volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1, volt_limits_sensor_g2, potential):
        __event__("labels", "scan")
        return label_effect(volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1, volt_limits_sensor_g2, potential)


def deps(v):
    if v is None:
        return (0, 0)
    if isinstance(v, np.ndarray):
        return (v[0], v[1])
    return (v, v)


def scan_potential(occ, v1, v2, s1, s2):
    return __oparr__("smu", occ.shape[:-1], occ, deps(v1), deps(v2), deps(s1), deps(s2))


def label_effect(v1, v2, s1, s2, mu):
    sh = mu.shape
    return (__oparr__("cmask", sh, deps(v1), deps(v2), deps(s1), deps(s2), mu),
            __oparr__("pmask", sh, deps(v1), deps(v2), deps(s1), deps(s2), mu))


class Stacked(Scan):
    """three stacked potentials (sensor dot and two barriers)"""

    def sensor_potential(self, occupations, volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1, volt_limits_sensor_g2):
        __event__("potential", "stacked")
        self.count += 1
        return stacked_potential(occupations, volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1, volt_limits_sensor_g2)

    def sensor_response(self, mu_sens):
        __event__("response", "stacked")
        return stacked_response(mu_sens)

    def get_sensor_scan_labels(self, volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1, volt_limits_sensor_g2, potential):
        __event__("labels", "stacked")
        return label_effect(volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1, volt_limits_sensor_g2, potential[0])


def stacked_potential(occ, v1, v2, s1, s2):
    return __oparr__("stmu", (3,) + occ.shape[:-1], occ, deps(v1), deps(v2), deps(s1), deps(s2))


def stacked_response(mu):
    return __oparr__("stresp", mu.shape[1:], mu)


# ---------------------------------------------------------------- requests
def volts(name):
    a, b = __atom__(name + "0"), __atom__(name + "1")
    __assume__(a != b)
    return np.array([a, b])


def res2():
    nx, ny = __dim__("nx"), __dim__("ny")
    __lohi__(nx, 2, None)
    __lohi__(ny, 2, None)
    return np.array([nx, ny])
