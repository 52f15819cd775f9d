from comp import *
from p09 import Bar, peak, peak2, mat
from p10 import near, one
from comp import volts as volts2
from p11 import occ2, occ1, dims
from p20 import Bend, PLUNGERS, DOTS, OFFSETS, SENSOR_GATES, conductive_point, middle
from simcats.sensor import SensorScanSensorGeneric, SensorPeakGaussian, SensorPeakLorentzian


def plain_peaks(order):
    """peaks at known potentials, in any order"""
    out = []
    for mu in order:
        out.append((SensorPeakGaussian if mu < 1 else SensorPeakLorentzian)(mu, 0.25, 1, 0))
    return out


class Known(Bar):
    """barrier with known pinch-off and fully conductive potentials"""

    def __init__(self, name, po):
        Bar.__init__(self, name)
        self.po, self.fc = po, 100.0


class Soft(Bend):
    def __init__(self, name):
        Bend.__init__(self, name)
        __lohi__(self.a, -0.25, 0.25)
        __lohi__(self.b, -0.125, 0.125)


def narrow(name):
    """sweep over a few volts"""
    v = volts2(name)
    __lohi__(v[0], -2, 2)
    __lohi__(v[1], -2, 2)
    return v


def labelled(s, nx, ny, n, flat, v1, v2, open=False):
    """first measurement of the sensor, then labels of arbitrary potentials of the same sweep"""
    o = occ1(n) if flat else occ2(nx, ny)
    s1, s2 = (narrow("a"), narrow("b")) if open else (near("a"), near("b"))
    mu = s.sensor_potential(o, v1, v2, s1, s2)
    nu = __arr__("nu", mu.shape)
    if open:
        # both barriers above their pinch-off everywhere
        nu[1:] = 3
    snap = __snap__(nu)
    con, pk = s.get_sensor_scan_labels(v1, v2, s1, s2, nu)
    __unchanged__("the potential is not changed", nu, snap)
    __check__("one label per point", con.shape == nu.shape[1:])
    __check__("one peak label per point", pk.shape == nu.shape[1:])
    return o, nu, con, pk


def positive(sg):
    __lohi__(sg[1, 1], 1, 2)
    __lohi__(sg[1, 0], 0, None)
    __lohi__(sg[0, 0], 1, 2)


def volts(i):
    return ((one("v"), one("w")), (None, None), (one("v"), None), (None, one("w")))[i]


def conductive(i):
    """regimes: both barriers above their own pinch-off, fully conductive above the potential of the fully conductive point"""
    n, (nx, ny) = __dim__("n"), dims()
    flat, k, (v1, v2) = i % 2, i // 2 % 3, volts(i // 6)
    positive(mat("as", 3, 2))
    s = SensorScanSensorGeneric(barrier_functions=(Bar("b1"), Bar("b2")), sensor_peak_function=(None, plain_peaks((0.5,))[0], plain_peaks((0.5, 1.5)))[k],
                                alpha_sensor_gate=mat("as", 3, 2), alpha_gate=mat("ag", 3, 2), alpha_dot=mat("ad", 3, 2),
                                offset_mu_sens=np.array([__atom__("o0"), __atom__("o1"), __atom__("o2")]))
    o, nu, con, pk = labelled(s, nx, ny, n, flat, v1, v2)
    first = o[0] if flat else o[0, 0]
    top = conductive_point(first, v1, v2)
    exp = np.where((nu[1] > Bar("b1").pinch_off) & (nu[2] > Bar("b2").pinch_off), np.where(nu[0] > top, 2, 1), 0)
    __same__("conductive regimes", con, exp)
    # zero outside of the oscillation regime, numbers of configured peaks only
    __same__("no peaks outside of the oscillation regime", np.where(con == 1, 0, pk), np.zeros(pk.shape))
    allowed = pk == 0
    for q in range(k):
        allowed = allowed | (pk == q + 1)
    __same__("numbers of configured peaks", np.where(allowed, 0, 1), np.zeros(pk.shape))


def marks(nu, dist, flat, order, bends):
    """point nearest to every peak (per row), numbers in configuration order, lower potentials on top"""
    n = nu.shape[-1]
    out = np.zeros(nu.shape[1:])
    mean = np.mean(np.diff(nu[0], axis=nu.ndim - 2))
    xs = np.arange(n)
    for mu in sorted(order)[::-1]:
        q = order.index(mu)
        pot = nu[0]
        if bends is not None and q in bends:
            pot = pot + mu - bends[q].calc_mu(dist=dist, mu0=mu)
        d = np.abs(pot - mu)
        if flat:
            best = np.argmin(d)
            inside = (best != 0) & (best != n - 1) | (d[best] < np.abs(mean))
            out = np.where((xs == best) & inside, q + 1, out)
        else:
            best = np.argmin(d, axis=1)
            value = d[np.arange(nu.shape[1]), best]
            inside = (best != 0) & (best != n - 1) | (value < np.abs(mean))
            out = np.where((xs[None, :] == best[:, None]) & inside[:, None], q + 1, out)
    return out


ORDERS = ((0.5,), (0.5, 1.5), (1.5, 0.5), (0.5, 1.0, 1.5), (1.5, 0.5, 1.0), (1.0, 1.5, 0.5), (1.5, 1.0, 0.5))


def wavefronts(i):
    """the marks of the peaks follow the configuration order"""
    n, (nx, ny) = __dim__("n"), dims()
    flat, order = i % 2, ORDERS[i // 2]
    positive(mat("as", 3, 2))
    ps = plain_peaks(order)
    s = SensorScanSensorGeneric(barrier_functions=(Known("b1", 0.25), Known("b2", -0.5)), sensor_peak_function=ps if len(ps) > 1 else ps[0],
                                alpha_sensor_gate=mat("as", 3, 2), alpha_gate=mat("ag", 3, 2), alpha_dot=mat("ad", 3, 2),
                                offset_mu_sens=np.array([__atom__("o0"), __atom__("o1"), __atom__("o2")]))
    o, nu, con, pk = labelled(s, nx, ny, n, flat, one("v"), one("w"), True)
    __same__("marks of the peaks", pk, np.where(con == 1, marks(nu, None, flat, order, None), 0))
    for q in range(len(order)):
        got = s.sensor_peak_function
        got = got if len(ps) == 1 and not isinstance(got, list) else got[q]
        got = got[0] if isinstance(got, list) else got
        __same__("peaks are not moved by labels", got.mu0, order[q])


def bent(i):
    """deformed peaks: the mark follows the deformation of the same peak"""
    n, (nx, ny) = __dim__("n"), dims()
    flat, order = i % 2, ((0.5, 1.5), (1.5, 0.5), (1.5, 0.5, 1.0))[i // 2 % 3]
    bends = ({0: Soft("q")}, {1: Soft("w")}, {0: Soft("q"), 1: Soft("w")})[i // 6]
    g = i % 3
    s = SensorScanSensorGeneric(barrier_functions=(Known("b1", 0.25), Known("b2", -0.5)), sensor_peak_function=plain_peaks(order),
                                alpha_sensor_gate=np.array(SENSOR_GATES[g]), alpha_gate=np.array(PLUNGERS),
                                alpha_dot=np.array(DOTS), offset_mu_sens=np.array(OFFSETS), sensor_peak_deformations=bends)
    o, nu, con, pk = labelled(s, nx, ny, n, flat, 0.75, -1.25, True)
    first = o[0] if flat else o[0, 0]
    x0, y0 = middle(g, (Known("b1", 0.25), Known("b2", -0.5)), first, 0.75, -1.25)
    m = SENSOR_GATES[g][0][1] / SENSOR_GATES[g][0][0]
    s1, s2 = narrow("a"), narrow("b")
    if flat:
        u = s1[0] + (s1[1] - s1[0]) * np.arange(n) / (n - 1)
        w = s2[0] + (s2[1] - s2[0]) * np.arange(n) / (n - 1)
    else:
        u = (s1[0] + (s1[1] - s1[0]) * np.arange(nx) / (nx - 1))[None, :]
        w = (s2[0] + (s2[1] - s2[0]) * np.arange(ny) / (ny - 1))[:, None]
    dist = ((u - x0) * m - (w - y0)) / np.sqrt(1 + m * m)
    __same__("marks of deformed peaks", pk, np.where(con == 1, marks(nu, dist, flat, order, bends), 0))
    for q in range(len(order)):
        __same__("peaks are not moved by labels", s.sensor_peak_function[q].mu0, order[q])


def again(i):
    """labels do not depend on what was evaluated before"""
    n, (nx, ny) = __dim__("n"), dims()
    flat, order = i % 2, ((0.5, 1.5), (1.5, 0.5))[i // 2 % 2]
    bends = {0: Bend("q")} if i >= 4 else None
    s = SensorScanSensorGeneric(barrier_functions=(Bar("b1"), Bar("b2")), sensor_peak_function=plain_peaks(order),
                                alpha_sensor_gate=np.array(SENSOR_GATES[0]), alpha_gate=np.array(PLUNGERS),
                                alpha_dot=np.array(DOTS), offset_mu_sens=np.array(OFFSETS), sensor_peak_deformations=bends)
    o, nu, con, pk = labelled(s, nx, ny, n, flat, 0.75, -1.25)
    con, pk = con.copy(), pk.copy()
    for step in range(2):
        c2, p2 = s.get_sensor_scan_labels(0.75, -1.25, near("a"), near("b"), nu)
        __same__("same conductive mask again", c2, con)
        __same__("same peak mask again", p2, pk)
        # another measurement in between
        s.sensor_potential(__arr__("other", (4, 5, 2)), 0.5, 0.25, near("c"), near("d"))
        s.sensor_potential(o, 0.75, -1.25, near("a"), near("b"))
