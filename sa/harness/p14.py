from gen import *
from p24 import jumper, limits, split, shape2d, N
from p19 import lines, anchors, sweep, level, rows, labelled, SHAPES, get_electron_occupation
from simcats.ideal_csd import IdealCSDGeometric
import simcats.ideal_csd.geometric._ideal_csd_geometric as geo
import simcats.support_functions._plotting as plotting
from simcats.support_functions import plot_csd
from p09 import peak, peak2, Bar as Barrier, mat
from p11 import dims
from simcats.sensor import SensorGeneric, SensorScanSensorGeneric


def mirrored(a, up1, up2):
    if a.ndim == 3 or (a.ndim == 2 and a.shape[1] != 2):
        if not up2:
            a = a[::-1]
        if not up1:
            a = a[:, ::-1]
        return a
    return a if up1 else a[::-1]


def ordered(name, up):
    a = __atom__(name + "lo")
    w = __atom__(name + "w")
    __lohi__(a, -2, 2)
    __lohi__(w, 0.25, 4)
    return np.array([a, a + w]) if up else np.array([a + w, a])


# ---- ideal diagrams: the geometric parts are functions of the voltages of every pixel ----

def fake_occ(csd, volt_limits_g1, volt_limits_g2, bezier_coords, tct_functions, rotation=-0.7, lut_entries=None,
             cdf_type="sigmoid", cdf_gamma_factor=None):
    return fields(volt_limits_g1, volt_limits_g2, csd.shape)[0]


def fake_mask(csd, volt_limits_g1, volt_limits_g2, tct_functions, rotation=-0.7, lut_entries=None):
    return fields(volt_limits_g1, volt_limits_g2, csd.shape)[1]


def fake_functions(tct_params, max_peaks=1):
    return {}


def fake_anchors(tct_params, max_peaks=1, rotation=-0.7):
    return {}


def parts():
    if not (hasattr(geo, "get_occ") and hasattr(geo, "generate_lead_transition_mask_2d")):
        return None
    geo.get_occ = fake_occ
    geo.generate_lead_transition_mask_2d = fake_mask
    if hasattr(geo, "initialize_tct_functions"):
        geo.initialize_tct_functions = fake_functions
    if hasattr(geo, "calculate_all_bezier_anchors"):
        geo.calculate_all_bezier_anchors = fake_anchors
    return IdealCSDGeometric(tct_params=[np.ones(13)], rotation=__atom__("rot"))


def ideal2d(i):
    up1, up2 = i % 2 == 0, i // 2 % 2 == 0
    c = parts()
    if c is None:
        return
    v1, v2 = ordered("a", up1), ordered("b", up2)
    res = np.array([3, 4])
    o, t = c.get_csd_data(v1, v2, res)
    eo, et = fields(v1, v2, (4, 3))
    __same__("occupations at their own voltages", o, eo)
    __same__("transitions at their own voltages", t, et)
    ao, at = c.get_csd_data(ordered("a", True), ordered("b", True), res)
    __same__("mirrored occupations", o, mirrored(ao, up1, up2))
    __same__("mirrored transitions", t, mirrored(at, up1, up2))


def wide2d(i):
    """the same for any resolution"""
    up1, up2 = i % 2 == 0, i // 2 % 2 == 0
    c = parts()
    if c is None:
        return
    v1, v2 = ordered("a", up1), ordered("b", up2)
    res = __wide__()
    o, t = c.get_csd_data(v1, v2, res)
    eo, et = fields(v1, v2, (res[1], res[0]))
    __same__("occupations at any resolution", o, eo)
    __same__("transitions at any resolution", t, et)


def __wide__():
    nx, ny = __dim__("nx"), __dim__("ny")
    __lohi__(nx, 2, None)
    __lohi__(ny, 2, None)
    return np.array([nx, ny])


def ideal1d(i):
    up1, up2 = i % 2 == 0, i // 2 % 2 == 0
    c = parts()
    if c is None:
        return
    v1, v2 = ordered("a", up1), ordered("b", up2)
    o, t = c.get_csd_data(v1, v2, 4)
    eo = fields(v1, v2, (4,))[0]
    __same__("occupations of a sweep", o, eo)
    # the same line swept the other way
    bo, bt = c.get_csd_data(v1[::-1], v2[::-1], np.array([4]))
    __same__("occupations of the reversed sweep", bo, o[::-1])
    __same__("transitions of the reversed sweep", bt, t[::-1])


# ---- jumps ----

def jumps(i, shape, pat, resim, trans):
    axis, up1, up2 = split(i)
    r = []
    for a, b in ((up1, up2), (True, True)):
        v1, v2 = limits("a", a), limits("b", b)
        o, t = fields(v1, v2, shape)
        d = jumper(axis, pat)
        r.append(d.noise_function(o, t if trans else None, v1, v2, region if resim else None))
    __same__("occupations", r[0][0], mirrored(r[1][0], up1, up2))
    if trans:
        __same__("transitions", r[0][1], mirrored(r[1][1], up1, up2))


def jumps2d(i):
    jumps(i, shape2d(i % 2), 0, True, True)


def jumps2d_far(i):
    jumps(i, shape2d(i % 2), 2, True, False)


def jumps2d_small(i):
    jumps(i, shape2d(i % 2), 1, True, True)


def line(i, pat, resim, trans):
    """a 1D sweep runs along both gates: reversing it reverses both"""
    axis, up1, up2 = split(i)
    r = []
    for back in (False, True):
        v1, v2 = limits("a", up1), limits("b", up2)
        if back:
            v1, v2 = v1[::-1], v2[::-1]
        o, t = fields(v1, v2, (N,))
        d = jumper(axis, pat)
        r.append(d.noise_function(o, t if trans else None, v1, v2, region if resim else None))
    __same__("occupations", r[0][0], r[1][0][::-1])
    if trans:
        __same__("transitions", r[0][1], r[1][1][::-1])


def jumps1d(i):
    line(i, 0, True, True)


def jumps1d_plain(i):
    line(i, 1, True, False)


# ---- plots ----

class Bar:
    def set_label(self, label=None, fontsize=None, **kw):
        pass


class Canvas:
    def __init__(self):
        self.images, self.lines, self.x, self.y, self.kw = [], [], [], [], {}

    def imshow(self, X, **kw):
        self.images.append(X)
        self.kw = kw

    def plot(self, *a, **kw):
        self.lines.append(a)

    def xticks(self, ticks=None, labels=None, **kw):
        self.x.append((ticks, labels))

    def yticks(self, ticks=None, labels=None, **kw):
        self.y.append((ticks, labels))

    def xlabel(self, *a, **kw):
        pass

    def ylabel(self, *a, **kw):
        pass

    def title(self, *a, **kw):
        pass

    def tight_layout(self, *a, **kw):
        pass

    def savefig(self, *a, **kw):
        pass

    def show(self, *a, **kw):
        pass

    def colorbar(self, *a, **kw):
        return Bar()


def canvas():
    if not hasattr(plotting, "plt"):
        return None
    plotting.plt = Canvas()
    return plotting.plt


def plot2d(i):
    up1, up2, sort = i % 2 == 0, i // 2 % 2 == 0, i // 4 % 2 == 0
    p = canvas()
    if p is None:
        return
    v1, v2 = ordered("a", up1), ordered("b", up2)
    o, t = fields(v1, v2, (3, 4))
    plot_csd(t, v1, v2, sort_volts=sort)
    s1, s2 = (ordered("a", True), ordered("b", True)) if sort else (v1, v2)
    if len(p.images) != 1 or len(p.x) != 1 or len(p.y) != 1:
        return
    __same__("shown image", p.images[0], fields(s1, s2, (3, 4))[1])
    if p.kw.get("origin") is not None:
        __check__("lowest index at the bottom", p.kw["origin"] == "lower")
    if p.x[0][1] is not None and len(p.x[0][1]) == 5:
        __same__("tick positions", p.x[0][0], np.linspace(0, 3, 5))
        want = ["%.3f" % x for x in np.linspace(s1[0], s1[1], 5).round(3)]
        for k in range(5):
            __check__("tick labels", p.x[0][1][k] == want[k])
    if p.y[0][1] is not None and len(p.y[0][1]) == 5:
        want = ["%.3f" % x for x in np.linspace(s2[0], s2[1], 5).round(3)]
        for k in range(5):
            __check__("tick labels of gate 2", p.y[0][1][k] == want[k])


def plot1d(i):
    up1, up2, sort = i % 2 == 0, i // 2 % 2 == 0, i // 4 % 2 == 0
    p = canvas()
    if p is None:
        return
    v1, v2 = ordered("a", up1), ordered("b", up2)
    o, t = fields(v1, v2, (4,))
    plot_csd(t, v1, v2, sort_volts=sort)
    if sort and not up1:
        v1, v2 = v1[::-1], v2[::-1]
    if len(p.lines) != 1 or len(p.x) != 1:
        return
    __same__("shown line", p.lines[0][-1], fields(v1, v2, (4,))[1])
    if p.x[0][1] is not None and len(p.x[0][1]) == 5:
        a, b = np.linspace(v1[0], v1[1], 5).round(3), np.linspace(v2[0], v2[1], 5).round(3)
        for k in range(5):
            __check__("tick labels", p.x[0][1][k] == f"({a[k]:.3f};{b[k]:.3f})")


# ---- occupations themselves ----

def occupations1d(i):
    v1, v2 = sweep("a"), sweep("b")
    rot = __atom__("rot")
    a = get_electron_occupation(np.zeros(3), v1, v2, anchors(4), lines(3), rot, None, SHAPES[i], None)
    b = get_electron_occupation(np.zeros(3), v1[::-1], v2[::-1], anchors(4), lines(3), rot, None, SHAPES[i], None)
    __same__("occupations of the reversed sweep", b, a[::-1])


def rows_of_scan(i):
    """a row of a scan holds what a sweep of gate 1 along that row delivers"""
    v1 = sweep("a")
    v2, f = rows([level("c1", -1, -0.25), level("c2", 0.75, 1.25), 9], 5)
    lab = np.array([[1, 1, 1], [0, 0, 0], [2, 2, 2], [2, 2, 2], [2, 2, 2]])
    csd = np.array([[0, 0, 0], [2, 2, 2], [0, 0, 0], [0, 0, 0], [0, 0, 0]])
    occ = labelled(csd, lab, [1, 2], v1, v2, f, SHAPES[i], 3)
    if occ is None:
        return
    for r in (0, 2, 4):
        line = get_electron_occupation(np.zeros(3), v1, np.array([r, r]), anchors(3), f, 0, None, SHAPES[i], None)
        __same__("row of the scan", occ[r], line)


# ---- sensor potentials ----

def flipped(a, up1, up2):
    if a.ndim == 2:
        a = a if up2 else a[::-1]
        return a if up1 else a[:, ::-1]
    return a if up1 else a[::-1]


def sensor_direction(i):
    """every pixel keeps the potential of its voltages"""
    n, (nx, ny) = __dim__("n"), dims()
    up1, up2 = i % 2 == 0, i // 2 % 2 == 0
    a, b = ordered("g1", True), ordered("g2", True)
    va, vb = (a if up1 else a[::-1]), (b if up2 else b[::-1])
    fixed = ordered("fix", True)[0]
    generic = SensorGeneric(sensor_peak_function=[peak("q"), peak2("w")], alpha_dot=mat("d", 1, 2)[0], alpha_gate=mat("g", 1, 2)[0],
                            offset_mu_sens=__atom__("off"))
    scan = SensorScanSensorGeneric(barrier_functions=(Barrier("b1"), Barrier("b2")), sensor_peak_function=[peak("q"), peak2("w")],
                                   alpha_sensor_gate=mat("as", 3, 2), alpha_gate=mat("ag", 3, 2), alpha_dot=mat("ad", 3, 2),
                                   offset_mu_sens=__atom__("off"))
    o = np.zeros((ny, nx, 2))
    o[..., 0] = __atom__("n1")
    o[..., 1] = __atom__("n2")
    p, q = generic.sensor_potential(o, a, b), generic.sensor_potential(o, va, vb)
    __same__("potential of the generic sensor", q, flipped(p, up1, up2))
    for kind in (0, 1):
        u, w = ((a, b, fixed, fixed), (va, vb, fixed, fixed)) if kind == 0 else ((fixed, fixed, a, b), (fixed, fixed, va, vb))
        p = scan.sensor_potential(o, *u)
        q = scan.sensor_potential(o, *w)
        for k in range(3):
            __same__("potentials of the scan-capable sensor", q[k], flipped(p[k], up1, up2))
    if up1 == up2:
        o = np.zeros((n, 2))
        o[..., 0] = __atom__("n1")
        o[..., 1] = __atom__("n2")
        p, q = generic.sensor_potential(o, a, b), generic.sensor_potential(o, va, vb)
        __same__("1D potential of the generic sensor", q, flipped(p, up1, up2))
        for kind in (0, 1):
            u, w = ((a, b, fixed, fixed), (va, vb, fixed, fixed)) if kind == 0 else ((fixed, fixed, a, b), (fixed, fixed, va, vb))
            p = scan.sensor_potential(o, *u)
            q = scan.sensor_potential(o, *w)
            for k in range(3):
                __same__("1D potentials of the scan-capable sensor", q[k], flipped(p[k], up1, up2))
