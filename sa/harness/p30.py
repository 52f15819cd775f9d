from noise import *
from p14 import parts, ordered
from p17 import make, apply
from p19 import lines, anchors, sweep, level
from p28 import Geo, SLOPES, stubs, part
from p29 import below, fake_functions
import simcats.ideal_csd.geometric._ideal_csd_geometric as ideal
from simcats.ideal_csd import IdealCSDGeometric
from simcats.ideal_csd.geometric import tct_bezier, initialize_tct_functions
from simcats.sensor import SensorGeneric
from p09 import peak, peak2, Bar, Rise
from p20 import peaks
from p22 import Sweep, fresh

REQ = ((3, N), (N,), (N, 3), (2, 2))


def request(k, name):
    v1, v2 = limits("a", True, name), limits("b", True, name)
    return v1, v2, REQ[k]


def ruin(*arrays):
    """the caller does what he likes with the results he received"""
    for a in arrays:
        a[...] = __atom__("ruin")


# ---- ideal diagrams ----

def reso(shape):
    return np.array([shape[1], shape[0]]) if len(shape) == 2 else shape[0]


def diagrams(i):
    a, b = (request(k, n) for k, n in ((i % 4, "1"), (i // 4 % 4, "2")))
    c = parts()
    if c is None:
        return
    e = c.get_csd_data(b[0], b[1], reso(b[2]))
    eo, et = e[0].copy(), e[1].copy()
    d = parts()
    r = d.get_csd_data(a[0], a[1], reso(a[2]))
    ruin(r[0], r[1])
    for k in range(2):
        r = d.get_csd_data(b[0], b[1], reso(b[2]))
        __same__("occupations after another request", r[0], eo)
        __same__("transitions after another request", r[1], et)
        ruin(r[0], r[1])


def device(rot, kind):
    return IdealCSDGeometric(tct_params=[Geo(SLOPES[0], "a").params(), Geo(SLOPES[2], "b").params()], rotation=rot, lut_entries=5,
                             cdf_type=kind)


def diagrams1d(i):
    if not hasattr(ideal, "initialize_tct_functions"):
        return
    ideal.initialize_tct_functions = fake_functions
    rot, kind = (0, -np.pi / 2)[i % 2], ("sigmoid", "cauchy")[i // 2]
    v1, v2 = sweep("a"), sweep("b")
    e = device(rot, kind).get_csd_data(v1, v2, 2)
    eo, et = e[0].copy(), e[1].copy()
    d = device(rot, kind)
    ruin(*d.get_csd_data(v2, v1, 3))
    r = d.get_csd_data(v1, v2, 2)
    __same__("occupations after another request", r[0], eo)
    __same__("transitions after another request", r[1], et)
    ruin(*r)
    # another device in between, and this one changed and changed back
    ruin(*device(np.pi / 2, ("cauchy", "sigmoid")[i // 2]).get_csd_data(v1, v2, 2))
    d.rotation, d.cdf_type = np.pi / 2, ("cauchy", "sigmoid")[i // 2]
    ruin(*d.get_csd_data(v1, v2, 2))
    d.rotation, d.cdf_type = rot, kind
    r = d.get_csd_data(v1, v2, 2)
    __same__("occupations after changing back", r[0], eo)
    __same__("transitions after changing back", r[1], et)


def curves(i):
    """a transition curve evaluated again, for other voltages and other parameters in between"""
    if not stubs():
        return
    g, h = Geo(SLOPES[i], "a"), Geo(SLOPES[(i + 1) % 4], "b")
    p, q = g.params(), h.params()
    x, y = np.array([g.x0 - part("u"), g.x0 - 1]), np.array([h.x0 - part("w")])
    e = tct_bezier(p, x, 5, 2).copy()
    ruin(tct_bezier(q, y, 5, 2))
    ruin(tct_bezier(p, y, 3, 1))
    ruin(tct_bezier(p, x, 3, 1))
    r = tct_bezier(p, x, 5, 2)
    __same__("curve again", r, e)
    ruin(r)
    __same__("curve once more", tct_bezier(p, x, 5, 2), e)
    f = initialize_tct_functions([p, q], max_peaks=1)
    initialize_tct_functions([q], max_peaks=2)
    u = f[1](x_eval=x, lut_entries=5)
    f[2](x_eval=y, lut_entries=5)
    __same__("function of the transition again", f[1](x_eval=x, lut_entries=5), u.copy())


# ---- sensors ----

def generic():
    return SensorGeneric(sensor_peak_function=[peak("q"), peak2("w")], alpha_dot=np.array([__atom__("d0"), __atom__("d1")]),
                         alpha_gate=np.array([__atom__("g0"), __atom__("g1")]), offset_mu_sens=__atom__("off"))


def sensors(i):
    a, b = request(i % 4, "1"), request((i + 1 + i // 4) % 4, "2")
    oa, ob = fields(*a)[0], fields(*b)[0]
    s = generic()
    mu = s.sensor_potential(ob, b[0], b[1]).copy()
    e = s.sensor_response(mu).copy()
    s = generic()
    m = s.sensor_potential(oa, a[0], a[1])
    ruin(s.sensor_response(m), m)
    for k in range(2):
        m = s.sensor_potential(ob, b[0], b[1])
        __same__("potential after another one", m, mu)
        r = s.sensor_response(m)
        __same__("response after another one", r, e)
        ruin(r, m)
    # two sensors do not see each other
    s, t = generic(), generic()
    t.offset_mu_sens = __atom__("other")
    m = s.sensor_potential(ob, b[0], b[1])
    t.sensor_response(t.sensor_potential(oa, a[0], a[1]))
    __same__("potential beside another sensor", m, mu)
    __same__("response beside another sensor", s.sensor_response(m), e)


def scans(i):
    """results handed out by a scan sensor are the caller's"""
    flat, rise, over = i % 2, i // 2 % 2, ("sensor", "plunger")[i // 4]
    w = Sweep("1", flat, over)
    s = fresh(i % 3, rise, False)
    mu = w.potential(s).copy()
    e = s.sensor_response(mu).copy()
    s = fresh(i % 3, rise, False)
    for k in range(2):
        m = w.potential(s)
        __same__("potential again", m, mu)
        r = s.sensor_response(m)
        __same__("response again", r, e)
        if over == "sensor":
            ruin(*w.labels(s, m))
        ruin(r, m)
    # two sensors do not see each other
    s, t = fresh(i % 3, rise, False), fresh((i + 1) % 3, not rise, False)
    u = Sweep("2", 1 - flat, over)
    m = w.potential(s)
    mt = u.potential(t)
    t.sensor_response(mt)
    __same__("potential beside another sensor", m, mu)
    __same__("response beside another sensor", s.sensor_response(m), e)


# ---- distortions: a fresh application after other applications ----

def additive(i):
    a, b = grid(i // 2 % 3), grid((i // 2 + 1 + i // 6) % 6)
    k = i % 2
    s = bounded("s", 6, 10)
    da, db = plain(*a), plain(*b)
    e = apply(k, make(k, s, Gen(1)), db, b[0], b[1]).copy()
    d = make(k, s, Gen(1))
    ruin(apply(k, d, da, a[0], a[1]))
    for j in range(2):
        d.rng = Gen(1)
        r = apply(k, d, db, b[0], b[1])
        __same__("noise after another application", r, e)
        ruin(r)
    d, o = make(k, s, Gen(1)), make(k, 2 * s, Gen(1))
    apply(k, o, da, a[0], a[1])
    __same__("noise beside another one", apply(k, d, db, b[0], b[1]), e)


BURSTS = (1, 2, 1, 3, 2, 1, 9)


def rtn(cls, s):
    return cls(scale=s, std=bounded("std", 1, 2), height=bounded("height", 1, 2), ratio=ratio(), rng=Gen(1, BURSTS, ()))


def telegraph(i):
    cls = RTN[i % 3]
    a, b = grid(i // 3 % 4), grid((i // 3 + 1) % 6)
    s = bounded("s", 6, 10)
    da, db = plain(*a), plain(*b)
    e = rtn(cls, s).noise_function(db, b[0], b[1]).copy()
    d = rtn(cls, s)
    ruin(d.noise_function(da, a[0], a[1]))
    for k in range(2):
        d.rng = Gen(1, BURSTS, ())
        r = d.noise_function(db, b[0], b[1])
        __same__("noise after another application", r, e)
        ruin(r)
    # not activated in between
    d.rng = Gen(0, BURSTS, ())
    d.noise_function(da, a[0], a[1])
    d.rng = Gen(1, BURSTS, ())
    __same__("noise after a deactivated application", d.noise_function(db, b[0], b[1]), e)


def blurring(i):
    cls = BLUR[i % 2]
    a, b = grid(i // 2 % 4), grid((i // 2 + 1) % 6)
    s = bounded("s", 0.1, 1)
    oa, ta = fields(*a)
    ob, tb = fields(*b)
    eo, et = fields(*b)
    cls(sigma=s).noise_function(eo, et, b[0], b[1])
    d = cls(sigma=s)
    d.noise_function(oa, ta, a[0], a[1])
    ruin(oa, ta)
    for k in range(2):
        ob, tb = fields(*b)
        d.noise_function(ob, tb, b[0], b[1])
        __same__("blurred occupations after another application", ob, eo)
        __same__("transitions after another application", tb, et)
        ruin(ob, tb)


def jumping(i):
    axis = i % 2
    pat = i // 2 % 3
    a, b = (shape2d(axis), (N,))[i // 6 % 2], shape2d(axis)
    v1, v2 = limits("a", True), limits("b", True)
    w1, w2 = limits("a", False, "w"), limits("b", True, "w")
    eo, et = fields(v1, v2, b)
    jumper(axis, pat).noise_function(eo, et, v1, v2, region)
    oa, ta = fields(w1, w2, a)
    d = jumper(axis, (pat + 1) % 3)
    d.noise_function(oa, ta, w1, w2, region)
    ruin(oa, ta)
    for k in range(2):
        d.rng = jumper(axis, pat).rng
        o, t = fields(v1, v2, b)
        d.noise_function(o, t, v1, v2, region)
        __same__("occupations after another application", o, eo)
        __same__("transitions after another application", t, et)
        ruin(o, t)


# ---- the whole simulation ----

def built():
    return Simulation(ideal_csd_config=Ideal(), sensor=Scan("s"), occupation_distortions=[OccD("x"), OccD("y")],
                      sensor_potential_distortions=[PotD("u"), PotD("v")], sensor_response_distortions=[RespD("r"), RespD("t")])


def outcome(sim, kind, name):
    v1, v2 = volts("a" + name), volts("b" + name)
    if kind == "scan":
        return list(sim.measure_sensor_scan(v1, v2, __atom__("g1" + name), __atom__("g2" + name), np.array([2, 3])))[:-1]
    return list(sim.measure(v1, v2, __atom__("s1" + name), __atom__("s2" + name), np.array([2, 3]) if kind == "2D" else 4))[:-1]


KINDS = ("2D", "1D", "scan")


def simulation(i):
    first, second = KINDS[i % 3], KINDS[i // 3]
    e = [x.copy() if isinstance(x, np.ndarray) else x for x in outcome(built(), second, "2")]
    sim = built()
    for x in outcome(sim, first, "1"):
        if isinstance(x, np.ndarray):
            ruin(x)
    for k in range(2):
        r = outcome(sim, second, "2")
        __check__("number of results", len(r) == len(e))
        for j in range(len(e)):
            __same__("result %d after another measurement" % j, r[j], e[j])
        for x in r:
            if isinstance(x, np.ndarray):
                ruin(x)


def interleaved(i):
    """two simulations used in turn"""
    first, second = KINDS[i % 3], KINDS[i // 3]
    e = [x.copy() if isinstance(x, np.ndarray) else x for x in outcome(built(), second, "2")]
    a, b = built(), built()
    b.volt_limits_g1 = np.array([-np.inf, np.inf])
    outcome(a, first, "1")
    outcome(b, second, "3")
    r = outcome(a, second, "2")
    for j in range(len(e)):
        __same__("result %d beside another simulation" % j, r[j], e[j])


# ---- results handed out earlier stay as they are ----

def kept_diagrams(i):
    a, b = (request(k, n) for k, n in ((i % 4, "1"), (i // 4 % 4, "2")))
    c = parts()
    if c is None:
        return
    r = c.get_csd_data(a[0], a[1], reso(a[2]))
    s = __snap__([r[0], r[1]])
    c.get_csd_data(b[0], b[1], reso(b[2]))
    __unchanged__("earlier diagram", [r[0], r[1]], s)
    c.get_csd_data(a[0], a[1], reso(a[2]))
    __unchanged__("earlier diagram", [r[0], r[1]], s)


def kept_signals(i):
    a, b = grid(i % 3), grid((0, 3, 3, 4, 2, 5)[i])
    oa, ob = fields(*a)[0], fields(*b)[0]
    g = generic()
    m = g.sensor_potential(oa, a[0], a[1])
    e = g.sensor_response(m)
    s = __snap__([m, e])
    g.sensor_response(g.sensor_potential(ob, b[0], b[1]))
    __unchanged__("earlier potential and response", [m, e], s)
    g.sensor_response(g.sensor_potential(oa, a[0], a[1]))
    __unchanged__("earlier potential and response", [m, e], s)
    da, db = plain(*a), plain(*b)
    for k in range(2):
        d = make(k, bounded("s", 6, 10), Gen(1))
        r = apply(k, d, da, a[0], a[1])
        s = __snap__([r])
        apply(k, d, db, b[0], b[1])
        __unchanged__("earlier noise", [r], s)
        apply(k, d, da, a[0], a[1])
        __unchanged__("earlier noise", [r], s)
    for cls in RTN:
        d = rtn(cls, bounded("s", 6, 10))
        r = d.noise_function(da, a[0], a[1])
        s = __snap__([r])
        d.rng = Gen(1, BURSTS, ())
        d.noise_function(db, b[0], b[1])
        __unchanged__("earlier telegraph noise", [r], s)
        d.rng = Gen(1, BURSTS, ())
        d.noise_function(da, a[0], a[1])
        __unchanged__("earlier telegraph noise", [r], s)


def kept_scans(i):
    flat, rise, over = i % 2, i // 2 % 2, ("sensor", "plunger")[i // 4]
    w, u = Sweep("1", flat, over), Sweep("2", flat, over)
    t = fresh(i % 3, rise, False)
    m = w.potential(t)
    e = t.sensor_response(m)
    r = [m, e]
    if over == "sensor":
        r += list(w.labels(t, m))
    s = __snap__(r)
    for x in (u, w):
        n = x.potential(t)
        t.sensor_response(n)
        if over == "sensor":
            x.labels(t, n)
        __unchanged__("earlier scan", r, s)


def kept_measurements(i):
    first, second = KINDS[i % 3], KINDS[i // 3]
    sim = built()
    r = outcome(sim, first, "1")
    s = __snap__(r)
    outcome(sim, second, "2")
    __unchanged__("earlier measurement", r, s)
    outcome(sim, first, "1")
    __unchanged__("earlier measurement", r, s)
