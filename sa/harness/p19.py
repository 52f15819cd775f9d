from gen import *
import simcats.ideal_csd.geometric._get_electron_occupation as geo
from simcats.ideal_csd.geometric import get_electron_occupation, generate_lead_transition_mask_1d
from simcats.ideal_csd.geometric import generate_lead_transition_mask_2d
from simcats.support_functions import rotate_points


class Line:
    """total charge transition k: an arbitrary curve, each above the previous one"""

    def __init__(self, k, level=None):
        self.k, self.level = k, level

    def __call__(self, x_eval, lut_entries=None):
        if self.level is not None:
            return 0 * x_eval + self.level
        return __field__("tct", x_eval, 0) + (self.k - 1) * __gap__()


def __gap__():
    g = __atom__("gap")
    __lohi__(g, 0.125, 1)
    return g


def lines(n):
    return {k: Line(k) for k in range(1, n + 1)}


def anchors(n):
    return {k: __arr__("bez" + str(k), (2 * k - 1, 3, 2)) for k in range(1, n + 1)}


def sweep(name):
    a, b = __atom__(name + "0"), __atom__(name + "1")
    __lohi__(a, -2, 2)
    __lohi__(b, -2, 2)
    __assume__(a != b)
    return np.array([a, b])


def regions1d(v1, v2, rot, n, tcts):
    p = rotate_points(points=np.stack([axis_volts(v1, n), axis_volts(v2, n)], axis=1), angle=-rot)
    r = np.zeros(n)
    for k in range(1, tcts + 1):
        r = r + np.where(Line(k)(p[:, 0]) <= p[:, 1], 1, 0)
    return r


SHAPES = ("sigmoid", "cauchy", "sigmoid", "cauchy")


def sums1d(i):
    n, tcts = 3, 3
    v1, v2 = sweep("a"), sweep("b")
    rot = __atom__("rot")
    gam = None
    if i >= 2:
        gam = __atom__("gam")
        __lohi__(gam, 1, 8)
    f = lines(tcts)
    if i % 2:
        f = {k: f[k] for k in (3, 1, 2)}
    occ = get_electron_occupation(np.zeros(n), v1, v2, anchors(tcts + 1), f, rot, None, SHAPES[i], gam)
    total = regions1d(v1, v2, rot, n, tcts)
    __check__("one pair of occupations for every pixel", occ.shape == (n, 2))
    __same__("occupations add up to the region's number", occ[:, 0] + occ[:, 1], total)
    __same__("first occupation non-negative", np.where(occ[:, 0] < 0, 1, 0), np.zeros(n))
    __same__("second occupation non-negative", np.where(occ[:, 1] < 0, 1, 0), np.zeros(n))


def rows(levels, n):
    """a scan whose rows lie between and on horizontal transitions"""
    v2 = np.array([0, 4])
    f = {}
    for k in range(len(levels)):
        f[k + 1] = Line(k + 1, levels[k])
    return v2, f


def level(name, lo, hi):
    a = __atom__(name)
    __lohi__(a, lo, hi)
    return a


class Img:
    def __init__(self, data=None):
        self.data = data

    def Copy(self, a):
        self.data = a

    def Convert(self, t):
        pass

    def __invert__(self):
        return Img(self.data)


class Dip:
    """connected-component labelling: the label image of the scene"""

    def __init__(self, labels, objects):
        self.labels, self.objects = labels, objects

    def Image(self, *a, **kw):
        return Img(*a[:1])

    def Label(self, img, *a, **kw):
        return self.labels

    def GetObjectLabels(self, img, *a, **kw):
        return self.objects


def labelled(csd, labels, objects, v1, v2, f, kind, n, rot=0):
    if not hasattr(geo, "dip"):
        return None
    geo.dip = Dip(labels, objects)
    return get_electron_occupation(csd, v1, v2, anchors(n), f, rot, None, kind, None)


def sums2d(i):
    v1 = sweep("a")
    # rows at 0, 1, 2, 3, 4
    v2, f = rows([level("c1", -1, -0.25), level("c2", 0.75, 1.25), level("c3", 3.75, 4.25), 9], 5)
    lab = np.array([[1, 1, 1], [0, 0, 0], [2, 2, 2], [2, 2, 2], [0, 0, 0]])
    csd = np.array([[0, 0, 0], [2, 2, 2], [0, 0, 0], [0, 0, 0], [3, 3, 3]])
    if i >= 2:
        f = {k: f[k] for k in (3, 1, 4, 2)}
    occ = labelled(csd, lab, [1, 2], v1, v2, f, SHAPES[i], 4)
    if occ is None:
        return
    total = np.array([[1, 1, 1], [2, 2, 2], [2, 2, 2], [2, 2, 2], [3, 3, 3]])
    __check__("one pair of occupations for every pixel", occ.shape == (5, 3, 2))
    __same__("occupations add up to the region's number", occ[:, :, 0] + occ[:, :, 1], total)
    __same__("first occupation non-negative", np.where(occ[:, :, 0] < 0, 1, 0), np.zeros((5, 3)))
    __same__("second occupation non-negative", np.where(occ[:, :, 1] < 0, 1, 0), np.zeros((5, 3)))


def columns2d(i):
    """two regions side by side, their transition crossing the columns"""
    v1, v2 = np.array([0, 4]), sweep("b")
    f = {1: Line(1, level("c1", 0.75, 1.25)), 2: Line(2, level("c2", 2.75, 3.25)), 3: Line(3, 9)}
    lab = np.array([[1, 0, 2, 0, 3], [1, 0, 2, 0, 3]])
    csd = np.array([[0, 1, 0, 2, 0], [0, 1, 0, 2, 0]])
    # the voltage of gate 1 is the rotated ordinate
    occ = labelled(csd, lab, [1, 2, 3], v1, v2, f, SHAPES[i], 3, -np.pi / 2)
    if occ is None:
        return
    total = np.array([[0, 1, 1, 2, 2], [0, 1, 1, 2, 2]])
    __same__("occupations add up to the region's number", occ[:, :, 0] + occ[:, :, 1], total)
    __same__("first occupation non-negative", np.where(occ[:, :, 0] < 0, 1, 0), np.zeros((2, 5)))
    __same__("second occupation non-negative", np.where(occ[:, :, 1] < 0, 1, 0), np.zeros((2, 5)))


def missing1d(i):
    """all points lie above the last configured transition"""
    v1, v2 = sweep("a"), sweep("b")
    f = {1: Line(1, -30), 2: Line(2, -20 if i else 0 * __atom__("z") - 20)}
    __raises__("sweep above the last transition", "IndexError",
               lambda: get_electron_occupation(np.zeros(3), v1, v2, anchors(2), f, 0, None, SHAPES[i], None))


def missing_many(i):
    """any number of configured transitions"""
    n = 1 + i // 2
    v1, v2 = sweep("a"), sweep("b")
    f = {k: Line(k, -30 + k) for k in range(1, n + 1)}
    __raises__("sweep above the last transition", "IndexError",
               lambda: get_electron_occupation(np.zeros(2), v1, v2, anchors(n), f, 0, None, SHAPES[i % 2], None))
    if hasattr(geo, "dip"):
        one = np.array([[1, 1], [1, 1]])
        __raises__("scan above the last transition", "IndexError",
                   lambda: labelled(np.zeros((2, 2)), one, [1], v1, v2, f, SHAPES[i % 2], n))


def missing2d(i):
    v1, v2 = sweep("a"), sweep("b")
    f = {1: Line(1, -30), 2: Line(2, -20)}
    one = np.array([[1, 1], [1, 1]])
    if not hasattr(geo, "dip"):
        return
    __raises__("scan above the last transition", "IndexError",
               lambda: labelled(np.zeros((2, 2)), one, [1], v1, v2, f, SHAPES[i], 2))
    # part of the scan only
    two = np.array([[1, 1], [0, 0], [2, 2]])
    g = {1: Line(1, -30), 2: Line(2, 0)}
    __raises__("scan reaching above the last transition", "IndexError",
               lambda: labelled(np.array([[0, 0], [2, 2], [0, 0]]), two, [1, 2], v1, np.array([-1, 1]), g, SHAPES[i], 2))


def kinds(i):
    v1, v2 = sweep("a"), sweep("b")
    __raises__("unknown transition shape", "ValueError",
               lambda: get_electron_occupation(np.zeros(3), v1, v2, anchors(2), {1: Line(1, -30)}, 0, None, "linear",
                                             2 if i else None))


def mask1d(i):
    """n pixels of a sweep, totals arbitrary"""
    n = (2, 3, 4, 5)[i]
    a, b = __arr__("na", (n,), kind="int"), __arr__("nb", (n,), kind="int")
    m = generate_lead_transition_mask_1d(np.stack([a, b], axis=-1))
    tot = a + b
    e = []
    for k in range(n):
        hit = False
        if k > 0:
            hit = tot[k - 1] < tot[k]
        if k < n - 1:
            hit = hit | (tot[k + 1] < tot[k])
        e.append(np.where(hit, tot[k], 0))
    __same__("number of the transition where the total changes, zero elsewhere", m, np.array(e))


def mask2d(i):
    """horizontal transitions: a pixel carries the number of the transition crossing it"""
    nx, ny = ((3, 3), (4, 3), (3, 4), (5, 2))[i]
    v1 = np.array([0, nx - 1])
    v2 = np.array([0, ny - 1])
    c1, c2 = level("c1", -1, 1), level("c2", 1.125, 4)
    m = generate_lead_transition_mask_2d(np.zeros((ny, nx)), v1, v2, {1: Line(1, c1), 2: Line(2, c2)}, 0, None)
    y = axis_volts(v2, ny)[:, np.newaxis] + np.zeros((ny, nx))
    e = np.where(np.abs(y - c2) < 0.5, 2, np.where(np.abs(y - c1) < 0.5, 1, 0))
    __same__("number of the transition crossing the pixel", m, e)


def mask2d_any(i):
    """arbitrary transitions"""
    nx, ny = ((3, 3), (4, 3), (3, 4), (5, 2))[i]
    a, b = __atom__("a"), __atom__("b")
    __lohi__(a, -1, 1)
    __lohi__(b, -1, 1)
    m = generate_lead_transition_mask_2d(np.zeros((ny, nx)), np.array([a, a + 1]), np.array([b, b + 2]), lines(2), __atom__("rot"),
                                         None)
    __same__("nothing but transition numbers", np.where((m == 0) | (m == 1) | (m == 2), 0, 1), np.zeros((ny, nx)))
