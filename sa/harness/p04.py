from noise import *


def bound(label, r, o, t):
    __ident__(label + ": returned occupations", r[0], o)
    if t is None:
        __check__(label + ": no transitions", r[1] is None)
    else:
        __ident__(label + ": returned transitions", r[1], t)


def jumps(i):
    axis, up1, up2 = split(i)
    for shape in (shape2d(axis), (N,)):
        for lead in (True, False):
            for resim in (True, False):
                v1, v2 = limits("a", up1), limits("b", up2)
                o, t = fields(v1, v2, shape)
                if not lead:
                    t = None
                d = jumper(axis)
                r = d.noise_function(o, t, v1, v2, region if resim else None)
                label = "fresh"
                bound(label, r, o, t)
                eo, et = jumped(axis, v1, v2, up1, up2, shape, 0, resim)
                __same__(label + ": occupations", o, eo)
                if lead:
                    __same__(label + ": transitions", t, et)
                o, t = fields(v1, v2, shape)
                if not lead:
                    t = None
                r = d.noise_function(o, t, v1, v2, region if resim else None, True)
                label = "frozen"
                bound(label, r, o, t)
                __same__(label + ": occupations", o, eo)
                if lead:
                    __same__(label + ": transitions", t, et)


def view(i):
    """the arrays handed over are windows into larger arrays"""
    axis, up1, up2 = split(i)
    v1, v2 = limits("a", up1), limits("b", up2)
    shape = shape2d(axis)
    o, t = fields(v1, v2, shape)
    bigo, bigt = np.zeros((shape[0] + 2, shape[1] + 2, 2)), np.zeros((shape[0] + 2, shape[1] + 2))
    bigo[1:-1, 1:-1] = o
    bigt[1:-1, 1:-1] = t
    jumper(axis).noise_function(bigo[1:-1, 1:-1], bigt[1:-1, 1:-1], v1, v2, region)
    eo, et = jumped(axis, v1, v2, up1, up2, shape, 0)
    __same__("window: occupations", bigo[1:-1, 1:-1], eo)
    __same__("window: transitions", bigt[1:-1, 1:-1], et)


def inactive(i):
    axis, up1, up2 = split(i)
    for shape in (shape2d(axis), (N,)):
        v1, v2 = limits("a", up1), limits("b", up2)
        o, t = fields(v1, v2, shape)
        d = jumper(axis, 0, 0)
        bound("inactive", d.noise_function(o, t, v1, v2, region), o, t)
        bound("frozen after inactive", d.noise_function(o, t, v1, v2, region, True), o, t)


def blur(i):
    cls = BLUR[i % 2]
    v1, v2, shape = grid(i // 2)
    s = bounded("s", 6, 10)
    for lead in (True, False):
        for resim in (True, False):
            o, t = fields(v1, v2, shape)
            if not lead:
                t = None
            before = o.copy()
            bt = t.copy() if lead else None
            d = cls(sigma=s)
            r = d.noise_function(o, t, v1, v2, region if resim else None)
            bound("fresh", r, o, t)
            if lead:
                __same__("fresh: transitions", t, bt)
            __changed__("fresh: occupations", o, before)
            fresh = o.copy()
            o = before.copy()
            r = d.noise_function(o, t, v1, v2, region if resim else None, True)
            bound("frozen", r, o, t)
            __same__("frozen: occupations", o, fresh)
            if lead:
                __same__("frozen: transitions", t, bt)
            # no width, no change
            o = before.copy()
            r = cls(sigma=0).noise_function(o, t, v1, v2, region if resim else None)
            bound("without width", r, o, t)
            __same__("without width: occupations", o, before)
