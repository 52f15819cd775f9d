from comp import *
from noise import bounded
from simcats.support_functions import rotate_points, signed_dist_points_line, pixel_to_volt_1d
from simcats.support_functions._linear_algebra import is_point_below_line, line_line_intersection, line_circle_intersection


def points(n=3):
    return __arr__("pts", (n, 2), dtype="float")


def rotation(i):
    n = (3, 1, 5)[i]
    p = points(n)
    a, b = __atom__("a"), __atom__("b")
    r = rotate_points(p, a)
    __check__("one rotated point per point", r.shape == (n, 2))
    __same__("there and back", rotate_points(r, -a), p)
    __same__("rotating twice adds the angles", rotate_points(r, b), rotate_points(p, a + b))
    __same__("no rotation", rotate_points(p, 0), p)
    __same__("origin is fixed", rotate_points(np.zeros((n, 2)), a), np.zeros((n, 2)))
    for k in range(n):
        x, y = p[k, 0], p[k, 1]
        __same__("distance to the origin", r[k, 0] ** 2 + r[k, 1] ** 2, x ** 2 + y ** 2)
        __same__("counter-clockwise: x", r[k, 0], np.cos(a) * x - np.sin(a) * y)
        __same__("counter-clockwise: y", r[k, 1], np.sin(a) * x + np.cos(a) * y)
        # every point alone gives the same
        __same__("points are independent", rotate_points(p[k:k + 1], a)[0], r[k])
    __same__("default angle", rotate_points(p), rotate_points(p, np.pi / 4))
    s = __snap__(p)
    rotate_points(p, a)
    __unchanged__("given points", p, s)


def distance(i):
    n = (3, 1)[i]
    p = points(n)
    x0, y0 = __atom__("x0"), __atom__("y0")
    dx, dy = bounded("dx", 0.5, 2), bounded("dy", 0.5, 2)
    l = np.array([[x0, y0], [x0 + dx, y0 + dy]])
    back = np.array([[x0 + dx, y0 + dy], [x0, y0]])
    d = signed_dist_points_line(p, l)
    __check__("one distance per point", d.shape == (n,))
    __same__("reversed line", signed_dist_points_line(p, back), -d)
    t = __atom__("t")
    __same__("points of the line", signed_dist_points_line(np.array([[x0 + t * dx, y0 + t * dy]]), l), np.zeros(1))
    s = __atom__("s")
    norm = np.sqrt(dx ** 2 + dy ** 2)
    off = np.array([[x0 + t * dx + s * dy / norm, y0 + t * dy - s * dx / norm]])
    __same__("distance to the right is positive", signed_dist_points_line(off, l), np.array([s]))
    # any two points of the line describe the same line
    u, v = bounded("u", 1, 2), bounded("v", 3, 4)
    again = np.array([[x0 + u * dx, y0 + u * dy], [x0 + v * dx, y0 + v * dy]])
    __same__("other points of the same line", signed_dist_points_line(p, again), d)
    for k in range(n):
        __same__("points are independent", signed_dist_points_line(p[k:k + 1], l)[0], d[k])
    a = __snap__(p)
    b = __snap__(l)
    signed_dist_points_line(p, l)
    __unchanged__("given points", p, a)
    __unchanged__("given line", l, b)


def pixel(i):
    v = np.array([__atom__("v0"), __atom__("v1")])
    n = __dim__("n", 2)
    k, j = __atom__("k", "posfloat"), __atom__("j", "posfloat")
    f = lambda k: pixel_to_volt_1d(k, n, v) if i == 0 else pixel_to_volt_1d(pixel=k, pixel_num=n, volt_limits=v)
    __same__("first pixel", f(0), v[0])
    __same__("last pixel", f(n), v[1])
    __same__("uniform steps", (f(k) - f(j)) * n, (v[1] - v[0]) * (k - j))


def pixels(i):
    """every pixel of small scans, whole numbers and decimals"""
    v = np.array([__atom__("v0"), __atom__("v1")]) if i % 2 == 0 else np.array([-3, 4])
    n = 1 + i // 2
    for k in range(n + 1):
        for p in (k, float(k)):
            __same__("voltage of a pixel", pixel_to_volt_1d(p, n, v), v[0] + (v[1] - v[0]) * (k / n))


def line_line(i):
    a, b, c = __atom__("m1"), __atom__("b1"), __atom__("b2")
    other = a + bounded("dm", 0.5, 2) * (1, -1)[i % 2]
    x = __atom__("x")
    kind = (tuple, list, np.array)[i % 3]
    l1, l2 = kind([a, b]), kind([other, c])
    p = line_line_intersection(l1, l2)
    __same__("on the first line", p[1], a * p[0] + b)
    __same__("on the second line", p[1], other * p[0] + c)
    q = line_line_intersection(l2, l1)
    __same__("order of the lines", q, p)
    for q in (line_line_intersection(l1, x), line_line_intersection(x, l1)):
        __same__("on the vertical line", q[0], x)
        __same__("on the other line", q[1], a * x + b)
    __raises__("same line", "ValueError", lambda: line_line_intersection(l1, kind([a, b])))
    __raises__("parallel lines", "ValueError", lambda: line_line_intersection(l1, kind([a, b + bounded("db", 1, 2)])))
    __raises__("vertical lines", "ValueError", lambda: line_line_intersection(x, x + 1.0))
    __raises__("same vertical line", "ValueError", lambda: line_line_intersection(x, x))
    __raises__("not a line", "ValueError", lambda: line_line_intersection(kind([a, b, c]), l2))
    __raises__("not a line either", "ValueError", lambda: line_line_intersection(l1, kind([a])))


def on_circle(label, q, cx, cy, r):
    __same__(label, (q[0] - cx) ** 2 + (q[1] - cy) ** 2, r ** 2)


def line_circle(i):
    cx, cy = __atom__("cx"), __atom__("cy")
    r = bounded("r", 1, 2)
    inside = bounded("inside", -0.4, 0.4)
    m = bounded("m", -0.5, 0.5)
    if i == 0:
        b = cy - m * cx + inside
        res = line_circle_intersection((m, b), (cx, cy), r)
        on = lambda q: __same__("on the line", q[1], m * q[0] + b)
    elif i == 1:
        x = cx + inside
        res = line_circle_intersection(x, (cx, cy), r)
        on = lambda q: __same__("on the line", q[0], x)
    elif i == 2:
        # far away
        __check__("no intersection", len(line_circle_intersection(cx + 2 * r, (cx, cy), r)) == 0)
        __check__("no intersection", len(line_circle_intersection((m, cy - m * cx + 5 * r), (cx, cy), r)) == 0)
        __raises__("no radius", "ValueError", lambda: line_circle_intersection(cx, (cx, cy), 0.0))
        __raises__("negative radius", "ValueError", lambda: line_circle_intersection(cx, (cx, cy), -r))
        return
    else:
        # touching
        for x, y in ((cx + r, cy), (cx - r, cy)):
            res = line_circle_intersection(x, (cx, cy), r)
            __check__("one point", len(res) == 1)
            __same__("touches there", res[0][1], y)
            __same__("touches at the line", res[0][0], x)
        res = line_circle_intersection((0, cy + r), (cx, cy), r)
        __check__("one point", len(res) == 1)
        __same__("touches above: x", res[0][0], cx)
        __same__("touches above: y", res[0][1], cy + r)
        return
    __check__("two points", len(res) == 2)
    for q in res:
        on(q)
        on_circle("on the circle", q, cx, cy, r)
    __changed__("different points", res[0][1 if i else 0], res[1][1 if i else 0])


def below(i):
    x, y = __atom__("x"), __atom__("y")
    m, b = __atom__("m"), __atom__("b")
    d = __atom__("d", "posfloat")
    h = (b, 3, np.float64(2.5), 1.5)[i]
    __check__("below a horizontal line", is_point_below_line((x, h - d), h))
    __check__("not below: above", not is_point_below_line((x, h + d), h))
    __check__("not below: on the line", not is_point_below_line((x, h), h))
    __check__("below a line", is_point_below_line((x, m * x + b - d), (m, b)))
    __check__("not below a line", not is_point_below_line((x, m * x + b + d), (m, b)))
    __check__("not below: on the sloped line", not is_point_below_line((x, m * x + b), (m, b)))
    __raises__("not a line", "ValueError", lambda: is_point_below_line((x, y), "line"))


def nearly(i):
    """almost parallel lines meet (far away), almost touching lines meet a circle twice or not at all"""
    c, x = __atom__("b2"), __atom__("x")
    cx, cy = __atom__("cx"), __atom__("cy")
    tiny = 1 / 2 ** (24 + 16 * (i % 2))
    if i < 2:
        for a in (0.5, -4.0, 0.0):
            p = line_line_intersection((a, 1.0), (a + tiny, c))
            __same__("on the first of two almost parallel lines", p[1], a * p[0] + 1.0)
            __same__("on the second of two almost parallel lines", p[1], (a + tiny) * p[0] + c)
    elif i < 4:
        r = 1 + tiny
        for line, k in (((0, cy + 1.0), 0), ((0.0, cy - 1), 0), (cx + 1.0, 1), (cx - 1, 1)):
            res = line_circle_intersection(line, (cx, cy), r)
            __check__("two points of an almost touching line", len(res) == 2)
            for q in res:
                on_circle("on the circle", q, cx, cy, r)
            __changed__("different points", res[0][k], res[1][k])
    else:
        r = 1 - tiny
        for line in ((0, cy + 1.0), (0.0, cy - 1), cx + 1.0, cx - 1):
            __check__("an almost touching line", len(line_circle_intersection(line, (cx, cy), r)) == 0)
