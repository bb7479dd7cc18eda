"""Curve smoothers: orthogonal polynomials, lines, linear extrapolation."""
from symx.runner import Harness

from checks.capture import sum_

OUTSIDE = "more bins than stated, rounding"
ASSUMPTIONS = ["numpy.polyfit of degree 0 and 1 is replaced by the exact solution of the normal equations"]

FIXED = [1.0, -2.0, 3.0, 0.5, 1.0, 2.0]
ERRORS = [0.5, 1.0, 0.25, 1.0, 0.5, 2.0]


def data(H, n, u=None, free=None):
    np = H.np
    x = np.arange(n) * 1.0
    err = H.arr(u or ERRORS[:n])
    if free is None:
        y = H.reals("y", n, lo=-10, hi=10)
    else:
        y = H.arr([H.real("y%d" % i, lo=-10, hi=10) if i in free else FIXED[i] for i in range(n)])
    return x, np.c_[x, np.ones(n), err], y, [1.0 / (e * e) for e in (u or ERRORS[:n])]


def poly(H, n, u=None, free=None):
    """the fit is a weighted least squares polynomial: residuals are orthogonal to constant and linear terms"""
    one = H.mod("smoothing.onedim")
    x, X, y, w = data(H, n, u, free)
    s = one.OrthogonalPolynomialSmoother()
    y0 = y.copy()
    s.fit(X, y)
    P = X[:, :1].copy()
    out = H.items(s.predict(P))
    yi = H.items(y)
    res = [a - b for a, b in zip(out, yi)]
    for v in out:
        H.check("finite", H.finite(v))
    H.check("the weighted mean of the bins is preserved", H.eq(sum_([a * r for a, r in zip(w, res)]) / sum(w), 0.0))
    if n > 2:
        H.check("the linear trend is preserved", H.eq(sum_([a * i * r for i, (a, r) in enumerate(zip(w, res))]) / sum(w), 0.0))
    H.check("the input is not changed", H.arr_eq(y, y0))
    H.check("the predicted rows are not changed", H.arr_eq(P, X[:, :1]))
    H.observe("out", H.arr(out))


def poly_line(H, n):
    """a line through the bins is reproduced at any position, and continued constantly outside the range"""
    one = H.mod("smoothing.onedim")
    np = H.np
    x, X, _, w = data(H, n)
    a, b = H.real("a", lo=-5, hi=5), H.real("b", lo=-5, hi=5)
    s = one.OrthogonalPolynomialSmoother()
    s.fit(X, a + b * x)
    q = H.real("q", lo=-3, hi=n + 2)
    P = H.arr([q, 1.0]).reshape((2, 1))
    P0 = P.copy()
    out = H.items(s.predict(P))
    c = H.clip(q, 0.0, n - 1.0)
    if n > 2:
        H.check("lines are reproduced, constant outside the range of the bins", H.eq(out[0], a + b * c))
        H.check("other rows are unaffected", H.eq(out[1], a + b))
    H.check("the predicted rows are not changed", H.arr_eq(P, P0))
    H.observe("out", H.arr(out))


def clamp(H, n, free):
    one = H.mod("smoothing.onedim")
    x, X, y, w = data(H, n, None, free)
    s = one.OrthogonalPolynomialSmoother()
    s.fit(X, y)
    lo, hi = H.real("lo", lo=-5, lt=0), H.real("hi", gt=n - 1, hi=n + 5)
    P = H.arr([lo, 0.0, hi, n - 1.0]).reshape((4, 1))
    P0 = P.copy()
    out = H.items(s.predict(P))
    H.check("constant below the range of the bins", H.eq(out[0], out[1]))
    H.check("constant above the range of the bins", H.eq(out[2], out[3]))
    H.check("the predicted rows are not changed", H.arr_eq(P, P0))
    H.observe("out", H.arr(out))


def quadratic(H, n, scale):
    """a strong parabola is found and reproduced"""
    one = H.mod("smoothing.onedim")
    x, X, _, w = data(H, n, [0.01] * n)
    a, b = H.real("a", lo=-5, hi=5), H.real("b", lo=-5, hi=5)
    c = H.real("c", lo=1, hi=5) * scale
    s = one.OrthogonalPolynomialSmoother()
    s.fit(X, a + b * x + c * x * x)
    q = H.choose("q", [0.0, 0.5, 1.25, 2.0, n - 1.5])
    out = H.items(s.predict(H.arr([q]).reshape((1, 1))))
    H.check("significant parabolas are reproduced", H.eq(out[0], a + b * q + c * q * q))
    H.observe("out", H.arr(out))


def wls(H, x, y, w):
    sw, sx, sy = sum_(w), sum_([a * b for a, b in zip(w, x)]), sum_([a * b for a, b in zip(w, y)])
    sxx, sxy = sum_([a * b * b for a, b in zip(w, x)]), sum_([a * b * c for a, b, c in zip(w, x, y)])
    det = sw * sxx - sx * sx
    return det, sxx * sy - sx * sxy, sw * sxy - sx * sy


def extrapolate(H, n, symx):
    ext = H.mod("smoothing.extrapolate")
    np = H.np
    y = H.reals("y", n, lo=-10, hi=10)
    u = H.reals("u", n, lo=0, hi=2) if n == 2 else H.arr(ERRORS[:n])
    x = H.reals("x", n, lo=0, hi=8) if symx else np.arange(n) * 1.0
    if symx:
        for i in range(n - 1):
            H.assume(x[i + 1] - x[i] >= 0.5)
    s = ext.LinearExtrapolator()
    r = s.fit(np.c_[x, np.ones(n), u], y)
    q = H.real("q", lo=-20, hi=40)
    out = H.items(s.predict(H.arr([q]).reshape((1, 1))))[0]
    w = [1 / (v * v + 1e-4) for v in H.items(u)]
    det, a, b = wls(H, H.items(x), H.items(y), w)
    if n == 2:
        xi, yi = H.items(x), H.items(y)
        H.check("the line through two bins", H.eq((out - yi[0]) * (xi[1] - xi[0]), (yi[1] - yi[0]) * (q - xi[0])))
    else:
        H.check("the weighted least squares line at any position", H.eq(out * det, a + b * q))
    H.observe("out", out)


def lines(H, n, fallback):
    one = H.mod("smoothing.onedim")
    x, X, y, _ = data(H, n, [1.0] * n)
    s = one.LinearSmoother(fallback_when_negative_slope=fallback)
    yi = H.items(y)
    det, a, b = wls(H, [float(i) for i in range(n)], yi, [1.0] * n)
    neg = n > 1 and H.fork(H.lt(b, 0))
    s.fit(X, y)
    q = H.real("q", lo=-20, hi=40)
    out = H.items(s.predict(H.arr([q]).reshape((1, 1))))[0]
    if n == 1 or (neg and fallback):
        H.check("the mean", H.eq(out * n, sum_(yi)))
    else:
        H.check("the least squares line", H.eq(out * det, a + b * q))
    H.observe("out", out)


def harnesses(tier):
    out = []

    def add(name, fn, b, **p):
        out.append(Harness(name, fn, p, b))

    for n in (1, 2, 3):
        add("poly%d" % n, poly, "%d bins, any values" % n, n=n)
    add("poly4", poly, "4 bins, any two values", n=4, free=(1, 3))
    add("poly5", poly, "5 bins, any value of one", n=5, free=(2,))
    add("poly4_eq", poly, "4 bins, any two values", n=4, u=[0.5] * 4, free=(0, 3))
    add("line3", poly_line, "3 bins, any line, any position", n=3)
    add("line5", poly_line, "5 bins, any line, any position", n=5)
    add("clamp", clamp, "4 bins, any two values, any position outside", n=4, free=(0, 2))
    add("quadratic", quadratic, "10 bins, any significant parabola", n=10, scale=1.0)
    add("quadratic_neg", quadratic, "10 bins, any significant parabola", n=10, scale=-1.0)
    add("extrapolate2", extrapolate, "2 bins, any values, positions and uncertainties", n=2, symx=True)
    add("extrapolate3", extrapolate, "3 bins, any values and positions", n=3, symx=True)
    add("extrapolate4", extrapolate, "4 bins, any values", n=4, symx=False)
    for n in (1, 2, 3):
        for f in (False, True):
            add("lines%d_%d" % (n, f), lines, "%d bins, any values" % n, n=n, fallback=f)
    if tier == "thorough":
        add("poly5_2", poly, "5 bins, any two values", n=5, free=(0, 2))
        add("poly6", poly, "6 bins, any two values", n=6, free=(1, 4))
        add("poly4_all", poly, "4 bins, any values", n=4)
    return out
