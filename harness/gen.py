"""Generators and small models shared by the property modules."""
import math

import numpy as np
from hypothesis import strategies as st
from core import req
from scipy.interpolate import CubicSpline, PchipInterpolator


def sig(x, n=6):
    """Round to n significant digits so that cases stay readable."""
    return float(f"{x:.{n}g}")


def fl(lo, hi, n=6):
    """Floats in [lo, hi], mostly evenly spread."""
    return st.floats(lo, hi, allow_nan=False).map(lambda v: min(max(
        sig(v, n), lo), hi))


def logf(lo, hi, n=6):
    """Floats spread evenly over the decades of [lo, hi]."""
    return st.floats(math.log(lo), math.log(hi), allow_nan=False).map(
        lambda v: min(max(sig(math.exp(v), n), lo), hi))


# ---------------------------------------------------------------- flows
class Flow:
    """Smooth positive edge velocity with exact derivatives.

    u(x) = U*phi((x - xs)/L) with phi from one of a few families and xi in
    [0, 1] over the range of interest.
    """

    def __init__(self, spec):
        self.spec = spec
        self.U, self.L, self.xs = spec["U"], spec["L"], spec["xs"]
        self.kind, self.p = spec["kind"], spec["p"]
        self.x0, self.x1 = self.xs, self.xs + self.L

    def phi(self, s, n=0):
        p = self.p
        if self.kind == "pow":
            c, m = p
            k = 1.0
            for i in range(n):
                k *= m - i
            return k*(s + c)**(m - n)
        if self.kind == "exp":
            return p[0]**n*np.exp(p[0]*s)
        if self.kind == "poly":
            co = [1.0] + list(p)
            for _ in range(n):
                co = [i*c for i, c in enumerate(co)][1:] or [0.0]
            return sum(c*s**i for i, c in enumerate(co)) + 0.0*s
        if self.kind == "lin":
            return (1 - p[0]*s if n == 0 else (-p[0] if n == 1 else 0.0)
                    ) + 0.0*s
        if self.kind == "stag":
            co = [0.0, 1.0] + list(p)
            for _ in range(n):
                co = [i*c for i, c in enumerate(co)][1:] or [0.0]
            return sum(c*s**i for i, c in enumerate(co)) + 0.0*s
        if self.kind == "sin":
            a, w, q = p
            base = a*w**n*np.sin(w*s + q + n*math.pi/2)
            return 1 + base if n == 0 else base
        raise ValueError(self.kind)

    def u(self, x):
        return self.U*self.phi((x - self.xs)/self.L)

    def du(self, x):
        return self.U/self.L*self.phi((x - self.xs)/self.L, 1)

    def d2u(self, x):
        return self.U/self.L**2*self.phi((x - self.xs)/self.L, 2)

    def at(self, fracs):
        return self.x0 + np.asarray(fracs, dtype=float)*self.L


@st.composite
def flows(draw, kinds=("pow", "exp", "poly", "sin"), U=(0.5, 60.0),
          L=(0.5, 5.0), decel=True):
    kind = draw(st.sampled_from(list(kinds)))
    if kind == "pow":
        p = [draw(fl(0.2, 1.0)), draw(fl(-0.08 if decel else 0.0, 1.5))]
    elif kind == "exp":
        p = [draw(fl(-0.15 if decel else 0.0, 1.5))]
    elif kind == "lin":
        p = [draw(fl(0.05, 0.9) if decel else fl(-1.5, 0.0))]
    elif kind == "stag":
        p = [draw(fl(-0.5, 1.0)), draw(fl(-0.3, 1.0))]
    elif kind == "poly":
        lo = -0.25 if decel else 0.0
        p = [draw(fl(lo, 1.5)), draw(fl(lo, 1.0)), draw(fl(lo, 1.0))]
    else:
        if decel:
            p = [draw(fl(0.0, 0.35)), draw(fl(0.5, 5.0)), draw(fl(0.0, 3.1))]
        else:
            p = [draw(fl(0.0, 0.35)), draw(fl(0.3, 1.5)), draw(fl(-1.0, 0.0))]
    return {"kind": kind, "p": p, "U": draw(logf(*U)), "L": draw(logf(*L)),
            "xs": draw(st.one_of(st.just(0.0), fl(-2.0, 5.0)))}


def scales(lo=1e-4, hi=1e4, ulo=0.1, uhi=1e4):
    """Factors for the length and speed of a flow, mostly one."""
    one = st.just(1.0)
    return st.tuples(st.one_of(one, one, logf(lo, hi, 3)),
                     st.one_of(one, one, logf(ulo, uhi, 3)))


def scaled(spec, k, rep, fd=1.0):
    """Flow of other size; differences are over a fixed distance (rep u)."""
    kL, kU = k
    if rep == "u":
        kL = max(kL, 1.0) if fd is None else fd
    if rep == "u_du":
        kL = min(kL, 100.0)
    if spec["kind"] == "stag":
        kU = min(kU, 10.0)      # stiff next to the stagnation point
    out = dict(spec)
    out.update(L=spec["L"]*kL, xs=spec["xs"]*kL, U=spec["U"]*kU)
    return out


FORMS = ["np", "0-d", "one", "strided", "reversed", "readonly", "int", "np.int",
         "ints", "ints one", "ints 32"]


def location_form(form, xs, lo, hi):
    """Locations in another form, and as a list of floats."""
    xs = [float(x) for x in xs]
    whole = list(range(math.ceil(lo), math.floor(min(hi, lo + 1e6)) + 1))
    if form.startswith(("int", "np.int")):
        if not whole:
            return None
        whole = whole[:1] + whole[1::1 + len(whole)//4]
        arg = {"int": whole[0], "np.int": np.int64(whole[0]),
               "ints": np.array(whole), "ints one": np.array(whole[-1:]),
               "ints 32": np.array(whole, dtype=np.int32)}[form]
        return arg, [float(v) for v in np.ravel(arg)]
    if form in ("np", "0-d", "one"):
        arg = {"np": np.float64(xs[0]), "0-d": np.array(xs[0]),
               "one": np.array(xs[:1])}[form]
        return arg, xs[:1]
    if form == "reversed":
        return np.array(xs)[::-1], xs[::-1]
    if form == "strided":
        return np.repeat(xs, 2)[::2], xs
    arg = np.array(xs)
    arg.setflags(write=False)
    return arg, xs


def check_form(form, o, names, xs, lo, hi, rho=None, atol=0.0):
    """Queries in another form equal those at floats."""
    v = location_form(form, xs, lo, hi)
    if v is None:
        return
    arg, floats = v
    for n in names:
        extra = (rho,) if n in ("tau_w", "dissipation") else ()
        f = getattr(o, n)
        want = np.array([float(np.asarray(f(x, *extra)).item())
                         for x in floats])
        got = np.asarray(f(arg, *extra), float)
        req(got.size == want.size
            and (got.shape == np.shape(arg) or np.ndim(arg) == 0),
            f"{n} has shape {got.shape} for locations {arg!r}")
        top = np.max(np.abs(want))
        req(close(got.ravel(), want, 1e-9, atol + 1e-11*top)
            or not np.all(np.isfinite(want)),
            f"{n} at {arg!r} is {got}, at the same floats {want}")


REPS = ["full", "u_du", "u", "spline", "u_dspline", "points", "slopes",
        "readonly"]


class WithDerivative:
    """Callable with exact derivatives available from a derivative method."""

    def __init__(self, flow, n=0):
        self._flow, self._n = flow, n

    def __call__(self, x):
        return [self._flow.u, self._flow.du, self._flow.d2u][self._n](x)

    def derivative(self, nu=1):
        return WithDerivative(self._flow, self._n + nu)


def velocity_args(flow, rep):
    """Arguments for set_velocity and the exact (u, du, d2u) they mean."""
    exact = (flow.u, flow.du, flow.d2u)
    if rep == "full":
        return (flow.u, flow.du, flow.d2u), exact
    if rep == "u_du":
        return (flow.u, flow.du), exact
    if rep == "u":
        return (flow.u,), exact
    if rep == "spline":
        return (WithDerivative(flow),), exact
    if rep == "u_dspline":
        return (flow.u, WithDerivative(flow, 1)), exact
    if rep == "readonly":
        # arrays that must not be written to, cached by the user
        def ro(fun):
            def wrapped(x):
                v = fun(x)
                if isinstance(v, np.ndarray):
                    v = v.copy()
                    v.setflags(write=False)
                return v
            return wrapped
        return (ro(flow.u), ro(flow.du), ro(flow.d2u)), exact
    xp = np.linspace(flow.x0, flow.x1, 41)
    if rep == "points":
        sp = PchipInterpolator(xp, flow.u(xp))
        return ((xp, flow.u(xp)),), (sp, sp.derivative(), sp.derivative(2))
    if rep == "slopes":
        dsp = PchipInterpolator(xp, flow.du(xp))
        anti = dsp.antiderivative()
        u0 = float(flow.u(flow.x0))
        return ((u0, (xp, flow.du(xp))),
                (lambda x: u0 + anti(x) - anti(flow.x0), dsp,
                 dsp.derivative()))
    raise ValueError(rep)


def reps(names=tuple(REPS)):
    return st.sampled_from(list(names))


fractions = st.floats(0.0, 1.0, allow_nan=False).map(lambda v: sig(v, 5))


def same(v, i):
    return v


@st.composite
def grown(draw, lists, vary=same, sizes=(40, 150, 400), often=30):
    """Lists, now and then continued to a large number of elements."""
    v = draw(lists)
    if v and draw(st.integers(0, often)) == often:
        n = draw(st.sampled_from(list(sizes)))
        v = v + [vary(v[i % len(v)], i) for i in range(len(v), n)]
    return v


def query_fracs(lo=1, hi=6):
    return grown(st.lists(fractions, min_size=lo, max_size=hi),
                 lambda v, i: sig((v + 0.618034*i) % 1, 5))


# ---------------------------------------------------------- comparisons
def close(a, b, rtol, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return bool(np.all(np.abs(a - b) <= atol + rtol*np.abs(b)))


def maxrel(a, b, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return np.inf
    s = np.abs(b) if scale is None else scale
    with np.errstate(all="ignore"):
        d = np.abs(a - b)
        r = np.where(d == 0, 0.0, d/s)
    if np.isnan(r).any():
        return np.inf
    return float(np.max(r)) if r.size else 0.0


def ref_fits():
    """Published shear, shape and slope functions of the named fits."""
    def white():
        S = lambda l: (l + 0.09)**0.62
        def Hf(l):
            z = 0.25 - l
            return 2 + 4.14*z - 83.5*z**2 + 854*z**3 - 3337*z**4 + 4576*z**5
        def Hp(l):
            z = 0.25 - l
            return -(4.14 - 167*z + 2562*z**2 - 13348*z**3 + 22880*z**4)
        return S, Hf, Hp, -0.09, math.inf

    def cb():
        def S(l):
            return (0.22 + 1.402*l + 0.018*l/(0.107 + l) if l < 0
                    else 0.22 + 1.57*l - 1.8*l*l)
        def Hf(l):
            return (2.088 + 0.0731/(0.14 + l) if l < 0
                    else 2.61 - 3.75*l + 5.24*l*l)
        def Hp(l):
            return (-0.0731/(0.14 + l)**2 if l < 0 else -3.75 + 10.48*l)
        return S, Hf, Hp, -0.1, 0.1

    def drela():
        S = lambda l: 0.22 + 1.52*l - 5*l**3 - 0.072*l*l/(l + 0.18)**2
        Hf = lambda l: 2.61 - 4.1*l + 14*l**3 + 0.56*l*l/(l + 0.18)**2
        Hp = lambda l: -4.1 + 42*l*l + 2*0.56*0.18*l/(l + 0.18)**3
        return S, Hf, Hp, -0.09, math.inf

    def spline():
        S = CubicSpline(TAB_LAMBDA, TAB_SHEAR)
        Hf = CubicSpline(TAB_LAMBDA, TAB_SHAPE)
        return S, Hf, Hf.derivative(), -0.09, 0.25
    return {"White": white(), "Cebeci-Bradshaw": cb(), "Drela": drela(),
            "Spline": spline()}


# Thwaites' tabulated values as in Edland (2021), from tests/ and the thesis
TAB_LAMBDA = [-0.090, -0.088, -0.086, -0.084, -0.080, -0.076, -0.072, -0.068,
              -0.064, -0.060, -0.056, -0.052, -0.048, -0.040, -0.032, -0.016,
              0.000, 0.016, 0.032, 0.048, 0.064, 0.080, 0.100, 0.120, 0.140,
              0.200, 0.250]
TAB_SHEAR = [0.000, 0.015, 0.027, 0.038, 0.056, 0.072, 0.085, 0.095, 0.104,
             0.113, 0.122, 0.130, 0.138, 0.153, 0.168, 0.195, 0.220, 0.244,
             0.268, 0.291, 0.313, 0.333, 0.359, 0.382, 0.404, 0.463, 0.500]
TAB_SHAPE = [3.55, 3.49, 3.44, 3.39, 3.30, 3.22, 3.15, 3.09, 3.04, 2.99, 2.94,
             2.90, 2.87, 2.81, 2.75, 2.67, 2.61, 2.55, 2.49, 2.44, 2.39, 2.34,
             2.28, 2.23, 2.18, 2.07, 2.00]

CUSTOM_FITS = {
    # name: shear, shape, slope; smooth stand-ins, separation at lambda=-0.085
    "custom-a": (lambda l: 0.22 + 1.7*l + 1.0*l*l - 6.0*l**3,
                 lambda l: 2.6 - 4.0*l + 9.0*l*l,
                 lambda l: -4.0 + 18.0*l),
    "custom-b": (lambda l: (l + 0.085)*2.6,
                 lambda l: 2.2 + 0.41*np.exp(-9.0*l),
                 lambda l: -3.69*np.exp(-9.0*l)),
}
FIT_NAMES = ["Spline", "White", "Cebeci-Bradshaw", "Drela"]
ALL_FITS = FIT_NAMES + ["custom-a", "custom-a2", "custom-b", "custom-b2"]


def fit_arg(name):
    """What to pass as data_fits ("2" suffix: without the slope function)."""
    if name in FIT_NAMES:
        return name
    if name.endswith("2"):
        return CUSTOM_FITS[name[:-1]][:2]
    return CUSTOM_FITS[name]


def fit_ref(name):
    """Clamped reference functions (S, H, Hp, lo, hi) of a fit for arrays."""
    if name in FIT_NAMES:
        S, Hf, Hp, lo, hi = ref_fits()[name]
    else:
        S, Hf, Hp = CUSTOM_FITS[name.rstrip("2")]
        lo, hi = -math.inf, math.inf

    def wrap(f):
        def g(lam):
            lam = np.clip(np.asarray(lam, float), lo, hi)
            return np.array([float(f(float(v))) for v in lam.ravel()]
                            ).reshape(lam.shape)
        return g
    return wrap(S), wrap(Hf), wrap(Hp), lo, hi
