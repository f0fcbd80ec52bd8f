"""Independent model of Head's method."""
import math

import numpy as np
from scipy.integrate import solve_ivp


def c_f(re, H):
    return 0.246*10**(-0.678*H)*re**-0.268


def H1(H):
    if H <= 1.6:
        return 3.3 + 0.8234*(H - 1.1)**-1.287
    return 3.32254659218600974 + 1.5501*(H - 0.6778)**-3.064


def H1p(H):
    if H <= 1.6:
        return -1.287*0.8234*(H - 1.1)**-2.287
    return -3.064*1.5501*(H - 0.6778)**-4.064


def entrainment(h1):
    return 0.0306*(h1 - 3)**-0.6169


def slopes(u, du, nu, th, H):
    """d(theta)/dx and dH/dx."""
    thp = 0.5*c_f(u*th/nu, H) - th*(2 + H)*du/u
    # d(u*theta*H1)/dx = u*E
    h1 = H1(H)
    h1p = (u*entrainment(h1) - du*th*h1 - u*thp*h1)/(u*th)
    return thp, h1p/H1p(H)


def reference(u, du, nu, x0, x1, th0, H0, H_stop=3.3):
    """Dense (theta, H); stops short when H gets out of the valid range."""
    def rhs(x, y):
        th, H = y
        return slopes(float(u(x)), float(du(x)), nu, th, max(H, 1.105))

    def high(x, y):
        return H_stop - y[1]

    def low(x, y):
        return y[1] - 1.12
    high.terminal = low.terminal = True
    r = solve_ivp(rhs, (x0, x1), [th0, H0], method="DOP853", rtol=1e-10,
                  atol=[1e-14*th0, 1e-12], dense_output=True,
                  events=[high, low])
    if not r.success:
        return None
    return r.sol, r.t[-1], len(r.t_events[1]) > 0
