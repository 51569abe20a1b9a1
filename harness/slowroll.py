"""The published slow-roll expansions of the primordial spectra, as functions of the Hubble-flow parameters.

e1 = -dlnH/dN, e2 = dln|e1|/dN, e3 = dln|e2|/dN, e4 = dln|e3|/dN at the moment where k = aH. Everything here is written
in terms of these; the relation to the quantities used by the various papers is part of the reference.
"""
import numpy as np
from numpy import pi
from scipy.special import zeta

Z3 = zeta(3)
AL = 2 - np.log(2) - np.euler_gamma          # Stewart & Gong's alpha = -C of Leach et al.


def deltas(e1, e2, e3, e4):
    """delta_n = phi^(n+1)/(H^n dphi/dt) from d(delta_n)/dN = delta_{n+1} + n e1 delta_n - delta_1 delta_n."""
    d1 = e2 / 2 - e1
    d1p = e2 * e3 / 2 - e1 * e2
    d2 = d1p - e1 * d1 + d1**2
    d1pp = (e2 * e3 * (e3 + e4)) / 2 - e1 * e2 * (e2 + e3)
    d2p = d1pp - e1 * e2 * d1 - e1 * d1p + 2 * d1 * d1p
    d3 = d2p - 2 * e1 * d2 + d1 * d2
    return d1, d2, d3


def leading(H, e1):
    return H**2 / (8 * pi**2 * e1), 2 * (H / pi)**2


def cgs(H, e1, e2, e3, e4, order):
    """:func:`cgs_state` in terms of the Hubble-flow parameters (flat universe)."""
    return cgs_state(H, e1, *deltas(e1, e2, e3, e4), e1 * e2, e1 * e2 * (e2 + e3) - e1**2 * e2, order)


def cgs_state(H, e1, d1, d2, d3, g2, g3, order):
    """Choe, Gong & Stewart (2004) and Gong (2004): spectra at the scale k = aH; g2, g3: (1/H) de1/dt, (1/H^2) d2e1/dt2."""
    Ps, Pt = leading(H, e1)
    if order == 0:
        return Ps, Pt
    a = AL - e1
    s = 1 + (4 * a - 2) * e1 + 2 * a * d1 + (pi**2 / 12 - a**2) * d2 + (a**3 / 3 - pi**2 * a / 12 + 4 / 3 - 2 * Z3 / 3) * d3
    t = 1 + 2 * (a - 1) * e1 + (2 * a - a**2 - 2 + pi**2 / 12) * g2 \
        + (a**3 / 3 - a**2 + (2 - pi**2 / 12) * a + pi**2 / 12 - 2 / 3 - 2 * Z3 / 3) * g3
    if order >= 2:
        s = s + (4 * a**2 - 19 + 7 * pi**2 / 3) * e1**2 + (3 * a**2 + 2 * a - 20 + 29 * pi**2 / 12) * e1 * d1 \
            + (3 * a**2 - 4 + 5 * pi**2 / 12) * d1**2 \
            + (-5 * a**3 / 3 - 2 * a**2 + 20 * a - 9 * pi**2 * a / 4 + 16 / 3 + pi**2 / 6 - 14 * Z3 / 3) * e1 * d2 \
            + (-3 * a**3 + 8 * a - 7 * pi**2 * a / 12 - 4 + 2 * Z3) * d1 * d2
        t = t + (2 * a**2 - 2 * a - 3 + pi**2 / 2) * e1**2 \
            + (-5 * a**3 / 3 + 2 * a**2 + (8 - 11 * pi**2 / 12) * a + 7 * pi**2 / 6 - 26 / 3 - 2 * Z3 / 3) * e1 * g2
    if order >= 3:
        s = s + (4 * a**2 + 8 * a + 16 + 5 * pi**2 - 48 * Z3) * e1**3 \
            + (-5 * a**3 / 3 + 4 * a**2 + 32 * a - 9 * pi**2 * a / 4 + 88 / 3 + 23 * pi**2 / 3 - 230 * Z3 / 3) * e1**2 * d1 \
            + (3 * a**3 + 4 * a**2 - 24 * a + 13 * pi**2 * a / 4 + 16 + 7 * pi**2 / 3 - 30 * Z3) * e1 * d1**2 \
            + (4 * a**3 - 16 * a + 5 * pi**2 * a / 3 + 8 - 6 * Z3) * d1**3
        t = t + (4 * a**3 / 3 - 8 * a + pi**2 * a + 16 / 3 - 14 * Z3 / 3) * e1**3
    return Ps * s, Pt * t


def llms(H, e1, e2, e3, x):
    """Leach, Liddle, Martin & Schwarz (2002): ln P expanded around the pivot scale, x = ln(k/k*)."""
    C = -AL
    Ps, Pt = leading(H, e1)
    bs = -2 * (C + 1) * e1 - C * e2 + (-2 * C + pi**2 / 2 - 7) * e1**2 + (-C**2 - 3 * C + 7 * pi**2 / 12 - 7) * e1 * e2 \
        + (pi**2 / 8 - 1) * e2**2 + (-C**2 / 2 + pi**2 / 24) * e2 * e3
    bt = -2 * (C + 1) * e1 + (-2 * C + pi**2 / 2 - 7) * e1**2 + (-C**2 - 2 * C + pi**2 / 12 - 2) * e1 * e2
    s1 = -2 * e1 - e2 - 2 * e1**2 - (2 * C + 3) * e1 * e2 - C * e2 * e3
    t1 = -2 * e1 - 2 * e1**2 - 2 * (C + 1) * e1 * e2
    s2 = -2 * e1 * e2 - e2 * e3
    t2 = -2 * e1 * e2
    return np.log(Ps) + bs + s1 * x + s2 / 2 * x**2, np.log(Pt) + bt + t1 * x + t2 / 2 * x**2


def ste(H, e1, e2, e3):
    """Schwarz & Terrero-Escalante (2004): spectra at the scale k = aH, second order."""
    C = -AL
    Ps, Pt = leading(H, e1)
    s = 1 - 2 * (C + 1) * e1 - C * e2 + (2 * C**2 + 2 * C + pi**2 / 2 - 5) * e1**2 + (C**2 / 2 + pi**2 / 8 - 1) * e2**2 \
        + (C**2 - C + 7 * pi**2 / 12 - 7) * e1 * e2 + (-C**2 / 2 + pi**2 / 24) * e2 * e3
    t = 1 - 2 * (C + 1) * e1 + (2 * C**2 + 2 * C + pi**2 / 2 - 5) * e1**2 + (-C**2 - 2 * C + pi**2 / 12 - 2) * e1 * e2
    return Ps * s, Pt * t


def arbds(H, e1, e2, e3, x, order, e4=0.):
    """Auclair & Ringeval (2022), Ballardini, Davoli & Sirletti (2025): P expanded in powers of x = ln(k/k*).

    The parameters are those at the time when -k*eta = 1 (eta: conformal time until the end), see :func:`pivot_delay`.
    """
    a, Z = AL, Z3
    p2 = pi**2
    Ps, Pt = leading(H, e1)
    s = [1 - 2 * (1 - a) * e1 + a * e2, -2 * e1 - e2, 0., 0.]
    t = [1 - 2 * (1 - a) * e1, -2 * e1, 0., 0.]
    if order >= 2:
        s[0] += (2 * a**2 - 2 * a - 3 + p2 / 2) * e1**2 + (a**2 + a - 6 + 7 * p2 / 12) * e1 * e2 \
            + (a**2 / 2 - 1 + p2 / 8) * e2**2 + (p2 / 24 - a**2 / 2) * e2 * e3
        s[1] += (2 - 4 * a) * e1**2 - (1 + 2 * a) * e1 * e2 - a * e2**2 + a * e2 * e3
        s[2] += 2 * e1**2 + e1 * e2 + e2**2 / 2 - e2 * e3 / 2
        t[0] += (2 * a**2 - 2 * a - 3 + p2 / 2) * e1**2 + (2 * a - a**2 - 2 + p2 / 12) * e1 * e2
        t[1] += (2 - 4 * a) * e1**2 - 2 * (1 - a) * e1 * e2
        t[2] += 2 * e1**2 - e1 * e2
    if order >= 3:
        q = 4 * a**3 + 3 * a * p2 - 24 * a + 16 - 14 * Z
        c = 8 * e1**3 + e2**3
        w = e2 * e3**2 + e2 * e3 * e4
        s[0] += q / 24 * c + (36 * a**2 - 72 * a + 8 * a * p2 + 13 * p2 - 84 * Z) / 12 * e1**2 * e2 \
            + (8 * a**3 + 12 * a**2 - 24 * a + 6 * a * p2 + 15 * p2 - 16 - 100 * Z) / 24 * e1 * e2**2 \
            + (4 * a**3 - a * p2 + 16 - 8 * Z) / 24 * w + (48 * a - 12 * a**3 - 5 * a * p2) / 24 * e2**2 * e3 \
            + (72 * a - 8 * a**3 - 12 * a**2 - 6 * a * p2 + p2 - 8 - 8 * Z) / 12 * e1 * e2 * e3
        s[1] += (8 - 4 * a**2 - p2) / 8 * c + (6 - 6 * a - 2 * p2 / 3) * e1**2 * e2 \
            + (4 - 4 * a - 4 * a**2 - p2) / 4 * e1 * e2**2 + (4 * a**2 + 4 * a - 12 + p2) / 2 * e1 * e2 * e3 \
            + (p2 - 12 * a**2) / 24 * w + (36 * a**2 - 48 + 5 * p2) / 24 * e2**2 * e3
        s[2] += 3 * e1**2 * e2 + (1 + 2 * a) / 2 * (e1 * e2**2 - 2 * e1 * e2 * e3) + a / 2 * (c - 3 * e2**2 * e3 + w)
        s[3] += (4 * e1 * e2 * e3 - 2 * e1 * e2**2 - c + 3 * e2**2 * e3 - w) / 6
        v = e1 * e2**2 + e1 * e2 * e3
        t[0] += q / 3 * e1**3 + (36 * a**2 - 24 * a**3 + 72 * a - 96 + 13 * p2 - 10 * a * p2) / 12 * e1**2 * e2 \
            + (4 * a**3 - 12 * a**2 + 24 * a - 8 + p2 - a * p2 - 8 * Z) / 12 * v
        t[1] += (8 - 4 * a**2 - p2) * e1**3 + (6 * a**2 - 6 * a - 6 + 5 * p2 / 6) * e1**2 * e2 + (2 * a - a**2 - 2 + p2 / 12) * v
        t[2] += 4 * a * e1**3 + (3 - 6 * a) * e1**2 * e2 - (1 - a) * v
        t[3] += (6 * e1**2 * e2 - 4 * e1**3 - v) / 3
    x = np.asarray(x, dtype=float)
    return (Ps * (s[0] + x * (s[1] + x * (s[2] + x * s[3]))), Pt * (t[0] + x * (t[1] + x * (t[2] + x * t[3]))))


def pivot_delay(e1, e2):
    """E-folds from k = aH until -k*eta = 1, from d(-aH eta)/dN = (1-e1)(-aH eta) - 1."""
    return e1 + 3 / 2 * e1**2 + e1 * e2
