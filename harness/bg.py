"""Independent reference for the background: power-series solution of Friedmann + Klein-Gordon, and integrations."""
import mpmath as mp
import numpy as np
import pots

mpf = mp.mpf


# ---- series algebra (lists of Taylor coefficients)
def s_exp(a):
    out = [mp.exp(a[0])]
    for k in range(1, len(a)):
        out.append(sum(j * a[j] * out[k - j] for j in range(1, k + 1)) / k)
    return out


def s_sqrt(a):
    out = [mp.sqrt(a[0])]
    for k in range(1, len(a)):
        out.append((a[k] - sum(out[j] * out[k - j] for j in range(1, k))) / (2 * out[0]))
    return out


def s_compose(outer, delta):
    """sum_j outer[j]*delta^j, delta[0] == 0."""
    n = len(delta)
    res = [mpf(0)] * n
    power = [mpf(1)] + [mpf(0)] * (n - 1)
    for j in range(min(len(outer), n)):
        res = [r + outer[j] * p for r, p in zip(res, power)]
        power = pots.s_mul(power, delta)
    return res


def jet_t(Vt, phi, dphi, N, K, order):
    """Taylor coefficients in cosmic time of (phi, N, H) through a state.

    Vt: Taylor coefficients of V at phi. Returns phi (order+1), N (order), H (order-1 terms up to t^{order-1}).
    """
    ph = [mpf(phi), mpf(dphi)]
    NN = [mpf(N)]
    for k in range(1, order + 1):
        m = len(NN)                     # N known to t^{m-1}
        d = [mpf(0)] + ph[1:]
        d = (d + [mpf(0)] * m)[:m]
        V = s_compose(Vt, d)
        dV = s_compose(pots.s_der(Vt), d)
        p1 = pots.s_der(ph)             # dphi/dt to t^{m-1}
        p1 = (p1 + [mpf(0)] * m)[:m]
        kin = pots.s_mul(p1, p1)
        E = s_exp([-2 * c for c in NN])
        H2 = [(kin[i] / 2 + V[i]) / 3 - K * E[i] for i in range(m)]
        H = s_sqrt(H2)
        NN.append(H[m - 1] / m)
        rhs = [-3 * a - b for a, b in zip(pots.s_mul(H, p1), dV)]
        ph.append(rhs[m - 1] / (m * (m + 1)))
    return ph, NN, H


def derivs_of(series):
    return [c * mp.factorial(i) for i, c in enumerate(series)]


def d_dN(q, H):
    """Series in t of dq/dN."""
    return pots.s_div(pots.s_der(q), H)
