"""Independent integrations of the perturbation modes."""
import numpy as np
from scipy.integrate import solve_ivp
from core import Inconclusive
import setups as S

pi = np.pi


class FlatSlowRoll:
    """Exact primordial spectra of a flat slow-roll background: comoving curvature R and tensor h in e-folds.

    R'' + (3 - e1 + e2) R' + (k/aH)^2 R = 0,  h'' + (3 - e1) h' + (k/aH)^2 h = 0, adiabatic vacuum well inside the horizon.
    """
    START, AFTER = 100., 9.

    def __init__(self, c, N_end):
        self.ref = S.Reference(c, until_end=False, N_end=N_end + 0.05, rtol=1e-12)
        self.pot = self.ref.pot

    def aH(self, N):
        return float(np.exp(N) * self.ref.at(N)['H'])

    def _flow(self, phi, p):
        V, dV, d2V = self.pot.V(phi), self.pot.dV(phi), self.pot.d2V(phi)
        e1 = p * p / 2
        H2 = V / (3 - e1)
        u = dV / H2
        pp = -(3 - e1) * p - u
        e2 = 2 * pp / p
        ppp = -(3 - e1) * pp + e1 * e2 * p - (d2V * p / H2 + 2 * e1 * u)
        e23 = 2 * (ppp / p - (pp / p)**2)        # e2*e3
        return H2, e1, e2, e23

    def flow(self, N):
        r = self.ref.at(N)
        H2, e1, e2, e23 = self._flow(float(r['phi']), float(r['dphidt'] / r['H']))
        return dict(H=np.sqrt(H2), e1=e1, e2=e2, e3=e23 / e2 if e2 else 0., e23=e23)

    def spectra(self, N):
        """(P_s, P_t) of the scale which crosses the horizon at N."""
        k = self.aH(N)
        Ns = N - np.log(self.START)
        r = self.ref.at(Ns)
        phi, p = float(r['phi']), float(r['dphidt'] / r['H'])
        H2, e1, e2, e23 = self._flow(phi, p)
        y = [phi, p]
        aH = np.exp(Ns) * np.sqrt(H2)
        for zz, dlz, z in ((2 - e1 + 1.5 * e2 + e2**2 / 4 - e1 * e2 / 2 + e23 / 2, 1 + e2 / 2, np.exp(Ns) * np.sqrt(2 * e1)),
                           (2 - e1, 1., np.exp(Ns) / 2)):
            W2 = k**2 - zz * aH**2
            W = np.sqrt(W2)
            dlW = -zz * aH**2 * (1 - e1) / W2
            v = 1 / np.sqrt(2 * W)
            dv = v * (-1j * W / aH - dlW / 2)
            R = v / z
            dR = dv / z - dlz * R
            y += [R.real, R.imag, dR.real, dR.imag]

        def rhs(n, y):
            H2, e1, e2, _ = self._flow(y[0], y[1])
            q = k * k * np.exp(-2 * n) / H2
            f, g = 3 - e1 + e2, 3 - e1
            return [y[1], y[1] * e2 / 2, y[4], y[5], -f * y[4] - q * y[2], -f * y[5] - q * y[3],
                    y[8], y[9], -g * y[8] - q * y[6], -g * y[9] - q * y[7]]
        a = abs(y[2]) + abs(y[3])
        b = abs(y[6]) + abs(y[7])
        s = solve_ivp(rhs, (Ns, N + self.AFTER), y, method='DOP853', rtol=1e-9,
                      atol=[1e-11, 1e-11] + [1e-12 * a] * 4 + [1e-12 * b] * 4)
        if s.status != 0:
            raise Inconclusive('mode integration failed')
        f = s.y[:, -1]
        return k**3 / (2 * pi**2) * (f[2]**2 + f[3]**2), k**3 / pi**2 * (f[6]**2 + f[7]**2)
