"""Solved backgrounds for the checks of the calibration and everything behind it."""
import warnings
import numpy as np
from hypothesis import strategies as st
from core import Inconclusive
from gen import uni, pick, logu
import const as C
import pots
import setups as S


@st.composite
def long_background(draw, Ks=(0, 0, 1, -1), Nmin=8., Nmax=95., features=True, ics=('SR', 'IS'), lam=None, classes=None):
    c = draw(S.background(classes=classes, Ks=Ks, Nmin=Nmin, Nmax=Nmax, features=features, ics=ics, Ok=(1e-3, 0.9),
                          lam=lam if lam is not None else logu(3e-4, 3e-2)))
    c['form'] = draw(pick('t', 'N'))
    return c


def end_events(eq, case):
    from primpy.events import UntilNEvent
    return S.end_events(eq) + [UntilNEvent(eq, case['N_i'] + 200.)]


def solve_background(case, dense=False, events=None, rtol=1e-10, **kw):
    """(finished case, equations, solution) of a background which begins and ends inflating, or Inconclusive."""
    c = S.finish(case, case['form'])
    eq, ic, sol = S.run(c, case['form'], events=events or (lambda eq: end_events(eq, c)), rtol=rtol, **(dict(dense_output=True) if dense else {}), **kw)
    if not (np.isfinite(sol.N_tot) and sol.status == 1):
        raise Inconclusive('no inflation from beginning to end')
    if case['form'] == 'N' and np.any(np.diff(np.sign(sol.dphidN**2 - 6))):
        raise Inconclusive('e-fold form is singular where dphidN^2 crosses 6')
    if case['form'] == 'N' and np.min(np.abs(1 - sol.dphidN**2 / 6)) < 1e-5:
        raise Inconclusive('e-fold form loses H where the potential vanishes (H^2 = 0/0)')
    if np.sum(sol.inflation_mask) < 12:
        raise Inconclusive('too few points')
    return c, eq, sol


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*a, **k)


def pick_h_ok(draw, K):
    return draw(uni(0.3, 1.2)), -K * draw(logu(1e-5, 0.3))


class HubbleRadius:
    """ln(aH) along an independent integration of the same background."""

    def __init__(self, c, N_end):
        self.ref = S.Reference(c, until_end=False, N_end=N_end + 0.05)
        self.K = c['K']

    def __call__(self, N):
        r = self.ref.at(N)
        return N + np.log(r['H'])

    def linear_error(self, nodes, N):
        """Error of a linear interpolation of ln(aH) between the nodes around N."""
        j = int(np.clip(np.searchsorted(nodes, N) - 1, 0, len(nodes) - 2))
        lo, hi = nodes[j], nodes[j + 1]
        u = (N - lo) / (hi - lo)
        return abs((1 - u) * self(lo) + u * self(hi) - self(N))
