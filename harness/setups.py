"""Shared generators for background set-ups, their primpy solution, and an independent reference integration."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
from scipy.integrate import solve_ivp
from core import Inconclusive
from gen import uni, logu, pick
import pots

SMOOTH = ['MonomialPotential', 'LinearPotential', 'QuadraticPotential', 'CubicPotential', 'QuarticPotential',
          'StarobinskyPotential', 'NaturalPotential', 'DoubleWell2Potential', 'DoubleWell4Potential',
          'TmodelPotential', 'RadionGauge2Potential', 'RadionGaugePotential', 'DoubleWellPotential']


@st.composite
def model(draw, classes=None, features=False, lam=None):
    """A potential which supports tens of e-folds of inflation."""
    cls = draw(st.sampled_from((classes or SMOOTH) + (pots.FEATURES if features else [])))
    par = {}
    if cls == 'MonomialPotential':
        par['p'] = draw(st.one_of(pick(2 / 3, 1, 4 / 3, 2), uni(0.5, 4.)))
    elif cls == 'NaturalPotential':
        par['phi0'] = draw(logu(15., 100.))
    elif cls.startswith('DoubleWell'):
        par['phi0'] = draw(logu(14., 60.))
        if cls == 'DoubleWellPotential':
            par['p'] = draw(st.one_of(pick(2, 3, 4), uni(2., 4.)))
    elif cls == 'TmodelPotential':
        par['alpha'] = draw(logu(0.1, 20.))
        par['p'] = draw(st.one_of(pick(1, 2), uni(0.5, 3.)))
    elif cls.startswith('RadionGauge'):
        par['alpha'] = draw(logu(0.1, 20.))
        if cls == 'RadionGaugePotential':
            par['p'] = draw(st.one_of(pick(1, 2, 3), uni(1., 4.)))
    elif cls in pots.FEATURES:
        par['phi_feature'] = draw(uni(3., 5.5))
        par['a_feature'] = draw(st.one_of(logu(1e-4, 0.02), logu(1e-4, 0.02).map(lambda v: -v)))
        par['b_feature'] = draw(logu(0.05, 1.))
    return {'cls': cls, 'par': par, 'Lambda': draw(lam if lam is not None else logu(1e-3, 1.))}


def start_field(spec, N):
    """Field value roughly N e-folds before the end, kept off the very top of a hill."""
    pot = pots.build({'cls': spec['cls'] if spec['cls'] not in pots.FEATURES else 'StarobinskyPotential',
                      'par': spec['par'] if spec['cls'] not in pots.FEATURES else {}, 'Lambda': 1.})
    if 'phi0' in spec['par']:
        top = spec['par']['phi0']
        lim = top * (1 - 0.02)
        if pot.sr_phi2N(lim) < N:
            return float('%.10g' % lim)
    return float('%.10g' % pot.sr_N2phi(N))


@st.composite
def background(draw, classes=None, features=True, Ks=(0, 0, 1, -1), lam=None, ics=('SR', 'IS'), Nmin=3., Nmax=75.,
               Ok=(1e-4, 0.9)):
    spec = draw(model(classes, features, lam))
    K = draw(st.sampled_from(list(Ks)))
    case = {'spec': spec, 'K': K, 'ic': draw(st.sampled_from(list(ics))), 'Nsr': draw(uni(Nmin, Nmax)),
            't_i': draw(pick(1., 1e3, 7.5e4)), 'eta_i': draw(uni(-2., 2.))}
    if case['ic'] == 'KD':
        case['q'], case['sgn'] = draw(logu(0.6, 1e4)), draw(pick(-1, -1, 1))
    if K == 0:
        case['N_i'] = draw(uni(-5., 18.))
    else:
        ok = draw(logu(Ok[0], Ok[1] if K == -1 else 20 * Ok[1]))
        case['Omega_Ki'] = ok if K == -1 else -ok
        case['give'] = draw(pick('N_i', 'Omega_Ki'))
    return case


def finish(case, form=None):
    """Derived starting values: phi_i, N_i, H_i, dphidt_i.

    The slow-roll velocity is set from the potential energy only, -V'/(3 H_i) in cosmic time and -V'/(3 H_i^2) in
    e-folds with H_i^2 = V/3 - K/a^2; with form='N' the state is that of the e-fold equations (they differ by the
    slow-roll suppressed kinetic energy in H), otherwise that of the cosmic-time equations.
    """
    c = dict(case)
    spec = case['spec']
    c['phi_i'] = start_field(spec, case['Nsr']) if 'phi_i' not in case else case['phi_i']
    t = pots.taylor(pots.formula(spec), c['phi_i'], 1)
    V, dV = float(t[0]), float(t[1])
    rho3 = {'SR': V / 3, 'IS': V / 2}.get(case['ic']) or V * (1 + case['q']) / 3
    if case['K'] != 0 and 'Omega_Ki' in case:
        # rho/3 = (1 - Omega_K) H^2, -K/(aH)^2 = Omega_K
        H2 = rho3 / (1 - case['Omega_Ki'])
        c['N_i'] = float(0.5 * np.log(-case['K'] / (case['Omega_Ki'] * H2)))
    H2 = rho3 - case['K'] * np.exp(-2 * c['N_i'])
    if case['ic'] == 'SR' and (dV / (3 * H2))**2 > 1:
        raise Inconclusive('not in slow roll')
    c['H_i'] = float(np.sqrt(H2))
    c['dphidt_i'] = float(-dV / (3 * c['H_i']) if case['ic'] == 'SR' else -np.sqrt(V))
    if case['ic'] == 'KD':
        c['dphidt_i'] = float(case['sgn'] * np.sqrt(2 * case['q'] * V))
    if form == 'N' and case['ic'] == 'SR':
        dphidN = -dV / (3 * H2)
        c['dphidt_i'] = float(dphidN * np.sqrt((2 * V - 6 * case['K'] * np.exp(-2 * c['N_i'])) / (6 - dphidN**2)))
    return c


def make(case, form, pot=None, track_eta=False, track_time=False, x_end=None, verbose=False, give=None):
    """primpy equations and initial conditions. case must be finished."""
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.initialconditions import SlowRollIC, InflationStartIC
    pot = pot if pot is not None else pots.build(case['spec'])
    loud = {'verbose': verbose} if verbose or case['K'] else {}   # quiet by default
    if form == 't':
        eq = InflationEquationsT(K=case['K'], potential=pot, track_eta=track_eta, **loud)
    else:
        eq = InflationEquationsN(K=case['K'], potential=pot, track_time=track_time, track_eta=track_eta, **loud)
    if case['ic'] == 'KD':
        return eq, state_ic(eq, case, 1e300 if x_end is None else x_end)
    kw = {'phi_i': case['phi_i'], 't_i': case['t_i'] if form == 't' or track_time else None,
          'eta_i': case['eta_i'] if track_eta else None}
    if (give or case.get('give')) == 'Omega_Ki' and case['K'] != 0:
        kw['Omega_Ki'] = case['Omega_Ki']
    else:
        kw['N_i'] = case['N_i']
    if x_end is not None:
        kw['x_end'] = x_end
    ic = (SlowRollIC if case['ic'] == 'SR' else InflationStartIC)(eq, **kw)
    return eq, ic


def state_ic(eq, case, x_end):
    """Initial conditions at an arbitrary state (e.g. kinetic domination)."""
    from primpy.initialconditions import InitialConditions

    class StateIC(InitialConditions):
        def __init__(self):
            super().__init__(eq)
            self.x_ini = case['t_i'] if eq.independent_variable == 't' else case['N_i']
            self.x_end = x_end

        def __call__(self, y0, **kw):
            v = {'phi': case['phi_i'], 'dphidt': case['dphidt_i'], '_N': case['N_i'],
                 'dphidN': case['dphidt_i'] / case['H_i'], 't': case['t_i'], 'eta': case['eta_i']}
            for n, i in eq.idx.items():
                y0[i] = v[n]
    return StateIC()


def end_events(eq):
    from primpy.events import InflationEvent, CollapseEvent
    return [InflationEvent(eq, direction=+1, terminal=False), InflationEvent(eq, direction=-1, terminal=True),
            CollapseEvent(eq)]


def run(case, form, events=end_events, **kw):
    from primpy.solver import solve
    solver_kw = {k: kw.pop(k) for k in list(kw) if k in ('method', 't_eval', 'dense_output', 'rtol', 'atol', 'max_step')}
    eq, ic = make(case, form, **kw)
    sol = solve(ic, events=events(eq), **solver_kw)
    return eq, ic, sol


class Reference:
    """Background integrated independently in e-folds: y = (phi, dphi/dt, t, eta)."""

    def __init__(self, case, N_end=None, backward=None, pot=None, until_end=True, rtol=1e-11):
        self.case, self.K = case, case['K']
        self.pot = pot if pot is not None else pots.build(case['spec'])
        y0 = [case['phi_i'], case['dphidt_i'], case['t_i'], case['eta_i']]
        N0 = case['N_i']
        sc = self.pot.Lambda**2
        V = self.pot.V

        def rhs(N, y):
            H = np.sqrt(max((y[1]**2 / 2 + V(y[0])) / 3 - self.K * np.exp(-2 * N), 1e-9 * abs(V(y[0])))) if self.K == 1 else np.sqrt((y[1]**2 / 2 + V(y[0])) / 3 - self.K * np.exp(-2 * N))
            return [y[1] / H, -3 * y[1] - self.pot.dV(y[0]) / H, 1 / H, np.exp(-N) / H]

        def infl(N, y):
            return (V(y[0]) - y[1]**2) / sc**2
        infl.direction = -1
        infl.terminal = bool(until_end)

        def coll(N, y):
            rho3 = (y[1]**2 / 2 + V(y[0])) / 3
            return (rho3 - self.K * np.exp(-2 * N)) / rho3 - 1e-7
        coll.terminal = True
        atol = [1e-13, 1e-13 * sc, 1e-13 / sc, 1e-13 * np.exp(-N0) / sc]
        end = N_end if N_end is not None else N0 + 200
        self.sol = solve_ivp(rhs, (N0, end), y0, method='DOP853', rtol=rtol, atol=atol, dense_output=True,
                             events=[infl, coll], max_step=0.5)
        self.sol.t_events = self.sol.t_events or [np.array([])] * 2
        if self.sol.status < 0:
            y, N = self.sol.y[:, -1], self.sol.t[-1]
            rho3 = (y[1]**2 / 2 + V(y[0])) / 3
            if not (self.K == 1 and np.isfinite(rho3) and rho3 - np.exp(-2 * N) < 1e-4 * rho3):
                raise Inconclusive('reference integration failed')
        self.collapsed = self.sol.t_events[1].size > 0 or self.sol.status < 0
        self.N_end = float(self.sol.t_events[0][0]) if self.sol.t_events[0].size else None
        self.N_last = float(self.sol.t[-1])

    def at(self, N):
        N = np.asarray(N, dtype=float)
        phi, dphi, t, eta = self.sol.sol(N)
        H2 = (dphi**2 / 2 + self.pot.V(phi)) / 3 - self.K * np.exp(-2 * N)
        return dict(phi=phi, dphidt=dphi, t=t, eta=eta, H=np.sqrt(np.abs(H2)), H2=H2, N=N)
