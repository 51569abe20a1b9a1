"""C14: standard Big Bang expansion, horizon and conformal time against independent evaluations of the Friedmann equation."""
import warnings
import numpy as np
from hypothesis import strategies as st
from scipy import constants as sc
from core import Sub, Inconclusive
from gen import uni, pick, logu
import calib
import const as C
import setups as S

RULE = ('non-trivial: the densities admit a Big Bang and at least one Hubble parameter, horizon, conformal time or ratio was compared; '
        'distinct = distinct generated (densities, h, N)')
ASSUMPTIONS = ['a universe is generated here only if neither this harness nor primpy sees a bounce or turning point (classification is C15)',
               'conformal_time returns the pair of scipy.integrate.quad for scalars (as the tests of the repository require); its first '
               'element is taken as the value',
               'tolerance 2e-5 for conformal times (adaptive quadrature with absolute tolerance; undecided for 0<|Omega_K|<1e-7), 1e-9 or better elsewhere']

OMEGA_R_H2 = (4 * C.pi**2 / 60 * sc.k**4 / sc.hbar**3 / sc.c**2 / sc.c * C.T_CMB**4 * C.TEMP_P**4 / sc.c**2
              * (1 + 7 / 8 * C.N_EFF * (4 / 11)**(4 / 3)) * 8 * C.pi * sc.G / 3 / (1e5 / C.MPC_M)**2)


@st.composite
def density(draw, curved=None):
    sign = draw(pick(0, 1, -1)) if curved is None else curved
    OK = sign * draw(st.one_of(logu(1e-9, 0.5), logu(1e-4, 0.5)))
    return dict(OK=OK, Om=draw(st.one_of(uni(0., 1.), uni(0.1, 0.5))), h=draw(uni(0.2, 1.5)))


class Universe:
    def __init__(self, case):
        self.Om, self.OK, self.h = case['Om'], case['OK'], case['h']
        self.Or = OMEGA_R_H2 / self.h**2
        self.OL = 1 - self.Or - self.Om - self.OK
        self.H0 = self.h * 1e5 / C.MPC_M * C.T_P
        self.a0 = 1. if self.OK == 0 else 1 / (self.H0 * np.sqrt(abs(self.OK)))
        self.N0 = np.log(self.a0)
        x = np.exp(np.linspace(-40, 40, 4001))
        if np.any(self.E2(x) <= 1e-3):
            raise Inconclusive('bounce or turning point')

    def E2(self, x):
        return ((self.Or * x + self.Om) * x + self.OK) * x**2 + self.OL

    def H(self, N):
        return self.H0 * np.sqrt(self.E2(np.exp(self.N0 - np.asarray(N, float))))

    def eta(self, A, B):
        """Conformal time from A to B: Gauss-Legendre on panels of at most one e-fold."""
        n = int(abs(B - A)) + 1
        e = np.linspace(A, B, n + 1)
        x, w = np.polynomial.legendre.leggauss(24)
        m, d = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
        N = m[:, None] + d[:, None] * x
        return float(np.sum(d[:, None] * w * np.exp(-N) / self.H(N)))


def call(fn, *a, **k):
    from primpy.exceptionhandling import BigBangError, BigBangWarning
    with warnings.catch_warnings():
        warnings.simplefilter('error', BigBangWarning)
        try:
            return fn(*a, **k)
        except (BigBangError, BigBangWarning):
            raise Inconclusive('classified as bounce or recollapse')


def first(x):
    return float(np.ravel(np.asarray(x, dtype=float))[0])


# ------------------------------------------------------------------ expansion
@st.composite
def expansion_case(draw):
    c = draw(density())
    c['x'] = draw(st.lists(uni(-75., 30.), min_size=1, max_size=5))
    c['w'] = draw(uni(-0.9, 1.2))
    c['dN'] = draw(uni(0.5, 60.))
    return c


def expansion_body(case, ctx):
    import primpy.bigbang as bb
    u = Universe(case)
    h, OK, Om = u.h, u.OK, u.Om
    kw = dict(Omega_m0=Om, Omega_K0=OK, h=h)
    r = 1e-11
    # today
    ctx.close(bb.get_H0(h), u.H0, r, 0, 'H0 in Planck units')
    ctx.close(bb.get_H0(h, units='planck'), u.H0, r, 0, 'H0 in Planck units')
    ctx.close(bb.get_H0(h, units='H0'), 100 * h, r, 0, 'H0 in km/s/Mpc')
    ctx.close(bb.get_H0(h, units='SI'), 1e5 * h / C.MPC_M, r, 0, 'H0 in 1/s')
    ctx.close(bb.get_Omega_r0(h), u.Or, 1e-9, 0, 'radiation density today')
    ctx.close(bb.get_rho_crit_kg_im3(h), 3 * (1e5 * h / C.MPC_M)**2 / (8 * C.pi * sc.G), r, 0, 'critical density')
    if OK:
        ctx.close(bb.get_a0(h, OK), u.a0, r, 0, 'a0 in Planck lengths')
        ctx.close(bb.get_a0(h, OK, units='Mpc'), C.C_KMS / (100 * h) / np.sqrt(abs(OK)), r, 0, 'a0 in Mpc')
        ctx.close(bb.get_a0(h, OK, units='SI'), C.C_KMS / (100 * h) / np.sqrt(abs(OK)) * C.MPC_M, r, 0, 'a0 in m')
    else:
        for un in ('planck', 'Mpc', 'SI'):
            ctx.close(bb.get_a0(h, 0, units=un), 1, 0, 0, 'a0 of a flat universe')
    for un in ('Planck', 'si', 'mpc', 'H0' if OK else 'km', 'Mpc' if OK == 0 else 'lp'):
        if un not in ('H0', 'Mpc'):
            ctx.raises(NotImplementedError, lambda: bb.get_H0(h, units=un), 'H0 in unknown units %r' % un)
            ctx.raises(NotImplementedError, lambda: call(bb.Hubble_parameter, u.N0, units=un, **kw), 'Hubble parameter in unknown units %r' % un)
        if OK and un != 'Mpc':
            ctx.raises(NotImplementedError, lambda: bb.get_a0(h, OK, units=un), 'a0 in unknown units %r' % un)
    ctx.close(bb.get_N_BBN(h, OK), u.N0 - np.log(1e9 + 1), r, r, 'e-folds at BBN')
    ctx.close(call(bb.Hubble_parameter, u.N0, **kw), u.H0, 1e-9, 0, 'Hubble parameter today')
    ctx.close(call(bb.Hubble_parameter, u.N0, units='H0', **kw), 100 * h, 1e-9, 0, 'Hubble parameter today')
    # any time, scalars and arrays in each unit
    N = u.N0 + np.array(case['x'])
    HP = u.H(N)
    for un, f in (('planck', 1.), ('SI', 1 / C.T_P), ('H0', C.MPC_M / C.T_P / 1e3)):
        g = call(bb.Hubble_parameter, N, units=un, **kw)
        ctx.check(np.shape(g) == N.shape, 'shape of the Hubble parameter')
        ctx.close(g, HP * f, 1e-9, 0, 'Hubble parameter in units ' + un)
        ctx.close(call(bb.Hubble_parameter, float(N[0]), units=un, **kw), g[0], 1e-14, 0, 'scalar Hubble parameter')
    cHH = u.a0 / (np.exp(N) * HP)
    for un, f in (('planck', 1.), ('SI', C.L_P), ('Mpc', C.L_P / C.MPC_M)):
        g = call(bb.comoving_Hubble_horizon, N, units=un, **kw)
        ctx.check(np.shape(g) == N.shape, 'shape of the comoving Hubble horizon')
        ctx.close(g, cHH * f, 1e-9, 0, 'comoving Hubble horizon in units ' + un)
        ctx.close(call(bb.comoving_Hubble_horizon, float(N[0]), units=un, **kw), g[0], 1e-14, 0, 'scalar comoving Hubble horizon')
    ctx.close(call(bb.comoving_Hubble_horizon, N, **kw), cHH, 1e-9, 0, 'comoving Hubble horizon')
    ctx.close(call(bb.comoving_Hubble_horizon, u.N0, units='Mpc', **kw), C.C_KMS / (100 * h), 1e-9, 0, 'Hubble horizon today')
    # a stage with equation of state w: ln cHH grows by (1+3w)/2 per e-fold
    w, d = bb.get_w_delta_reh(N_end=float(N[0]), N_reh=float(N[0]) + case['dN'], log_cHH_end=float(np.log(cHH[0])),
                              log_cHH_reh=float(np.log(cHH[0])) + (1 + 3 * case['w']) / 2 * case['dN'])
    ctx.close(w, case['w'], 1e-9, 1e-9, 'equation of state between two horizons')
    ctx.close(d, case['dN'], 1e-9, 0, 'duration between two horizons')
    ctx.label('Omega_K %+d' % np.sign(OK))
    ctx.nt()


# ------------------------------------------------------------------ conformal time
@st.composite
def conformal_case(draw):
    c = draw(density())
    c['x'] = sorted(draw(st.lists(uni(-75., 40.), min_size=3, max_size=6, unique=True)))
    c['start'] = draw(uni(-90., -5.))
    c['kind'] = draw(pick('float', 'int', '2d'))
    return c


def conformal_body(case, ctx):
    import primpy.bigbang as bb
    u = Universe(case)
    kw = dict(Omega_m0=u.Om, Omega_K0=u.OK, h=u.h)
    A = float(u.N0 + case['start'])
    N = u.N0 + np.array(case['x'])
    if 0 < abs(u.OK) < 1e-7:
        raise Inconclusive('conformal times as small as the absolute tolerance of the quadrature')
    r = 2e-5
    want = np.array([u.eta(A, n) for n in N])
    tol = max(1e-7 * abs(u.eta(A, u.N0)), 1.5e-8)   # adaptive quadrature is accurate relative to the whole, or absolutely
    got = call(bb.conformal_time, A, N, **kw)
    ctx.check(np.shape(got) == N.shape, 'conformal times have shape %s instead of %s' % (np.shape(got), N.shape))
    ctx.close(got, want, r, tol, 'conformal time')
    m = np.diff(want) > 20 * (r * np.abs(want[1:]) + tol)
    ctx.check(np.all(np.diff(got)[m] > 0), 'conformal time does not increase')
    for i in range(len(N)):
        ctx.close(first(call(bb.conformal_time, A, float(N[i]), **kw)), got[i], 1e-12, 0, 'scalar conformal time')
    # additivity and reversal
    B = float(N[0])
    ctx.close(first(call(bb.conformal_time, A, B, **kw)) + first(call(bb.conformal_time, B, float(N[-1]), **kw)), got[-1], r, tol,
              'conformal time of two successive intervals')
    ctx.close(first(call(bb.conformal_time, B, A, **kw)), -got[0], r, tol, 'conformal time backwards')
    ctx.close(first(call(bb.conformal_time, B, B, **kw)), 0, 0, 0, 'conformal time of no interval')
    k = case['kind']
    if k == 'int':
        n = int(np.floor(N[-1]))
        ctx.close(first(call(bb.conformal_time, A, n, **kw)), u.eta(A, n), r, tol, 'conformal time at an integer')
    elif k == '2d':
        n = N[:2 * (len(N) // 2)].reshape(2, -1)
        g = call(bb.conformal_time, A, n, **kw)
        ctx.check(np.shape(g) == n.shape, 'conformal times have shape %s instead of %s' % (np.shape(g), n.shape))
        ctx.close(g, want[:n.size].reshape(n.shape), r, tol, 'conformal times of a two-dimensional array')
    ctx.label('Omega_K %+d' % np.sign(u.OK), k)
    ctx.nt()


# ------------------------------------------------------------------ ratio
@st.composite
def ratio_case(draw):
    c = draw(calib.long_background(Nmin=15., Nmax=70., features=False, ics=('IS', 'IS', 'SR')))
    c['Om'] = draw(uni(0.05, 0.6))
    c['h'] = draw(uni(0.4, 1.))
    c['ratio_OK'] = draw(logu(1e-6, 0.2))
    c['eta_i'] = draw(uni(-3., 3.))
    c['u'] = draw(uni(0.3, 0.9))
    c['back'] = draw(st.booleans())
    return c


def ratio_body(case, ctx):
    import primpy.bigbang as bb
    from primpy.solver import solve
    from primpy.events import UntilNEvent
    from primpy.exceptionhandling import InsufficientInflationError
    c, eq, sol = calib.solve_background(case, track_eta=True)
    K = c['K']
    OK = -K * case['ratio_OK']
    try:
        if K:
            calib.quiet(sol.calibrate_scale_factor, Omega_K0=OK, h=c['h'])
        else:
            calib.quiet(sol.calibrate_scale_factor, N_star=case['u'] * sol.N_tot)
    except (TypeError, ValueError, IndexError, InsufficientInflationError):
        raise Inconclusive('approximate spectra fail at the pivot')
    u = Universe(dict(Om=case['Om'], OK=OK if K else 0., h=c['h']))
    N_end = float(sol.N_end)
    ref = S.Reference(c)
    if ref.N_end is None:
        raise Inconclusive('reference without end')
    before = float(ref.at(ref.N_end)['eta']) - c['eta_i']
    back = None
    if case['back'] and case['form'] == 't' and c['ic'] == 'IS':
        eqb, icb = S.make(c, 't', track_eta=True, x_end=1e-3 * c['t_i'])
        back = solve(icb, events=[UntilNEvent(eqb, c['N_i'] - 3.)])
        if back._N[-1] > c['N_i'] or not np.isfinite(back.eta[-1]):
            raise Inconclusive('no backward solution')
        before = before + c['eta_i'] - float(back.eta[-1])
    after = u.eta(N_end, u.N0)
    if K == 0:
        before *= np.exp(float(sol._N_end) - N_end)     # from the uncalibrated to the calibrated scale factor
    got = call(bb.conformal_time_ratio, Omega_m0=case['Om'], Omega_K0=u.OK, h=c['h'], b_forward=sol,
               **({'b_backward': back} if back is not None else {}))
    ctx.close(first(got), before / after, 2e-5, 0, 'ratio of conformal times')
    ctx.label('K=%d' % K, 'form ' + case['form'], 'with backward solution' if back is not None else 'forward only')
    ctx.nt()


SUBS = [Sub('expansion', expansion_case, expansion_body, 4000, 200000, shards=(2, 8)),
        Sub('conformal', conformal_case, conformal_body, 1200, 60000, shards=(4, 8)),
        Sub('ratio', ratio_case, ratio_body, 200, 12000, shards=(2, 8))]
