"""C17: the Cobaya slow-roll theories against directly solved and calibrated models."""
import logging
import math
import warnings
import numpy as np
from hypothesis import strategies as st
from core import Sub, Inconclusive
from gen import uni, pick, logu, unit
import const as C

RULE = ('non-trivial: spectra and derived parameters of an accepted point compared with the directly solved model, or a rejected point '
        'found unrealistic (or an accepted one realistic) by it; distinct = distinct generated (theory, parameters, request)')
ASSUMPTIONS = ['the directly solved model: primpy in e-folds on 6000 points or more from 3 e-folds earlier, calibrated once per step of an independent '
               'search for the amplitude of the potential (solver, calibration, approximate spectra are decided by C05-C10)',
               'a request is (A_s, N_star), (A_s, N_star, rho_reh_GeV), (A_s, n_s), (A_s, n_s, rho_reh_GeV), (A_s, w_reh, rho_reh_GeV) or A_s alone '
               '(then N_star=75, the default of the theory); other combinations are not decided',
               'points within 1e-3 of the boundary between realistic and unrealistic reheating are not decided',
               'spectra compared where the grid of wavenumbers lies within inflation with two e-folds to spare']

CLS = {'Monomial': ('MonomialPotential', {'p': uni(0.3, 4.)}), 'Linear': ('LinearPotential', {}), 'Quadratic': ('QuadraticPotential', {}),
       'Starobinsky': ('StarobinskyPotential', {}), 'Natural': ('NaturalPotential', {'phi0': uni(4., 40.)}),
       'DoubleWell2': ('DoubleWell2Potential', {'phi0': uni(10., 50.)}), 'DoubleWell4': ('DoubleWell4Potential', {'phi0': uni(10., 50.)}),
       'Tmodel': ('TmodelPotential', {'p': uni(1., 3.), 'alpha': logu(1e-2, 10.)}),
       'RadionGauge': ('RadionGaugePotential', {'p': uni(1., 4.), 'alpha': logu(1e-1, 10.)}),
       'RadionGauge2': ('RadionGauge2Potential', {'alpha': logu(1e-1, 10.)})}
PROVIDED = ['N_star', 'N_end', 'phi_end', 'V_end', 'H_end', 'N_reh', 'w_reh', 'DeltaN_reh', 'rho_reh_GeV', 'DeltaN_minus1', 'A_s', 'n_s',
            'n_run', 'n_runrun', 'A_t', 'n_t', 'r']


@st.composite
def request(draw, modes=('N_star', 'N_star+rho', 'n_s', 'n_s+rho', 'w+rho', 'w+rho', 'w+rho', 'none')):
    cls = draw(pick(*CLS))
    c = dict(cls=cls, par={n: draw(s) for n, s in CLS[cls][1].items()}, A_s=draw(logu(1e-9, 5e-9)), mode=draw(pick(*modes)))
    m = c['mode']
    if m in ('N_star', 'N_star+rho', 'n_s', 'n_s+rho'):
        c['N_star'] = draw(uni(40., 70.)) if 'rho' in m else draw(uni(25., 74.))
    if 'rho' in m:
        c['rho'] = draw(st.one_of(logu(1e-2, 1e15), logu(1e3, 1e15), logu(1e3, 1e15), logu(1e-16, 1e-8)))
    if m == 'w+rho':
        c['w'] = draw(st.one_of(uni(-0.3, 0.95), uni(0., 0.33)))
        c['near'] = draw(st.one_of(pick(None, None), uni(0.55, 1.3)))      # energy density (to the power 1/4) relative to the end of inflation
    return c


class Model:
    """The model solved directly, for a given amplitude of the potential."""

    def __init__(self, cls, par):
        import primpy.potentials as pp
        self.Pot, self.par = getattr(pp, CLS[cls][0]), par
        self.N_i = 93.

    def solve(self, Lambda):
        from primpy.efolds.inflation import InflationEquationsN
        from primpy.events import InflationEvent
        from primpy.initialconditions import SlowRollIC
        from primpy.solver import solve
        pot = self.Pot(Lambda=Lambda, **self.par)
        eq = InflationEquationsN(K=0, potential=pot)
        phi = pot.sr_N2phi(self.N_i)
        ic = SlowRollIC(eq, phi_i=phi, N_i=0.)
        ev = [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True)]
        s = solve(ic, events=ev, rtol=1e-10, atol=1e-13, method='DOP853')
        if not np.isfinite(s.N_tot) or s.N_tot < 80:
            raise Inconclusive('too little inflation')
        return solve(ic, events=ev, rtol=1e-12, atol=1e-15, method='DOP853', t_eval=np.linspace(0., s._N[-1], int(80 * s.N_tot)))

    def match(self, A_s, calibrate, Lambda):
        """Amplitude of the potential for which the calibrated model has the amplitude A_s."""
        for _ in range(12):
            b = self.solve(Lambda)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                calibrate(b)
            if abs(b.A_s / A_s - 1) < 3e-7:
                return b
            Lambda *= (A_s / b.A_s)**0.25
        raise Inconclusive('direct search for the amplitude failed')


def rho_end(b):
    return (1.5 * b.V_end)**0.25 * C.GEV_P


def direct(case):
    """(directly solved model, parameters to ask the theory for)."""
    m = Model(case['cls'], case['par'])
    A_s, mode, N0 = case['A_s'], case['mode'], case.get('N_star', 75.)
    ask = dict(case['par'], A_s=A_s)
    guess = 2e-3
    if mode == 'w+rho':
        rho = case['rho']
        if case['near']:
            b = m.match(A_s, lambda b: b.calibrate_scale_factor(N_star=55.), guess)
            rho, guess = float('%.9g' % (case['near'] * rho_end(b))), float(b.potential.Lambda)
        ask.update(w_reh=case['w'], rho_reh_GeV=rho)
        b = m.match(A_s, lambda b: b.calibrate_scale_factor(calibration_method='reheating', rho_reh_GeV=rho, w_reh=case['w']), guess)
    else:
        kw = {'rho_reh_GeV': case['rho']} if 'rho' in mode else {}
        b = m.match(A_s, lambda b: b.calibrate_scale_factor(calibration_method='N_star', N_star=N0, **kw), guess)
        if 'n_s' in mode:
            ask.update(n_s=float(b.n_s), **kw)
            b.reachable = within_reach(m.solve(float(b.potential.Lambda)), ask['n_s'])
        elif mode == 'none':
            pass
        else:
            ask.update(N_star=N0, **kw)
    return b, ask


def within_reach(b, n_s):
    """Does N_star between 20 and 75 bracket n_s? None if undecided."""
    def at(N):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            b.calibrate_scale_factor(N_star=N)
        return float(b.n_s) - n_s
    u, v = at(20.), at(75.)
    return None if min(abs(u), abs(v)) < 2e-4 else u * v < 0


def realism(b, ask):
    """Is the reheating scenario realistic? None if undecided (no scenario: realistic)."""
    if ask.get('rho_reh_GeV') is None:
        return True
    w, d = float(b.w_reh), float(b.DeltaN_reh)
    if abs(w - 1) < 1e-3 or abs(w + 1 / 3) < 1e-3 or abs(d) < 1e-3 or abs(ask['rho_reh_GeV'] / rho_end(b) - 1) < 1e-3 or abs(b.N_reh - b.N0) < 1e-2:
        return None
    return -1 / 3 < w < 1 and d > 0 and ask['rho_reh_GeV'] < rho_end(b) and b.N_reh < b.N0


def theory(cls):
    import cobaya_wrapper.slowroll_pps as mod
    return getattr(mod, cls + 'SlowRollPPS')()


def solved(case):
    from primpy.exceptionhandling import PrimpyError
    try:
        return direct(case)
    except (TypeError, ValueError, IndexError, PrimpyError, AssertionError) as e:
        raise Inconclusive('direct model: %s' % type(e).__name__)


def compare(ctx, case, b, ask, state):
    s, t, d = state['primordial_scalar_pk'], state['primordial_tensor_pk'], state['derived']
    ctx.check(set(PROVIDED) <= set(d), 'missing derived parameters: %s' % sorted(set(PROVIDED) - set(d)))
    # as requested
    ctx.close(d['A_s'], ask['A_s'], 2e-6, 1e-14, 'amplitude')
    for n in ('n_s', 'N_star', 'w_reh', 'rho_reh_GeV'):
        if n in ask:
            ctx.close(d[n], ask[n], 1e-6, 0, 'requested ' + n)
    if case['mode'] == 'none':
        ctx.close(d['N_star'], 75., 1e-9, 0, 'default of N_star')
    # derived parameters; n_s known to a few 1e-5 fixes N_star less well where n_s hardly depends on it
    loose = 'n_s' in ask
    N = float(b.N_star)
    dn = 0.
    if loose:
        slope = abs(float(b.n_run)) + 1e-12               # dn_s/dN_star up to the sign
        dn = 3e-5 / slope
        if dn > 0.3:
            raise Inconclusive('n_s hardly depends on N_star')
    ctx.close(d['N_star'], N, 2e-5, dn, 'N_star')
    ctx.close([d['phi_end'], d['V_end'], d['H_end']], [b.phi_end, b.V_end, b.H_end], 1e-4 + 0.1 * dn, 0, 'phi, V, H at the end of inflation')
    ctx.close(d['N_end'], b.N_end, 1e-5, 3e-4 + 2 * dn, 'N_end')
    ctx.close([d['A_t'], d['r']], [b.A_t, b.r], 1e-3 + 0.2 * dn, 0, 'A_t, r')
    ctx.close([d['n_s'], d['n_t']], [b.n_s, b.n_t], 0, 1e-4 + 1e-2 * dn, 'n_s, n_t')
    ctx.close(d['n_run'], b.n_run, 1e-2 + 0.2 * dn, 2e-4, 'n_run')
    for n, tol in (('N_reh', 1e-3), ('w_reh', 1e-3), ('DeltaN_reh', 2e-3), ('DeltaN_minus1', 2e-3)):
        v = b.get(n)
        if v is None or not np.isfinite(v):
            ctx.check(not np.isfinite(d[n]), '%s=%s without reheating scenario' % (n, d[n]))
        else:
            # w = ln(rho_end/rho_reh)/(3 DeltaN) - 1 and DeltaN = N_reh - N_end in a scenario of given N_star
            x = tol + 4 * dn
            if n == 'w_reh':
                x *= max(1., 4 / abs(float(b.DeltaN_reh)))
            if n == 'DeltaN_minus1' or n == 'DeltaN_reh':
                x *= 3
            ctx.close(d[n], v, 0, x, n)
    # spectra
    kmin, kmax, Pk = s['kmin'], s['kmax'], s['Pk']
    ctx.check(kmin <= 1e-6 and kmax >= 10 and np.size(Pk) >= 400 and s['log_regular'], 'grid from %s to %s with %d points' % (kmin, kmax, np.size(Pk)))
    ctx.check((t['kmin'], t['kmax'], np.shape(t['Pk']), bool(t['log_regular'])) == (kmin, kmax, np.shape(Pk), True), 'grids of scalars and tensors differ')
    ks = np.exp(np.linspace(math.log(kmin), math.log(kmax), np.size(Pk)))
    x = np.log(ks / 0.05)
    m = (x < N - 6) & (x > N - 88)
    ctx.check(np.all(np.isfinite(Pk)) and np.all(np.isfinite(t['Pk'])), 'spectra not finite')
    ctx.close(Pk[m], b.P_s_approx(ks[m]), 2e-3 + 0.2 * dn, 0, 'scalar spectrum')
    ctx.close(t['Pk'][m], b.P_t_approx(ks[m]), 2e-3 + 0.2 * dn, 0, 'tensor spectrum')
    ctx.close(np.interp(0, x, np.log(Pk)), np.log(ask['A_s']), 0, 1e-3, 'log of the amplitude read off the spectrum at the pivot scale')


def theory_body(case, ctx):
    from primpy.exceptionhandling import PrimpyError
    b, ask = solved(case)
    real = realism(b, ask)
    if case['cls'] == 'Natural' and 1 - b.phi[0] / case['par']['phi0'] < 1e-6:
        raise Inconclusive('distance from the maximum at phi0 not resolved in double precision: amplitude known to 1e-3 only')
    th = theory(case['cls'])
    ctx.check({'A_s', 'n_s', 'N_star', 'rho_reh_GeV', 'w_reh', 'phi0', 'p', 'alpha'} <= set(th.get_can_support_params()), 'supported parameters')
    ctx.check(set(PROVIDED) == set(th.get_can_provide_params()), 'promised derived parameters: %s' % sorted(th.get_can_provide_params()))
    state = {}
    try:
        th.calculate(state, want_derived=True, **ask)
        err = None
    except PrimpyError as e:
        err = e
    ctx.label(case['cls'], case['mode'])
    what = '%s %s: w_reh=%s, DeltaN_reh=%s, rho_end=%.6g GeV' % (case['cls'], ask, b.w_reh, b.DeltaN_reh, rho_end(b))
    if real is None:
        raise Inconclusive('on the boundary of realistic reheating')
    if not real:
        ctx.check(err is not None, 'unrealistic reheating accepted: ' + what)
        ctx.label('unrealistic')
        ctx.nt()
        return
    if 'n_s' in ask and not b.reachable:
        raise Inconclusive('n_s not bracketed by N_star between 20 and 75')
    ctx.check(err is None, 'realistic reheating rejected (%s): %s' % (str(err)[:120], what))
    compare(ctx, case, b, ask, state)
    ctx.label('near instant reheating' if case.get('near') else 'realistic')
    ctx.nt()


# ------------------------------------------------------------------ inside a Cobaya model
def model_body(case, ctx):
    from cobaya.model import get_model
    from cobaya.likelihood import Likelihood
    import cobaya_wrapper.slowroll_pps as mod
    b, ask = solved(case)
    if realism(b, ask) is None:
        raise Inconclusive('on the boundary of realistic reheating')
    if case['cls'] == 'Natural' and 1 - b.phi[0] / case['par']['phi0'] < 1e-6:
        raise Inconclusive('distance from the maximum at phi0 not resolved in double precision: amplitude known to 1e-3 only')
    seen = []

    class Collect(Likelihood):
        def get_requirements(self):
            return {'primordial_scalar_pk': {}, 'primordial_tensor_pk': {}}

        def logp(self, _derived=None, **kw):
            seen.append((self.provider.get_primordial_scalar_pk(), self.provider.get_primordial_tensor_pk()))
            return -1.
    params = {n: v for n, v in ask.items() if n != 'A_s'}
    params['A_s'] = {'prior': {'min': 1e-10, 'max': 1e-8}}
    out = [n for n in PROVIDED if n not in ask]
    params.update({n: None for n in out})
    m = get_model({'likelihood': {'collect': Collect}, 'theory': {'pps': {'external': getattr(mod, case['cls'] + 'SlowRollPPS'), 'stop_at_error': False}},
                   'params': params, 'debug': logging.CRITICAL})
    try:
        names = list(m.parameterization.derived_params())
        lp = m.logposterior({'A_s': ask['A_s']})
        other = m.logposterior({'A_s': ask['A_s'] * 1.1})
        again = m.logposterior({'A_s': ask['A_s']})
    finally:
        m.close()
    ctx.check(sorted(names) == sorted(out), 'derived parameters of the model: %s' % names)
    if not realism(b, ask):
        ctx.check(not np.isfinite(lp.loglike), 'unrealistic reheating accepted in a model')
        ctx.label('unrealistic')
        ctx.nt()
        return
    if 'n_s' in ask and not b.reachable:
        raise Inconclusive('n_s not bracketed by N_star between 20 and 75')
    ctx.check(np.isfinite(lp.loglike), 'realistic reheating rejected in a model: %s' % ask)
    ctx.check(np.array_equal(np.asarray(lp.derived, float), np.asarray(again.derived, float), equal_nan=True), 'derived parameters differ on return to a point')
    d = dict(zip(names, lp.derived))
    d.update({n: ask[n] for n in PROVIDED if n in ask})
    s, t = seen[0]
    compare(ctx, case, b, ask, dict(primordial_scalar_pk=s, primordial_tensor_pk=t, derived=d))
    if np.isfinite(other.loglike):
        e = dict(zip(names, other.derived))
        if 'N_star' in ask:
            ctx.close(e['V_end'] / d['V_end'], 1.1, 1e-3, 0, 'height of the potential for another amplitude')
    ctx.label(case['cls'], case['mode'])
    ctx.nt()


SUBS = [Sub('theory', request, theory_body, 180, 8000, shards=(8, 8), case_timeout=90),
        Sub('model', lambda: request(('N_star', 'w+rho', 'n_s', 'N_star+rho')), model_body, 40, 1200, shards=(4, 8), case_timeout=120)]
