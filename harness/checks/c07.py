"""C07: initial conditions satisfy their defining relations; shooting hits its target when the background is solved."""
import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from core import Sub, Inconclusive
from gen import uni, pick, logu, unit
import pots
import setups as S

RULE = ('conditions: every generated initial state is non-trivial once it is accepted and compared, or a forbidden request is '
        'rejected; shooting: non-trivial when the target is hit by solving the background and by an independent integration, or '
        'an unreachable target is refused; distinct = distinct generated requests')
ASSUMPTIONS = ['slow-roll velocity -V\'/(3H) (time) and -V\'/(3H^2) (e-folds) with the expansion rate of the potential energy alone, '
               'so that the two forms agree to leading slow-roll order only',
               'shooting brackets whose ends lie on either side of the target; potentials without features',
               'closed universes whose low bracket end collapses may end in a StepSizeError (documented) instead of a result']


# ------------------------------------------------------------------ conditions
@st.composite
def cond_case(draw):
    c = draw(S.background(Nmin=0.5, Nmax=80., Ok=(1e-6, 0.9999), Ks=(0, 1, -1), lam=logu(1e-4, 3.)))
    c['form'] = draw(pick('t', 'N'))
    c['track_time'], c['track_eta'] = draw(st.booleans()), draw(st.booleans())
    c['x_end'] = draw(st.one_of(st.none(), logu(1e2, 1e6)))
    c['bad'] = draw(pick(None, None, None, 'open', 'small', 'both', 'none', 'time', 'eta', 'sign', 'type'))
    c['u'] = draw(uni(0., 1.))
    return c


def cond_body(case, ctx):
    from primpy.exceptionhandling import InflationStartError
    from primpy.initialconditions import SlowRollIC, InflationStartIC
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    K, form = case['K'], case['form']
    sr = case['ic'] == 'SR'
    pot = pots.build(case['spec'])
    phi = S.start_field(case['spec'], case['Nsr'])
    V, dV = [float(x) for x in pots.taylor(pots.formula(case['spec']), phi, 1)]
    pw = 3. if sr else 2.

    def equations():
        if form == 't':
            return InflationEquationsT(K=K, potential=pot, track_eta=case['track_eta'])
        return InflationEquationsN(K=K, potential=pot, track_time=case['track_time'], track_eta=case['track_eta'])
    need_t = form == 't' or case['track_time']
    IC = SlowRollIC if sr else InflationStartIC
    base = dict(phi_i=phi, t_i=case['t_i'] if need_t else None, eta_i=case['eta_i'] if case['track_eta'] else None)
    bad = case['bad']
    ctx.label(case['ic'], 'form ' + form, 'K=%d' % K)
    # ---- forbidden requests
    if bad:
        eq = equations()
        if bad == 'open' and K == -1:
            om = 1. if case['u'] < 0.2 else 1. + 10 * case['u']
            ctx.raises(InflationStartError, lambda: IC(eq, Omega_Ki=om, **base), 'Omega_Ki=%s in an open universe' % om)
        elif bad == 'small' and K == 1:
            N = float(0.5 * np.log(pw / V) - 1e-6 - 3 * case['u'])
            ctx.raises(InflationStartError, lambda: IC(eq, N_i=N, **base), 'over-curved closed universe')
        elif bad == 'both':
            ctx.raises((TypeError, AssertionError), lambda: IC(eq, N_i=5., Omega_Ki=-K * 0.1, **base), 'N_i and Omega_Ki')
        elif bad == 'none':
            ctx.raises(TypeError, lambda: IC(eq, **base), 'neither N_i nor Omega_Ki')
        elif bad == 'time' and form == 'N':
            eq = InflationEquationsN(K=0, potential=pot, track_time=True)
            ic = IC(eq, phi_i=phi, N_i=5., eta_i=case['eta_i'])
            ctx.raises(AssertionError, lambda: ic(np.zeros(len(eq.idx))), 'tracking time without t_i')
        elif bad == 'eta':
            eq = (InflationEquationsT if form == 't' else InflationEquationsN)(K=0, potential=pot, track_eta=True)
            ic = IC(eq, phi_i=phi, N_i=5., t_i=case['t_i'])
            ctx.raises(AssertionError, lambda: ic(np.zeros(len(eq.idx))), 'tracking eta without eta_i')
        elif bad == 'type':
            class Other:
                pass
            eq = Other()
            eq.K, eq.potential, eq.idx, eq.track_time, eq.track_eta = 0, pot, {'phi': 0, 'dphidt': 1, 'dphidN': 1, '_N': 2}, False, False
            ctx.raises(Exception, lambda: IC(eq, N_i=5., **base)(np.zeros(3)), 'equations that are neither of the inflation equations')
        else:
            return
        ctx.label('rejected: ' + bad)
        ctx.nt()
        return
    # ---- accepted requests, given either way
    if K == 0:
        N, ways = case['N_i'], ['N_i']
        om = 0.
    else:
        # potential energy (plus kinetic V/2 at the start of inflation): rho/3 = V/pw = H^2 (1 - Omega_K)
        om = case['Omega_Ki']
        N = float(0.5 * np.log(-K * pw * (1 - om) / (om * V)))
        ways = ['N_i', 'Omega_Ki']
    H = np.sqrt(V / pw - K * np.exp(-2 * N))
    amp = 1 + abs(om)          # cancellation between density and curvature
    for way in ways:
        eq = equations()
        kw = dict(base, **{way: N if way == 'N_i' else om})
        if case['x_end'] is not None:
            kw['x_end'] = case['x_end']
        ic = IC(eq, **kw)
        ctx.close([ic.phi_i, ic.V_i], [phi, V], 1e-11, 0, '%s: field and potential' % way)
        ctx.close(ic.N_i, N, 1e-12 * amp, 1e-11, '%s: N_i' % way)
        ctx.close(ic.H_i, H, 1e-12 * amp * (1 + abs(N)), 0, '%s: H_i' % way)
        ctx.close(ic.Omega_Ki, om, 1e-12 * amp**2 * (1 + abs(N)), 0, '%s: Omega_Ki' % way)
        ctx.close(ic.aH_i, H * np.exp(N), 1e-12 * amp * (1 + abs(N)), 0, '%s: aH_i' % way)
        ctx.check(ic.ic_input_param == {way: kw[way]}, 'input parameter %s' % ic.ic_input_param)
        ctx.check(ic.x_end == (1e300 if case['x_end'] is None else case['x_end']), 'x_end')
        y0 = np.full(len(eq.idx), np.nan)
        ic(y0)
        ctx.check(ic.x_ini == (case['t_i'] if form == 't' else ic.N_i), 'initial value of the independent variable')
        vel = -dV / (3 * H) if sr else -np.sqrt(V)
        want = {'phi': phi, 'dphidt': vel, 'dphidN': vel / H, '_N': N, 't': case['t_i'], 'eta': case['eta_i']}
        ctx.check(np.isfinite(y0).all(), 'initial state not filled: %s' % y0)
        for n, i in eq.idx.items():
            ctx.close(y0[i], want[n], 1e-11 * amp**2 * (1 + abs(N)), 1e-11 if n == '_N' else 0, '%s: initial %s' % (way, n))
        # the equations agree with the state that was meant
        if not sr:
            ctx.close(eq.H2(ic.x_ini, y0), H**2, 1e-11 * amp**2 * (1 + abs(N)), 0, '%s: Friedmann equation at the start' % way)
            ctx.close(eq.w(ic.x_ini, y0), -1 / 3, 1e-11 * amp**2 * (1 + abs(N)), 0, '%s: w at the onset' % way)
            ctx.close(eq.inflating(ic.x_ini, y0) / V, 0, 0, 1e-10 * amp**2 * (1 + abs(N)), '%s: onset of inflation' % way)
        else:
            # density includes the small kinetic energy of the slow-roll velocity
            e = (dV / V)**2 / 2
            lead = vel**2 / 6 / H**2
            if lead < 0.5:
                ctx.close(eq.H2(ic.x_ini, y0) / H**2, 1 if form == 't' else 1 / (1 - lead), 1e-9 * amp**2, (lead if form == 't' else 0) + 1e-12,
                          '%s: Friedmann equation at the start' % way)
            if form == 't':
                ctx.close(eq.H2(ic.x_ini, y0), H**2 + vel**2 / 6, 1e-11 * amp**2 * (1 + abs(N)), 0, '%s: Friedmann (time)' % way)
    ctx.nt()


# ------------------------------------------------------------------ shooting for N_tot
@st.composite
def nt_case(draw):
    c = draw(S.background(features=False, ics=('IS',), Ks=(0, 1, -1), Ok=(1e-4, 0.1), lam=logu(1e-3, 0.1),
                          classes=[m for m in S.SMOOTH if not m.startswith('DoubleWell') and m != 'NaturalPotential']))
    if c['K'] != 0:
        ok = draw(logu(1e-3, 0.98 if c['K'] == -1 else 2.))
        c['Omega_Ki'] = ok if c['K'] == -1 else -ok
    c['form'] = draw(pick('t', 'N'))
    c['target'] = draw(uni(8., 70.))
    c['lo'], c['hi'] = draw(uni(0.02, 0.6)), draw(uni(1.6, 3.))
    c['bad'] = draw(pick(False, False, False, False, False, True))
    c['verbose'] = draw(pick(False, False, True))
    # what the caller asks for besides the target has to survive the search
    c['opt'] = {'x_end': draw(pick(None, None, 1e200, 3e99)), 'eta': draw(pick(None, None, None, 0., 2.5, -7.)),
                'time': draw(pick(False, False, True)), 't_i': float('%.6g' % draw(logu(0.1, 1e4))), 'rtol': draw(pick(None, None, None, 1e-6, 1e-7, 1e-8))}
    if c['K'] == 1 and c['give'] == 'Omega_Ki' and draw(st.booleans()):
        # the low end of the bracket collapses
        c['Omega_Ki'] = -draw(logu(0.3, 30.))
        c['lo'] = draw(uni(0.002, 0.05))
    return c


def ntot_reference(case, phi):
    c = dict(case, phi_i=phi)
    if case['K'] != 0 and case['give'] == 'N_i':
        c.pop('Omega_Ki', None)
    c = S.finish(c)
    ref = S.Reference(c)
    return c, ref


def options(case, form, kw):
    """Keyword arguments of the equations, of the initial conditions (added to kw) and of solve."""
    o = case['opt']
    track, run = {}, {}
    if o['x_end'] is not None:
        kw['x_end'] = o['x_end']
    if o['eta'] is not None:
        track['track_eta'], kw['eta_i'] = True, o['eta']
    if o['time'] and form == 'N':
        track['track_time'], kw['t_i'] = True, o['t_i']
    if o['rtol'] is not None:
        run['rtol'] = o['rtol']
    return track, run


def kept(case, ctx, ic, sol, kw):
    """The start of the solved background is the one that was asked for."""
    ctx.check(ic.x_end == kw.get('x_end', 1e300), 'x_end=%r asked for, %r after the search' % (kw.get('x_end'), ic.x_end))
    if 't_i' in kw:
        ctx.close(sol.t[0], kw['t_i'], 1e-14, 0, 'initial time')
    if 'eta_i' in kw:
        ctx.close(sol.eta[0], kw['eta_i'], 1e-14, 1e-300, 'initial conformal time')


def nt_body(case, ctx):
    from primpy.initialconditions import ISIC_Nt
    from primpy.exceptionhandling import StepSizeError
    from primpy.events import InflationEvent
    from primpy.solver import solve
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    K, form, target = case['K'], case['form'], case['target']
    case = dict(case)
    pot = pots.build(case['spec'])
    up = 0.9 if case['bad'] is True else case['hi']
    phis = [float(pot.sr_N2phi(target * f + (15 if f > 1 else 0))) for f in (case['lo'], up)]
    if K != 0 and case['give'] == 'N_i':
        # the curvature asked for, at the field of roughly the target
        om = case['Omega_Ki']
        V = float(pot.V(pot.sr_N2phi(target * 1.2 + 5)))
        case['N_i'] = float('%.8g' % (0.5 * np.log(-K * 2 * (1 - om) / (om * V))))
    give = case.get('give', 'N_i') if K != 0 else 'N_i'
    kw = {give: case[give]}
    if form == 't':
        kw['t_i'] = case['t_i']
    track, run = options(case, form, kw)
    eq = (InflationEquationsT if form == 't' else InflationEquationsN)(K=K, potential=pot, **track)
    if K == 1 and give == 'N_i' and pot.V(phis[1]) / 2 * np.exp(2 * case['N_i']) <= 1.001:
        raise Inconclusive('upper end of the bracket over-curved')
    ref_hi = ntot_reference(case, phis[1])[1]
    if ref_hi.N_end is None:
        raise Inconclusive('upper end of the bracket: no end of inflation')
    n_hi = ref_hi.N_end - ntot_reference(case, phis[1])[0]['N_i']
    if case['bad']:
        if n_hi > 0.98 * target:
            raise Inconclusive('reachable after all')
        ctx.label('unreachable')
        ctx.raises(Exception, lambda: solve(ISIC_Nt(eq, N_tot=target, phi_i_bracket=phis, **kw)), 'N_tot=%s beyond the bracket' % target)
        ctx.nt()
        return
    if n_hi < target * 1.001 + 0.01:
        raise Inconclusive('target above the bracket')
    ic = ISIC_Nt(eq, N_tot=target, phi_i_bracket=phis, verbose=case['verbose'], **kw)
    ev = [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True)]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sol = solve(ic, events=ev, **run)
    except StepSizeError:
        if K == 1 and (case['give'] == 'N_i' or case['Omega_Ki'] < -0.1):
            ctx.label('step size error in a collapsing trial universe')
            return
        raise
    ctx.label('form ' + form, 'K=%d' % K, 'given ' + give)
    ctx.check(phis[0] <= ic.phi_i <= phis[1], 'field outside the bracket')
    kept(case, ctx, ic, sol, kw)
    loose = 1e4 * (case['opt']['rtol'] or 0)
    # xtol=1e-6 on the field in the e-fold form; dN/dphi = V/V'
    slope = abs(float(pot.V(ic.phi_i) / pot.dV(ic.phi_i))) * (1 + abs(ic.Omega_Ki))**2
    tol = (1e-6 if form == 't' else 1e-5 * slope + 4e-6 * abs(ic.phi_i) * slope) + 1e-7 * target
    ctx.close(sol.N_tot, target, 0, tol, 'N_tot of the solved background')
    c = dict(case, phi_i=float(ic.phi_i), N_i=float(ic.N_i))
    c.pop('Omega_Ki', None)
    c, ref = S.finish(c), None
    ref = S.Reference(c)
    ctx.check(ref.N_end is not None, 'no end of inflation from the shooting result')
    ctx.close(ref.N_end - c['N_i'], target, 0, 2 * tol + 1e-6 + loose * target, 'N_tot by independent integration of the resulting start')
    if give == 'Omega_Ki' and K != 0:
        ctx.close(ic.Omega_Ki, case['Omega_Ki'], 1e-13, 0, 'Omega_Ki')
        ctx.close(-K * np.exp(-2 * ic.N_i) / c['H_i']**2, case['Omega_Ki'], 1e-9, 0, 'curvature of the state')
    else:
        ctx.close(ic.N_i, case['N_i'], 1e-14, 0, 'N_i')
    ctx.close(sol._N[0], ic.N_i, 1e-14, 0, 'first e-folds')
    ctx.close(sol.phi[0], ic.phi_i, 1e-14, 0, 'first field')
    ctx.close((sol.V_end, sol._N_beg), (float(pot.V(sol.phi_end)), ic.N_i), 1e-12, 1e-9, 'V_end, start of inflation')
    ctx.nt()


# ------------------------------------------------------------------ shooting for N_star
@st.composite
def ns_case(draw):
    c = draw(nt_case())
    c['K'] = draw(pick(1, -1))
    ok = draw(logu(1e-2, 0.95 if c['K'] == -1 else 2.))
    c['Omega_Ki'] = ok if c['K'] == -1 else -ok
    c['give'] = draw(pick('N_i', 'Omega_Ki'))
    c['spec']['Lambda'] = draw(logu(1e-3, 1e-2))
    c['target'] = draw(uni(25., 62.))
    c['h'] = draw(uni(0.4, 1.))
    c['Omega_K0'] = -c['K'] * draw(logu(1e-4, 0.15))
    c['bad'] = draw(pick(None, None, None, None, None, 'unreachable', 'sign', 'zero'))
    c['hi'] = draw(uni(2.2, 3.))
    return c


def ns_body(case, ctx):
    from primpy.initialconditions import ISIC_NsOk
    from primpy.exceptionhandling import StepSizeError
    from primpy.events import InflationEvent
    from primpy.solver import solve
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.parameters import K_STAR
    K, form, target = case['K'], case['form'], case['target']
    case = dict(case)
    pot = pots.build(case['spec'])
    up = 0.9 if case['bad'] == 'unreachable' else case['hi']
    phis = [float(pot.sr_N2phi(target * f + (15 if f > 1 else 0))) for f in (case['lo'], up)]
    give = case['give']
    om = case['Omega_Ki']
    V = float(pot.V(pot.sr_N2phi(target * 1.2 + 10)))
    case['N_i'] = float('%.8g' % (0.5 * np.log(-K * 2 * (1 - om) / (om * V))))
    kw = {give: case[give]}
    if form == 't':
        kw['t_i'] = case['t_i']
    track, run = options(case, form, kw)
    eq = (InflationEquationsT if form == 't' else InflationEquationsN)(K=K, potential=pot, **track)
    if K == 1 and give == 'N_i':
        if pot.V(phis[1]) / 2 * np.exp(2 * case['N_i']) <= 1.001:
            raise Inconclusive('upper end of the bracket over-curved')
        # the search does not expect an over-curved universe inside the bracket
        while phis[0] < phis[1] and pot.V(phis[0]) / 2 * np.exp(2 * case['N_i']) <= 1.01:
            phis[0] += 0.05 * (phis[1] - phis[0])
    h, ok0 = case['h'], case['Omega_K0']
    if case['bad'] == 'zero':
        ctx.raises((AssertionError, ValueError), lambda: solve(ISIC_NsOk(eq, N_star=target, Omega_K0=0, h=h, phi_i_bracket=phis, **kw)), 'Omega_K0=0')
        ctx.label('rejected: zero')
        ctx.nt()
        return
    if case['bad'] == 'sign':
        ctx.raises(Exception, lambda: solve(ISIC_NsOk(eq, N_star=target, Omega_K0=-ok0, h=h, phi_i_bracket=phis, **kw)), 'Omega_K0 of the wrong geometry')
        ctx.label('rejected: sign')
        ctx.nt()
        return
    a0_Mpc = 299792.458 / (100 * h) * np.sqrt(abs(1 / ok0))
    logaH_star = np.log(0.05 * a0_Mpc)

    def nstar(phi, N_i=None):
        c = dict(case, phi_i=phi)
        if give == 'N_i' or N_i is not None:
            c.pop('Omega_Ki', None)
        if N_i is not None:
            c['N_i'] = N_i
        c = S.finish(c)
        ref = S.Reference(c)
        if ref.N_end is None:
            return None
        g = np.linspace(c['N_i'], ref.N_end, 4000)
        at = ref.at(g)
        y = g + np.log(at['H']) - logaH_star
        j = np.nonzero((y[:-1] < 0) & (y[1:] >= 0))[0]
        if not len(j):
            return None
        j = j[-1]
        x = g[j] - y[j] * (g[j + 1] - g[j]) / (y[j + 1] - y[j])
        for _ in range(4):
            r = ref.at(x)
            e = 0.5 * float(r['dphidt'])**2 / float(r['H'])**2
            x = x - (x + np.log(float(r['H'])) - logaH_star) / (1 - e + K * np.exp(-2 * x) / float(r['H'])**2)
        return ref.N_end - x
    hi, lo = nstar(phis[1]), nstar(phis[0])
    if hi is None:
        raise Inconclusive('upper end of the bracket: no horizon crossing')
    if case['bad'] == 'unreachable':
        if hi > 0.98 * target:
            raise Inconclusive('reachable after all')
        ctx.label('unreachable')
        ctx.raises(Exception, lambda: solve(ISIC_NsOk(eq, N_star=target, Omega_K0=ok0, h=h, phi_i_bracket=phis, **kw)), 'N_star=%s beyond the bracket' % target)
        ctx.nt()
        return
    if hi < target * 1.001 + 0.01 or lo is not None and lo > target * 0.999 - 0.01:
        raise Inconclusive('target outside the bracket')
    ic = ISIC_NsOk(eq, N_star=target, Omega_K0=ok0, h=h, phi_i_bracket=phis, verbose=case['verbose'], **kw)
    ctx.close(np.exp(ic.N0), ic.a0, 1e-12, 0, 'N0')
    ev = [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True)]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sol = solve(ic, events=ev, **run)
    except StepSizeError:
        if K == 1 and (give == 'N_i' or om < -0.1):
            ctx.label('step size error in a collapsing trial universe')
            return
        raise
    sol.calibrate_scale_factor(Omega_K0=ok0, h=h)
    kept(case, ctx, ic, sol, kw)
    loose = 1e4 * (case['opt']['rtol'] or 0)
    ctx.label('form ' + form, 'K=%d' % K, 'given ' + give)
    slope = abs(float(pot.V(ic.phi_i) / pot.dV(ic.phi_i))) * (1 + abs(ic.Omega_Ki))**2
    tol = (1e-6 if form == 't' else 1e-5 * slope + 4e-6 * abs(ic.phi_i) * slope) + 1e-6 * target
    ctx.close(sol.N_star, target, 0, tol, 'N_star of the solved and calibrated background')
    ref = nstar(float(ic.phi_i), float(ic.N_i))
    ctx.check(ref is not None, 'no horizon crossing from the shooting result')
    ctx.close(ref, target, 0, tol + 2e-4 + 1e-5 * target + loose * target, 'N_star by independent integration of the resulting start')
    ctx.close(sol.a0_Mpc, a0_Mpc, 1e-9, 0, 'scale factor today')
    if give == 'Omega_Ki':
        ctx.close(ic.Omega_Ki, om, 1e-13, 0, 'Omega_Ki')
    else:
        ctx.close(ic.N_i, case['N_i'], 1e-14, 0, 'N_i')
    ctx.nt()


SUBS = [Sub('conditions', cond_case, cond_body, 1500, 40000, shards=(2, 8)),
        Sub('shoot_Ntot', nt_case, nt_body, 120, 1500, shards=(4, 8), case_timeout=60),
        Sub('shoot_Nstar', ns_case, ns_body, 90, 1200, shards=(4, 8), case_timeout=60)]
