"""C08: scale-factor calibration against its defining relations, evaluated independently."""
import warnings
import numpy as np
from hypothesis import strategies as st
from core import Sub, Inconclusive
from gen import uni, pick, logu, unit
import calib
import const as C
import pots
import setups as S

RULE = ('non-trivial: a calibration was accepted and its relations compared on the whole background, or a request that cannot be '
        'satisfied was rejected; distinct = distinct generated (background, calibration request)')
ASSUMPTIONS = ['pivot crossing compared with the piecewise-linear resolution of the solver steps: the error allowed is 1.5 times '
               'that of an exact linear interpolation between the neighbouring steps, plus 1e-6',
               'inflation long enough for at least 12 solver steps; calibrations whose approximate spectra cannot be formed are C10']


@st.composite
def case_strategy(draw):
    c = draw(calib.long_background(ics=('SR', 'IS', 'KD')))
    K = c['K']
    c['h'] = draw(uni(0.3, 1.2))
    c['Omega_K0'] = -K * draw(logu(1e-5, 0.3)) if K else draw(pick(None, 0, 0.))
    c['method'] = draw(pick('N_star', 'reheating', None) if K == 0 else pick('Omega_K0', 'reheating', None))
    c['fstar'] = draw(uni(0.03, 0.97))
    c['reh'] = draw(pick('none', 'none', 'w+N', 'w+rho', 'm1'))
    c['w'] = draw(uni(-0.3, 1.))
    c['DN'] = draw(uni(0.01, 20.))
    c['g_th'] = draw(pick(100., 106.75, 10.75, 500.))
    c['bad'] = draw(pick(*[None] * 7 + ['missing', 'geometry', 'toolong', 'method', 'h', 'both']))
    c['u'] = draw(unit())
    return c


def reh_kwargs(case, V_end):
    r = case['reh']
    if case['K'] != 0 and r == 'm1':
        r = 'none'
    if r == 'w+N':
        return dict(w_reh=case['w'], DeltaN_reh=case['DN'])
    if r == 'w+rho':
        rho = 1.5 * V_end * np.exp(-3 * (1 + case['w']) * case['DN'])
        return dict(w_reh=case['w'], rho_reh_GeV=float('%.10g' % (rho**0.25 * C.GEV_P)))
    if r == 'm1':
        return dict(DeltaN_minus1=case['DN'] * (1 - 3 * case['w']) / 4)
    return {}


def body(case, ctx):
    from primpy.exceptionhandling import InsufficientInflationError, PrimpyError
    K = case['K']
    c, eq, sol = calib.solve_background(case)
    cal = sol.calibrate_scale_factor
    ctx.label('K=%d' % K, 'form ' + case['form'])
    method = case['method'] or ('N_star' if K == 0 else 'Omega_K0')
    bad = case['bad']
    if bad:
        h, ok0 = case['h'], case['Omega_K0']
        N_star = 0.5 * sol.N_tot
        m = [] if case['method'] is None else [method]
        if bad == 'missing':
            if K == 0 and method == 'N_star':
                for ns in (None, 0, -5 * case['u'] - 1e-3):
                    ctx.raises(ValueError, lambda: cal(*m, N_star=ns), 'N_star=%s' % ns)
            elif K != 0 and method == 'Omega_K0':
                for o in (None, 0):
                    ctx.raises(ValueError, lambda: cal(*m, Omega_K0=o, h=h), 'Omega_K0=%s' % o)
            else:
                return
        elif bad == 'geometry':
            if K == 0:
                o = (case['u'] - 0.5) or 0.1
                ctx.raises(ValueError, lambda: cal(*m, N_star=N_star, Omega_K0=o), 'Omega_K0=%s in a flat universe' % o)
            elif method == 'Omega_K0':
                ctx.raises(ValueError, lambda: cal(*m, Omega_K0=-ok0, h=h), 'Omega_K0 of the wrong sign')
            else:
                ctx.raises(ValueError, lambda: cal('reheating', Omega_K0=ok0, h=h), 'Omega_K0 given with reheating')
        elif bad == 'toolong':
            if K == 0 and method == 'N_star':
                ns = sol.N_tot * (1 + 1e-9 + case['u'])
                ctx.raises(InsufficientInflationError, lambda: cal(*m, N_star=ns), 'N_star=%s > N_tot=%s' % (ns, sol.N_tot))
            elif K != 0:
                # pivot scale beyond the end of inflation: today's scale factor far too large
                o = -K * 1e-8 * np.exp(-2 * sol._logaH_end) if sol._logaH_end > -300 else None
                if o is None or o == 0:
                    return
                ctx.raises(InsufficientInflationError, lambda: calib.quiet(cal, 'Omega_K0', Omega_K0=o, h=h), 'pivot after the end of inflation')
                # and beyond its beginning
                o = -K * 1e6 * np.exp(-2 * sol._logaH_beg)
                lim = 0.05 * C.C_KMS / (100 * h) / np.sqrt(abs(o))
                if np.log(lim) < sol._logaH_beg - 1e-3:
                    ctx.raises(InsufficientInflationError, lambda: calib.quiet(cal, 'Omega_K0', Omega_K0=o, h=h), 'pivot before the beginning of inflation')
            else:
                return
        elif bad == 'method':
            for m in {'Nstar', 'n_star', '', 'Omega_K0' if K == 0 else 'N_star'}:
                kw = dict(N_star=N_star) if K == 0 else dict(Omega_K0=ok0, h=h)
                ctx.raises(NotImplementedError, lambda: cal(m, **kw), 'method %r' % m)
        elif bad == 'h':
            if K == 0:
                return
            for hh in (None, 0, -case['h']):
                ctx.raises(ValueError, lambda: cal(*m, Omega_K0=ok0 if method == 'Omega_K0' else None, h=hh), 'h=%s' % hh)
        elif bad == 'both':
            if K == 0:
                return
            ctx.raises(ValueError, lambda: cal(*m, Omega_K0=ok0 if method == 'Omega_K0' else None, h=h, N_star=N_star), 'N_star in a curved universe')
        ctx.label('rejected: ' + bad)
        ctx.nt()
        return
    # ------------------------------------------------------------ accepted requests
    kw = {'g_th': case['g_th']}
    if method == 'N_star':
        kw['N_star'] = float('%.9g' % (case['fstar'] * sol.N_tot))
    elif method == 'Omega_K0':
        kw.update(Omega_K0=case['Omega_K0'], h=case['h'])
    else:
        kw.update(reh_kwargs(case, sol.V_end))
        if K != 0:
            kw['h'] = case['h']
    if K == 0 and case['Omega_K0'] is not None:
        kw['Omega_K0'] = case['Omega_K0']
    raw = {n: np.copy(getattr(sol, n)) for n in ('_N', '_logaH', 'H', 'phi', 'x', 'y', 'inflation_mask')}
    ends = (sol._N_beg, sol._N_end, sol.V_end, sol.H_end, sol.N_tot)
    hor = calib.HubbleRadius(c, sol._N_end)
    # where the pivot scale ought to be
    if method == 'reheating':
        # ln(a0/a_end) from entropy conservation after reheating and dilution during it
        rho_end = 1.5 * sol.V_end
        if case['reh'] == 'w+rho':
            DN = np.log(rho_end / C.rho_from_GeV(kw['rho_reh_GeV'])) / 3 / (1 + case['w'])
        else:
            DN = case['DN']
        m1 = DN * (1 - 3 * case['w']) / 4 if case['reh'] == 'w+N' or case['reh'] == 'w+rho' or 'DeltaN_minus1' in kw else 0.
        lna0 = C.ln_a0_over_areh(rho_end, case['g_th']) + m1      # = N0 - N_end
        if K == 0:
            logaH_star = np.log(C.K_STAR_LP) + lna0 + sol._N_end
            off = -lna0 - sol._N_end
            a0_lp = 1.
        else:
            a0_lp = np.exp(sol._N_end + lna0)
            off = 0.
    elif method == 'Omega_K0':
        a0_lp = C.C_KMS / (100 * case['h']) / np.sqrt(abs(case['Omega_K0'])) * C.MPC_M / C.L_P
        off = 0.
    else:
        x = sol._N_end - kw['N_star']
        logaH_star = hor(x)
        a0_lp = 1.
        off = np.log(C.K_STAR_LP) - logaH_star
    if K != 0:
        logaH_star = np.log(C.K_STAR_LP * a0_lp)
    m = raw['inflation_mask']
    inside = sol._logaH[m].min() + 1e-9 < logaH_star < sol._logaH[m].max() - 1e-9
    clear_out = logaH_star < min(sol._logaH_beg, sol._logaH[m].min()) - 1e-6 or logaH_star > max(sol._logaH_end, sol._logaH[m].max()) + 1e-6
    args = [] if case['method'] is None else [method]
    if not inside:
        if clear_out:
            ctx.raises(InsufficientInflationError, lambda: calib.quiet(cal, *args, **kw),
                       'pivot scale not within inflation (logaH*=%s, range %s..%s)' % (logaH_star, sol._logaH_beg, sol._logaH_end))
            ctx.label('rejected: pivot outside inflation')
            ctx.nt()
        return
    if method == 'N_star' and (x <= raw['_N'][m][0] or x >= raw['_N'][m][-1]):
        return      # between the start or end of inflation and the first or last step inside
    try:
        calib.quiet(cal, *args, **kw)
    except TypeError as e:
        # the slow-roll expansion is not positive at the pivot: only next to the start or the end of inflation
        Nc = raw['_N'][m][np.argmin(np.abs(raw['_logaH'][m] - logaH_star))]
        if 'Invalid input data' in str(e) and min(sol._N_end - Nc, Nc - sol._N_beg) < 3:
            raise Inconclusive('slow-roll expansion fails at the pivot')
        raise
    except IndexError:
        # ... or nowhere positive in a short period of inflation that starts in kinetic domination
        if case['ic'] == 'KD' and sol.N_tot < 8:
            raise Inconclusive('slow-roll expansion fails throughout')
        raise
    ctx.label('method ' + method, 'reh ' + case['reh'] if method == 'reheating' else 'direct')
    # untouched inputs
    for n, v in raw.items():
        if n != 'inflation_mask':
            ctx.check(np.array_equal(getattr(sol, n), v, equal_nan=True), 'calibration changed %s' % n)
    ctx.check(ends == (sol._N_beg, sol._N_end, sol.V_end, sol.H_end, sol.N_tot), 'calibration changed the ends of inflation')
    # pivot scale crossing
    nodes = raw['_N'][m]
    tol = 1.5 * hor.linear_error(nodes, float(sol._N_cross)) + 1e-6
    ctx.check(nodes[0] <= sol._N_cross <= nodes[-1], 'crossing outside inflation')
    ctx.close(float(sol._logaH_star), float(hor(float(sol._N_cross))), 0, tol, 'aH at the reported crossing of the pivot scale')
    if method == 'N_star':
        ctx.check(sol.N_star == kw['N_star'], 'N_star')
        ctx.close(float(sol._logaH_star), logaH_star, 0, tol, 'pivot scale at the requested N_star')
        ctx.close(float(sol.H_star), np.exp(float(hor(x)) - x), tol, 0, 'H at the crossing')
        btol = tol
    else:
        ctx.close(float(sol._logaH_star), logaH_star, 1e-11, 1e-9, 'pivot scale')
        btol = 1e-8
    ctx.close(sol.N_star, sol._N_end - sol._N_cross, 1e-12, 1e-11, 'N_star = N_end - N_cross')
    ctx.close(sol.N_dagg, sol._N_cross - sol._N_beg, 1e-11, 1e-10, 'N_dagg = N_cross - N_beg')
    ctx.close(sol.N_dagg + sol.N_star, sol.N_tot, 1e-11, 1e-10, 'N_dagg + N_star = N_tot')
    # scale factor today
    ctx.close(sol.a0, a0_lp, 1e-9, 0, 'a0')
    ctx.close(sol.N0, np.log(a0_lp), 1e-11, 1e-9, 'N0')
    # one constant shift
    ctx.close(float(sol.delta_N_calib), off, 1e-11, btol, 'calibration shift of the e-folds')
    d = float(sol.delta_N_calib)
    for n in ('N_beg', 'N_end', 'N_cross', 'N'):
        ctx.close(getattr(sol, n), getattr(sol, '_' + n) + d, 1e-12, 1e-10, 'calibrated ' + n)
    ctx.close(sol.N_reh, sol._N_reh + d, 1e-12, 1e-10, 'calibrated N_reh')
    # wavenumbers: k = aH of the point, in 1/Mpc with today's scale factor
    mask = sol.inflation_mask
    want_mask = raw['inflation_mask']
    ctx.check(np.all(~mask | want_mask), 'reported wavenumbers outside of inflation')
    ctx.check(np.sum(want_mask) - np.sum(mask) <= len(raw['_N']) - len(np.unique(raw['_logaH'])) + 1, 'wavenumbers left out: %d of %d' % (np.sum(mask), np.sum(want_mask)))
    aH = raw['_N'] + np.log(raw['H'])
    a0_Mpc = a0_lp * C.L_P / C.MPC_M
    if K != 0:
        logk = aH - np.log(a0_Mpc)
    else:
        logk = aH - logaH_star + np.log(C.K_STAR)
        a0_Mpc = np.exp(logaH_star) / C.K_STAR
    ctx.close(sol.logk, logk[mask], 1e-11, btol + 1e-9, 'ln k')
    ctx.close(sol.k_iMpc, np.exp(logk[mask]), btol + 1e-8, 0, 'k in 1/Mpc')
    if hasattr(sol, '_k'):
        ctx.close(sol._k, np.exp(aH[mask]), 1e-9, 0, 'k in units of the uncalibrated aH')
    ctx.close(sol.a0_Mpc, a0_Mpc, btol + 1e-9, 0, 'a0 in Mpc')
    # comoving Hubble horizon
    ctx.close(sol.cHH_Mpc, np.exp(-logk), btol + 1e-8, 0, 'comoving Hubble horizon in Mpc')
    ctx.close(sol.cHH_end_Mpc, np.exp(-(float(sol._N_end + np.log(sol.H_end)) - (aH - logk)[0])), btol + 1e-8, 0, 'horizon at the end of inflation')
    ctx.close(sol.cHH_Mpc[mask] * sol.k_iMpc, 1., btol + 1e-9, 0, 'horizon times wavenumber')
    # curvature today
    if K == 0:
        ctx.check(sol.Omega_K0 == 0 and sol.a0 == 1 and sol.N0 == 0, 'flat universe: a0, N0, Omega_K0')
    else:
        H0 = 100 * case['h'] / C.C_KMS            # 1/Mpc
        ctx.close(sol.Omega_K0, -K / (a0_Mpc * H0)**2, 1e-9, 0, 'Omega_K0')
        if method == 'Omega_K0':
            ctx.check(sol.Omega_K0 == case['Omega_K0'], 'Omega_K0 as requested')
    ctx.nt()


# ------------------------------------------------------------------ forward/backward split
@st.composite
def split_case(draw):
    c = draw(calib.long_background(Ks=(0,), ics=('IS',), Nmin=20.))
    c['fstar'] = draw(uni(0.3, 0.9))
    c['reh'] = draw(pick('none', 'rho', 'w'))
    c['back'] = draw(uni(0.02, 0.25))
    c['off'] = draw(pick(None, None, 1e-9, 1.))
    return c


def split_body(case, ctx):
    from primpy.events import InflationEvent
    from primpy.solver import solve
    c, eq, fw = calib.solve_background(case)
    N_star = float('%.9g' % (case['fstar'] * fw.N_tot))
    kw = {'none': {}, 'rho': {'rho_reh_GeV': 1e6}, 'w': {}}[case['reh']]
    calib.quiet(fw.calibrate_scale_factor, N_star=N_star, **kw)
    x0 = c['t_i'] if case['form'] == 't' else c['N_i']
    eqb, icb = S.make(c, case['form'], x_end=float(x0 - case['back'] / (c['H_i'] if case['form'] == 't' else 1)))
    bw = solve(icb, events=[InflationEvent(eqb, +1, terminal=False), InflationEvent(eqb, -1, terminal=True)])
    if bw.sol is None and not np.isfinite(bw.N_tot):
        raise Inconclusive('start of inflation not noticed backwards')
    ctx.label('form ' + case['form'], 'reh ' + case['reh'])
    cal = bw.calibrate_scale_factor
    if case['off']:
        ctx.raises(ValueError, lambda: cal(N_star=N_star + case['off'], background=fw), 'N_star other than that of the background')
        ctx.raises(ValueError, lambda: cal(background=fw), 'background without N_star')
    calib.quiet(cal, N_star=N_star, background=fw)
    for n in ('N_star', '_N_cross', '_N_end', '_N_reh', '_logaH_star', 'delta_N_calib', 'N_end', 'N_cross', 'N_reh', 'a0_Mpc', 'a0', 'N0'):
        ctx.close(float(getattr(bw, n)), float(getattr(fw, n)), 1e-13, 0, n + ' copied from the forward solution')
    ctx.close(bw.N, bw._N + float(fw.delta_N_calib), 1e-12, 1e-10, 'calibrated e-folds')
    ctx.close(bw.cHH_Mpc, np.exp(-(bw._N + np.log(bw.H) + float(fw.delta_N_calib))) * C.L_P / C.MPC_M, 1e-9, 0, 'comoving Hubble horizon')
    ctx.close(bw.cHH_Mpc[0], fw.cHH_Mpc[0], 1e-10, 0, 'comoving Hubble horizon where the pieces join')
    ctx.nt()


SUBS = [Sub('calibration', case_strategy, body, 800, 24000, shards=(8, 8), case_timeout=20),
        Sub('split', split_case, split_body, 60, 2000, shards=(2, 8), case_timeout=20)]
