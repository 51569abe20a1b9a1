"""C11: histories of calibrations, target-n_s requests, queries and perturbation runs on solutions, against fresh solutions."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, Inconclusive
from gen import uni, pick, logu, unit
import calib
import const as C
import setups as S

RULE = ('non-trivial: at least two state-changing requests (calibration, n_s request, choice of method) or one of them and a query '
        'of another method were executed and the state compared with that of a fresh solution; distinct = distinct histories')
ASSUMPTIONS = ['one process, one thread; the background is re-solved with identical input for the fresh solution (bitwise reproducible)',
               'after a rejected calibration the state is only compared once another calibration has been accepted']

METHODS = [('CGS', 0), ('CGS', 1), ('CGS', 2), ('CGS', 3), ('LLMS', 3), ('STE', 3), ('ARBDS', 1), ('ARBDS', 2), ('ARBDS', 3)]


def worker_env(env):
    return dict(env, LD_PRELOAD='/opt/vp/zerotail.so')


@st.composite
def op(draw, K):
    who = draw(pick(0, 0, 0, 1))
    kind = draw(pick('cal', 'cal', 'cal', 'query', 'query', 'query', 'derive', 'ns', 'bad', 'pert'))
    o = {'op': kind, 'who': who}
    if kind == 'cal':
        o['how'] = draw(pick('N_star', 'N_star', 'reheating') if K == 0 else pick('Omega_K0', 'Omega_K0', 'reheating'))
        o['f'] = draw(uni(0.25, 0.9))
        o['reh'] = draw(pick('none', 'rho', 'w', 'w+N', 'w+rho', 'm1', 'm1+rho'))
        o['w'], o['DN'] = draw(uni(-0.3, 1.)), draw(uni(0.01, 20.))
        o['h'] = draw(uni(0.3, 1.2))
        o['g_th'] = draw(pick(None, None, 106.75))
        o['method'] = draw(st.sampled_from([None, None] + METHODS))
    elif kind == 'query':
        o['method'] = draw(st.sampled_from(METHODS + [(None, 3)]))
        o['mode'] = draw(pick('s', 't'))
        o['u'] = draw(uni(-0.3, 1.3))           # also beyond the wavenumbers of the background
        o['ext'] = draw(pick(None, None, 'extrapolate', 'zeros', 'const', 'raise'))
    elif kind == 'derive':
        o['method'] = draw(st.sampled_from(METHODS))
    elif kind == 'ns':
        o['v'] = draw(uni(-0.3, 1.3))
        o['lo'], o['hi'] = draw(pick((20, 90), (25, 50), (30, 60)))
        o['rho'] = draw(pick(None, 1e3, 1e9))
    elif kind == 'bad':
        o['what'] = draw(pick('long', 'geometry', 'method', 'missing', 'reh', 'order'))
    else:
        o['u'] = draw(unit())
        o['vac'] = draw(pick(['RST'], ['k', 'HD', 'RST'], ['HD']))
    return o


@st.composite
def history(draw):
    c = draw(calib.long_background(Ks=(0, 0, 0, 1, -1), Nmin=25., features=True, ics=('SR', 'IS')))
    if draw(st.booleans()) and c['K'] == 0:
        c['Nsr'] = draw(uni(94., 110.))
    first = draw(op(c['K']))
    while first['op'] != 'cal':
        first = draw(op(c['K']))
    c['ops'] = [first] + draw(st.lists(op(c['K']), min_size=2, max_size=9))
    c['xi'] = draw(uni(0.05, 0.95))
    return c


class Skip(Exception):
    """The request cannot be made on this background."""


def cal_kwargs(o, sol, K):
    kw = {}
    if o['method']:
        kw['method'] = o['method'][0]
        if o['method'][0] in ('CGS', 'ARBDS'):
            kw['order'] = o['method'][1]
    if o['g_th']:
        kw['g_th'] = o['g_th']
    rho = float('%.8g' % ((1.5 * sol.V_end * np.exp(-3 * (1 + o['w']) * o['DN']))**0.25 * C.GEV_P))
    how, reh = o['how'], o['reh']
    if K == 0 and how == 'N_star':
        kw['N_star'] = float('%.9g' % (o['f'] * min(sol.N_tot, 90.)))
        if reh in ('rho', 'w+rho', 'm1+rho'):
            kw['rho_reh_GeV'] = rho
        elif reh in ('w', 'w+N'):
            kw['w_reh'] = o['w']
    elif K == 0:
        kw['calibration_method'] = 'reheating'
        if reh in ('w', 'w+N'):
            kw.update(w_reh=o['w'], DeltaN_reh=o['DN'])
        elif reh in ('w+rho', 'rho'):
            kw.update(w_reh=o['w'], rho_reh_GeV=rho)
        elif reh in ('m1', 'm1+rho'):
            kw['DeltaN_minus1'] = o['DN'] * (1 - 3 * o['w']) / 4
            if reh == 'm1+rho':
                kw['rho_reh_GeV'] = rho
    elif how == 'Omega_K0':
        m = sol.inflation_mask
        lo, hi = sol._logaH[m][0], sol._logaH[m][-1]
        a0_lp = np.exp(hi - o['f'] * (hi - lo)) / C.K_STAR_LP
        kw.update(Omega_K0=float('%.9g' % (-K * (C.C_KMS / (100 * o['h']) * C.MPC_M / C.L_P / a0_lp)**2)), h=o['h'])
        if reh in ('rho', 'w+rho'):
            kw['rho_reh_GeV'] = rho
    else:
        kw.update(calibration_method='reheating', h=o['h'])
        if reh in ('w', 'w+N'):
            kw.update(w_reh=o['w'], DeltaN_reh=o['DN'])
        elif reh in ('w+rho', 'rho'):
            kw.update(w_reh=o['w'], rho_reh_GeV=rho)
    return kw


REJECT = (ValueError, TypeError, IndexError, NotImplementedError)


def snapshot(sol):
    out = {}
    for n in list(sol.keys()):
        v = sol[n]
        if isinstance(v, (bool, int, float, complex, np.number, np.ndarray)) and np.asarray(v).dtype.kind in 'biufc':
            out[n] = np.array(v, copy=True)
    if 'logk' in sol and 'logk2logP_s' in sol:
        for n in ('logk2logP_s', 'logk2logP_t'):
            t = sol[n].get_knots()
            x = t[0] + (t[-1] - t[0]) * np.array([1e-3, 0.1, 0.3, 0.5, 0.7, 0.9, 0.999])
            out['*' + n] = np.array([sol[n].derivatives(xi) for xi in x])
    return out


def differences(a, b):
    """Names at which two snapshots differ."""
    bad = []
    for n in sorted(set(a) | set(b)):
        if n not in a or n not in b:
            bad.append('%s (%s)' % (n, 'only after the history' if n in a else 'only in the fresh solution'))
            continue
        x, y = a[n], b[n]
        if x.shape != y.shape:
            bad.append('%s (shape)' % n)
        elif x.dtype.kind == 'b':
            if not np.array_equal(x, y):
                bad.append(n)
        else:
            sc = np.abs(y) if not n.startswith('*') else np.max(np.abs(y), axis=0, keepdims=True)
            ok = (np.abs(x - y) <= 1e-11 * sc + 1e-300) | (x == y) | (np.isnan(x) & np.isnan(y))
            if not np.all(ok):
                i = np.where(~np.ravel(ok))[0][0]
                bad.append('%s: %r instead of %r' % (n, np.ravel(x)[i].item(), np.ravel(y)[i].item()))
    return bad


def apply_state(sol, state):
    """Bring a fresh solution to the state which the history ought to have led to."""
    kind, kw, derive = state
    if kind == 'cal':
        calib.quiet(sol.calibrate_scale_factor, **kw)
    else:
        calib.quiet(sol.set_ns, **kw)
    if derive:
        calib.quiet(sol.derive_approx_power, **derive)


def body(case, ctx):
    from primpy.exceptionhandling import PrimpyError, InsufficientInflationError
    from primpy.oscode_solver import solve_oscode
    rejected = REJECT + (PrimpyError, InsufficientInflationError)
    K = case['K']
    c, eq, a = calib.solve_background(case)
    # a second solution of the same equations object, started elsewhere on the same trajectory
    i = int(np.clip(case['xi'] * np.argmax(a._N > a._N_beg + 0.3 * a.N_tot), 1, a.x.size - 12))
    d = dict(c, ic='KD', phi_i=float(a.phi[i]), N_i=float(a._N[i]), H_i=float(a.H[i]), t_i=float(a.t[i]) if 't' in a else c['t_i'],
             dphidt_i=float(a.dphidt[i] if case['form'] == 't' else a.dphidN[i] * a.H[i]))

    def fresh(which):
        from primpy.solver import solve
        if which == 0:
            return calib.solve_background(case)[2]
        e = S.make(d, case['form'])[0]
        return solve(S.state_ic(e, d, 1e300), events=calib.end_events(e, c))
    from primpy.solver import solve
    b = solve(S.state_ic(eq, d, 1e300), events=calib.end_events(eq, c))
    sols = [a, b]
    if not np.isfinite(b.N_tot):
        sols[1] = None
    state = [None, None]
    snaps = [None, None]
    changes, crossq, compared = 0, 0, 0
    for o in case['ops']:
        w = o['who'] if sols[o['who']] is not None else 0
        s = sols[w]
        kind = o['op']
        if kind == 'cal':
            kw = cal_kwargs(o, s, K)
            try:
                calib.quiet(s.calibrate_scale_factor, **kw)
            except rejected as e:
                g = fresh(w)
                try:
                    calib.quiet(g.calibrate_scale_factor, **kw)
                except rejected as e2:
                    ctx.check(type(e) is type(e2), 'calibration raises %r after the history, %r on a fresh solution' % (e, e2))
                else:
                    ctx.fail('calibration with %s rejected after the history (%r), accepted on a fresh solution' % (kw, e))
                state[w] = snaps[w] = None
                ctx.label('calibration rejected')
                continue
            state[w] = ('cal', kw, None)
            changes += 1
        elif kind == 'ns':
            if K != 0 or state[w] is None or s.N_tot < o['hi'] + 2:
                continue
            g = fresh(w)
            calib.quiet(g.calibrate_scale_factor, N_star=o['lo'])
            f0 = float(g.n_s)
            calib.quiet(g.calibrate_scale_factor, N_star=o['hi'])
            kw = dict(n_s=float('%.8g' % (f0 + o['v'] * (float(g.n_s) - f0))), N_star_min=o['lo'], N_star_max=o['hi'])
            if o['rho']:
                kw['rho_reh_GeV'] = o['rho']
            try:
                calib.quiet(s.set_ns, **kw)
            except rejected as e:
                g = fresh(w)
                try:
                    calib.quiet(g.set_ns, **kw)
                except rejected:
                    pass
                else:
                    ctx.fail('n_s request %s rejected after the history (%r), accepted on a fresh solution' % (kw, e))
                state[w] = snaps[w] = None
                ctx.label('n_s rejected')
                continue
            state[w] = ('ns', kw, None)
            changes += 1
            ctx.label('n_s set')
        elif kind == 'bad':
            try:
                if o['what'] == 'long':
                    calib.quiet(s.calibrate_scale_factor, **(dict(N_star=s.N_tot * 1.5) if K == 0 else dict(Omega_K0=-K * 1e200, h=0.7)))
                elif o['what'] == 'geometry':
                    calib.quiet(s.calibrate_scale_factor, **(dict(N_star=5., Omega_K0=0.1) if K == 0 else dict(Omega_K0=K * 0.1, h=0.7)))
                elif o['what'] == 'method':
                    calib.quiet(s.calibrate_scale_factor, 'bogus', h=0.7)
                elif o['what'] == 'missing':
                    calib.quiet(s.calibrate_scale_factor)
                elif o['what'] == 'reh':
                    calib.quiet(s.calibrate_scale_factor, 'reheating', w_reh=-0.5, DeltaN_reh=1., h=0.7)
                else:
                    calib.quiet(s.set_ns, 5.)
            except rejected:
                pass
            except AttributeError:
                if state[w] is not None:
                    raise
            state[w] = snaps[w] = None
            continue
        elif kind == 'derive':
            if state[w] is None:
                continue
            m, n = o['method']
            kw = dict(method=m, order=n)
            try:
                calib.quiet(s.derive_approx_power, **kw)
            except rejected:
                state[w] = snaps[w] = None
                continue
            state[w] = state[w][:2] + (kw,)
            changes += 1
        elif kind == 'query':
            if state[w] is None:
                continue
            m, n = o['method']
            k = float(np.exp(s.logk[2] + o['u'] * (s.logk[-3] - s.logk[2])))
            before = snapshot(s)
            opt = {} if o.get('ext') is None else {'ext': o['ext']}
            try:
                v = float(calib.quiet(getattr(s, 'P_%s_approx' % o['mode']), k, method=m, order=n, **opt))
            except rejected:
                v = None        # expansion negative almost everywhere: the same on a fresh solution (below)
            bad = differences(snapshot(s), before)
            ctx.check(not bad, 'query of %s%s (%s) changed %s' % (m, n, o['mode'], '; '.join(bad[:4])))
            g = fresh(w)
            apply_state(g, state[w])
            try:
                want = float(calib.quiet(getattr(g, 'P_%s_approx' % o['mode']), k, method=m, order=n, **opt))
            except rejected:
                want = None
            ctx.check((v is None) == (want is None), 'query of %s%s: %s after the history, %s on a fresh solution' % (m, n, v, want))
            if v is not None:
                ctx.close(np.log(v), np.log(want), 1e-11, 1e-11, 'query of %s%s (%s) after the history versus a fresh solution' % (m, n, o['mode']))
            crossq += 1
            compared += 1
            continue
        else:
            if state[w] is None:
                continue
            lo, hi = s._logaH[0], s._logaH[-1]
            lk = lo + 0.5 + o['u'] * (hi - lo - 6.)
            if lk <= lo or hi - lk < 5.5 or s._N[-1] - s._N[0] < 12 or K == 1 and lk < np.log(3.):
                continue
            k = np.array([np.exp(lk)])
            before = snapshot(s)
            g = fresh(w)
            apply_state(g, state[w])
            args = dict(vacuum=tuple(o['vac']), fac_beg=30 if lk - lo > 5 else 0, rtol=5e-4)
            try:
                want = solve_oscode(g, k, **args)
            except IndexError:
                continue        # too little inflation around this wavenumber
            got = solve_oscode(s, k, **args)
            for vac in o['vac']:
                for t in 'st':
                    n = 'P_%s_%s' % (t, vac)
                    ctx.close(getattr(got, n), getattr(want, n), 1e-10, 0, n + ' after the history versus a fresh solution')
            ctx.close(got.k_iMpc, want.k_iMpc, 1e-12, 0, 'k in 1/Mpc after the history versus a fresh solution')
            bad = differences(snapshot(s), before)
            ctx.check(not bad, 'perturbation run changed %s' % '; '.join(bad[:4]))
            ctx.label('perturbation run')
            compared += 1
            continue
        # after a change of state: as on a fresh solution
        g = fresh(w)
        try:
            apply_state(g, state[w])
        except rejected as e:
            ctx.fail('%s accepted after the history but rejected on a fresh solution: %s' % (kind, e))
        now = snapshot(s)
        bad = differences(now, snapshot(g))
        ctx.check(not bad, 'after %s (request %s): %s' % (kind, state[w], '; '.join(bad[:4])))
        snaps[w] = now
        compared += 1
        # and the other solution is not affected
        v = 1 - w
        if sols[v] is not None and snaps[v] is not None:
            bad = differences(snapshot(sols[v]), snaps[v])
            ctx.check(not bad, 'another solution of the same equations changed: %s' % '; '.join(bad[:4]))
    ctx.label('K=%d' % K, 'form ' + case['form'], 'changes %d' % min(changes, 5), 'queries %d' % min(crossq, 4))
    ctx.nt(compared >= 2 and (changes >= 2 or crossq >= 1))


SUBS = [Sub('history', history, body, 240, 8000, shards=(8, 8), case_timeout=60)]
