"""C09: reheating parameters obey dilution and entropy conservation, however they are specified."""
import warnings
import numpy as np
from hypothesis import strategies as st
from core import Sub, Inconclusive
from gen import uni, pick, logu, unit
import calib
import const as C
import pots
import setups as S

RULE = ('non-trivial: a calibration with determined reheating (or determined agnostic shift) was compared with the relations and '
        'with at least one other way of asking for it, or a contradictory request was rejected; distinct = distinct requests')
ASSUMPTIONS = ['energy density at the end of inflation is 3/2 V_end', 'backgrounds with 65-95 e-folds so that the pivot scale lies inside',
               'N_star together with calibration_method="reheating" in flat universes, and DeltaN_minus1 with w_reh and DeltaN_reh in '
               'curved ones, are not decided (documentation silent)']
NAMES = ('DeltaN_reh', 'w_reh', 'rho_reh_GeV', 'DeltaN_minus1', 'N_end', 'N_reh', 'N_star', 'N0', '_N_cross', 'N_cross')


@st.composite
def case_strategy(draw):
    c = draw(calib.long_background(Nmin=66., Nmax=95., features=False, Ks=(0, 0, 0, 1, -1),
                                   classes=[m for m in S.SMOOTH if m not in ('NaturalPotential',) and not m.startswith('Double')]))
    K = c['K']
    c['h'] = draw(uni(0.4, 1.))
    c['g_th'] = draw(st.one_of(st.none(), uni(3., 1000.)))
    c['way'] = draw(pick('none', 'w+N', 'w+N', 'w+rho', 'm1', 'm1+rho', 'star', 'star+rho', 'star+w') if K == 0 else
                    pick('none', 'w+N', 'w+rho', 'w+rho', 'Ok', 'Ok+rho', 'Ok+rho'))
    c['w'] = draw(st.one_of(uni(-1 / 3, 1.), pick(0., -1 / 3, 1., 0.25, 0.5), uni(-1 / 3, 1.), uni(0.331, 0.336)))
    c['DN'] = draw(st.one_of(logu(1e-3, 30.), uni(1., 12.)))
    c['N_star'] = draw(uni(40., 64.))
    c['Omega_K0'] = -K * draw(logu(1e-5, 0.2))
    c['logrho'] = draw(uni(-3., 17.))
    c['bad'] = draw(pick(*[None] * 6 + [0, 1, 2, 3, 4, 5, 6, 7, 8]))
    c['u'] = draw(unit())
    return c


def request(way, case, v):
    """Keyword arguments for one way of asking; v holds the values."""
    K = case['K']
    kw = {} if case['g_th'] is None else {'g_th': case['g_th']}
    if K != 0:
        kw['h'] = case['h']
    if way.startswith('star'):
        kw.update(calibration_method='N_star', N_star=v['N_star'])
    elif way.startswith('Ok'):
        kw.update(calibration_method='Omega_K0', Omega_K0=v['Omega_K0'])
    else:
        kw['calibration_method'] = 'reheating'
    if way in ('w+N', 'w+rho', 'star+w'):
        kw['w_reh'] = v['w_reh']
    if way == 'w+N':
        kw['DeltaN_reh'] = v['DeltaN_reh']
    if way.endswith('rho'):
        kw['rho_reh_GeV'] = v['rho_reh_GeV']
    if way.startswith('m1'):
        kw['DeltaN_minus1'] = v['DeltaN_minus1']
    return kw


def relations(sol, g_th, ctx, what, full=True, agnostic=True):
    rho_end = 1.5 * sol.V_end
    if agnostic:
        ctx.close(sol.N0 - sol.N_end, C.ln_a0_over_areh(rho_end, g_th) + sol.DeltaN_minus1, 1e-11, 1e-9,
                  what + ': e-folds from the end of inflation to today')
    if not full:
        for n in ('DeltaN_reh', 'w_reh', 'rho_reh_GeV', '_N_reh', 'N_reh') + (() if agnostic else ('DeltaN_minus1',)):
            ctx.check(np.isnan(getattr(sol, n)), '%s: %s=%s although reheating is not determined' % (what, n, getattr(sol, n)))
        return
    rho = C.rho_from_GeV(sol.rho_reh_GeV)
    DN, w = sol.DeltaN_reh, sol.w_reh
    ctx.close(sol.rho_reh_mp4, rho, 1e-9, 0, what + ': density at the end of reheating in Planck units')
    ctx.close(np.log(rho / rho_end), -3 * (1 + w) * DN, 1e-10, 1e-9, what + ': dilution during reheating')
    ctx.close(sol.N_reh - sol.N_end, DN, 1e-11, 1e-10, what + ': end of reheating')
    ctx.close(sol._N_reh - sol._N_end, DN, 1e-11, 1e-10, what + ': end of reheating (uncalibrated)')
    ctx.close(sol.N0 - sol.N_reh, C.ln_a0_over_areh(rho, g_th), 1e-11, 1e-9, what + ': entropy conservation since reheating')
    ctx.close(sol.DeltaN_minus1, DN * (1 - 3 * w) / 4, 1e-10, 1e-9, what + ': agnostic shift')


def body(case, ctx):
    from primpy.exceptionhandling import InsufficientInflationError, PrimpyWarning
    K = case['K']
    c, eq, sol = calib.solve_background(case)
    if sol.N_tot < 66:
        raise Inconclusive('too short')
    g_th = 100. if case['g_th'] is None else case['g_th']
    cal = lambda **kw: calib.quiet(sol.calibrate_scale_factor, **kw)
    ctx.label('K=%d' % K)
    rho_end = 1.5 * sol.V_end
    if case['bad'] is not None:
        base = {'calibration_method': 'reheating'}
        if K != 0:
            base['h'] = case['h']
        w = case['w'] if case['w'] != 1 / 3 else 0.2
        DN = case['DN']
        E = ValueError
        bads = [dict(w_reh=w, DeltaN_reh=-DN), dict(w_reh=-1 / 3 - 1e-6 - case['u'], DeltaN_reh=DN), dict(w_reh=w), dict(DeltaN_reh=DN),
                dict(rho_reh_GeV=1e9), dict(w_reh=w, DeltaN_reh=DN, rho_reh_GeV=1e9), dict(w_reh=1 / 3, DeltaN_reh=DN),
                dict(w_reh=w, DeltaN_reh=0), dict(w_reh=1 / 3, rho_reh_GeV=1e9), dict(DeltaN_reh=0, rho_reh_GeV=1e9),
                dict(DeltaN_minus1=0, w_reh=w), dict(DeltaN_reh=DN, rho_reh_GeV=1e9)]
        if K == 0:
            bads += [dict(calibration_method='N_star', N_star=case['N_star'], **k) for k in (
                dict(w_reh=1 / 3), dict(w_reh=w, rho_reh_GeV=1e9), dict(DeltaN_reh=DN), dict(w_reh=w, DeltaN_reh=DN),
                dict(w_reh=-1 / 3 - 1e-6 - case['u']))]
            bads += [dict(DeltaN_minus1=0.3, w_reh=w, E=NotImplementedError), dict(DeltaN_minus1=0.3, DeltaN_reh=DN, E=NotImplementedError)]
        b = bads[(case['bad'] * 3 + int(case['u'] * 2.99)) % len(bads)]
        E = b.pop('E', ValueError)
        ctx.raises(E, lambda: cal(**dict(base, **b)), 'contradictory request %s' % b)
        ctx.label('rejected')
        ctx.nt()
        return
    # ------------------------------------------------------------ an accepted request
    way = case['way']
    v = {'w_reh': case['w'], 'DeltaN_reh': case['DN'], 'DeltaN_minus1': case['DN'] * (1 - 3 * case['w']) / 4, 'N_star': case['N_star'],
         'Omega_K0': case['Omega_K0']}
    v['rho_reh_GeV'] = float('%.12g' % ((rho_end * np.exp(-3 * (1 + case['w']) * case['DN']))**0.25 * C.GEV_P))
    if way in ('star+rho', 'Ok+rho'):
        v['rho_reh_GeV'] = 10.**case['logrho']
    if way == 'm1+rho' and case['u'] < 0.5:
        v['DeltaN_minus1'] += case['u'] - 0.25          # an equation of state of its own
    kw = request(way, case, v)
    if way == 'none' and case['u'] < 0.8:
        # all the ways of asking for instant reheating
        kw.update([{'w_reh': 1 / 3}, {'DeltaN_reh': 0}, {'w_reh': 1 / 3, 'DeltaN_reh': 0.}, {'DeltaN_minus1': 0}][int(case['u'] * 5)])
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter('always')
        try:
            sol.calibrate_scale_factor(**kw)
        except InsufficientInflationError:
            if way.startswith('star'):
                raise
            raise Inconclusive('pivot outside')
        except ValueError as e:
            if way == 'star+w' and 'DeltaN_reh must be positive' in str(e):
                need = 4 * (-case['N_star'] - np.log(C.K_STAR_LP / sol.H_star) - C.ln_a0_over_areh(rho_end, g_th)) / (1 - 3 * case['w'])
                ctx.check(need < 1e-9, 'N_star=%s, w_reh=%s rejected although DeltaN_reh=%s' % (case['N_star'], case['w'], need))
                ctx.label('rejected: negative duration')
                ctx.nt()
                return
            raise
    ctx.label('way ' + way)
    # the request itself
    for n in ('w_reh', 'DeltaN_reh', 'rho_reh_GeV', 'DeltaN_minus1', 'N_star', 'Omega_K0'):
        if n in kw:
            ctx.close(getattr(sol, n), kw[n], 1e-12, 1e-14, 'requested ' + n)
    if way == 'star+w' and 3 * (1 + case['w']) * sol.DeltaN_reh > 500:
        raise Inconclusive('absurd duration, density underflows')
    if way == 'star+w':
        ctx.check(sol.DeltaN_reh > -1e-9, 'N_star=%s, w_reh=%s accepted although reheating would end before inflation does (DeltaN_reh=%s)'
                  % (case['N_star'], case['w'], sol.DeltaN_reh))
    full = way not in ('m1', 'star', 'Ok')
    relations(sol, g_th, ctx, way, full, way != 'Ok')
    if way == 'none':
        ctx.check(sol.DeltaN_reh == 0 and sol.w_reh == 1 / 3 and sol.DeltaN_minus1 == 0, 'instant reheating: w=%s DeltaN=%s' % (sol.w_reh, sol.DeltaN_reh))
    # warnings
    w_ = [str(x.message) for x in wl if isinstance(x.message, PrimpyWarning)]
    if full and abs(sol.DeltaN_reh) > 1e-9 and abs(sol.N_reh - sol.N0) > 1e-9:
        ctx.check(bool(w_) == bool(sol.DeltaN_reh < 0 or sol.N_reh > sol.N0), 'DeltaN_reh=%s, N_reh=%s, N0=%s: warnings %s' % (sol.DeltaN_reh, sol.N_reh, sol.N0, w_))
        if w_:
            ctx.label('warned')
            ctx.check(('negative' in w_[0]) == bool(sol.DeltaN_reh < 0), 'wrong warning: %s' % w_[0])
    elif not full:
        ctx.check(not w_, 'warning %s although reheating is not determined' % w_)
    first = {n: float(getattr(sol, n)) for n in NAMES if hasattr(sol, n)}
    first['Omega_K0'] = float(sol.Omega_K0)
    if way == 'Ok':
        return
    # ------------------------------------------------------------ and back in through other ways
    DN, w = sol.DeltaN_reh, sol.w_reh
    if not full:
        others = ['m1', 'star']
    elif way == 'none':
        others = ['star', 'm1'] if K == 0 else []
    else:
        if not (DN > 1e-6 and w >= -1 / 3 and abs(w - 1 / 3) > 1e-6):
            ctx.nt()
            return
        others = ['w+N', 'w+rho', 'm1', 'm1+rho', 'star+rho', 'star+w'] if K == 0 else ['w+N', 'w+rho', 'Ok+rho']
    amp = 1 if not full or way == 'none' else (1 + 1 / abs(DN)) * (1 + 1 / abs(1 - 3 * w))
    for o in others:
        if o.startswith('star') and first['N_star'] > sol.N_tot:
            continue
        cal(**request(o, case, first))
        both = [n for n in first if not np.isnan(first[n]) and not np.isnan(getattr(sol, n))]
        if o in ('w+N', 'w+rho', 'm1+rho', 'star+rho', 'star+w', 'Ok+rho'):
            ctx.check({'DeltaN_reh', 'w_reh', 'rho_reh_GeV', 'N_reh'} <= set(both) or not full, '%s after %s: reheating not determined' % (o, way))
        for n in both:
            ctx.close(float(getattr(sol, n)), first[n], 1e-9 * amp, 1e-8 * amp, '%s after asking %s for the outcome of %s' % (n, o, way))
        ctx.label('back via ' + o)
    ctx.nt()
    # ------------------------------------------------------------ instant reheating as a limit
    if way == 'none':
        for o, vals in (('w+N', {'w_reh': case['w'], 'DeltaN_reh': 1e-7}),
                        ('w+rho', {'w_reh': case['w'], 'rho_reh_GeV': first['rho_reh_GeV'] * (1 - 1e-8)})) + \
                       ((('m1', {'DeltaN_minus1': 1e-8}),) if K == 0 else ()):
            if o != 'm1' and case['w'] == 1 / 3:
                continue
            cal(**request(o, case, vals))
            for n in ('N_end', 'N_star', 'N0', '_N_cross', 'DeltaN_minus1'):
                ctx.close(float(getattr(sol, n)), first[n], 1e-7, 3e-7, '%s in the limit of instant reheating (%s)' % (n, o))


SUBS = [Sub('reheating', case_strategy, body, 1000, 24000, shards=(8, 8), case_timeout=20)]
