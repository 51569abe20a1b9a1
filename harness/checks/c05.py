"""C05: integrated backgrounds against an independent integration; derived arrays and event tables."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, Inconclusive, HarnessError
from gen import uni, pick, logu, unit
import pots
import setups as S

RULE = ('non-trivial: the solution was compared at more than 20 points which span more than one e-fold; distinct = distinct '
        'generated (potential, geometry, initial condition, formulation, method, output)')
ASSUMPTIONS = ['amplitude of the potential Lambda in [1e-3, 1] with the default absolute tolerance 1e-12 of the solver',
               'comparison stops where a collapsing universe has used up its expansion rate (H^2 < 1e-4 rho/3)']
METHODS = ['RK45', 'RK45', 'DOP853', 'LSODA', 'Radau']


@st.composite
def forward_case(draw):
    c = draw(S.background(Nmin=1., Nmax=70.))
    c['form'] = draw(pick('t', 'N'))
    c['method'] = draw(st.sampled_from(METHODS))
    if c['method'] == 'Radau':
        c['Nsr'] = min(c['Nsr'], 12.)
    c['track_time'], c['track_eta'] = draw(st.booleans()), draw(st.booleans())
    c['out'] = draw(pick('steps', 'steps', 'grid', 'dense'))
    c['stop'] = draw(pick('end', 'end', 'after', 'x_end'))
    c['u'] = sorted(draw(st.lists(unit(), min_size=5, max_size=30, unique=True)))
    return c


def derived(eq, sol, K, pot, ctx, form, track):
    """Derived arrays on the solution describe the raw integrator output."""
    x, y = sol.x, sol.y
    ctx.check(sol.independent_variable == {'t': 't', 'N': '_N'}[form], 'independent variable %s' % sol.independent_variable)
    ctx.check(np.array_equal(getattr(sol, sol.independent_variable), x), 'independent variable array differs from sol.x')
    names = {'t': {'phi', 'dphidt', '_N'}, 'N': {'phi', 'dphidN'}}[form] | set(track)
    ctx.check(set(eq.idx) == names, 'tracked variables %s, expected %s' % (sorted(eq.idx), sorted(names)))
    for n, i in eq.idx.items():
        ctx.check(np.array_equal(getattr(sol, n), y[i]), 'array %s is not row %d of sol.y' % (n, i))
    ctx.check(sol.K == K and sol.potential is pot, 'geometry or potential of the solution')
    N, phi = sol._N, sol.phi
    V = np.array([float(pot.V(f)) for f in phi])
    if form == 't':
        d2 = sol.dphidt**2
        H2 = (d2 / 2 + V) / 3 - K * np.exp(-2 * N)
    else:
        # H^2 = (H^2 phi_N^2 / 2 + V) / 3 - K / a^2
        H2 = (V / 3 - K * np.exp(-2 * N)) / (1 - sol.dphidN**2 / 6)
        d2 = H2 * sol.dphidN**2
    scale = np.abs(V / 3) + K**2 * np.exp(-2 * N)
    ok = H2 > 1e-4 * scale
    amp = 1e-13 * (1 + np.abs(N)) * scale / np.abs(H2) + 1e-11
    if form == 'N':
        amp = amp + 1e-13 * 6 / np.abs(6 - sol.dphidN**2)
    ctx.close(sol.H[ok]**2, H2[ok], 2 * amp[ok], 0, 'H^2 from Friedmann')
    w = (d2 / 2 - V) / (d2 / 2 + V)
    ctx.close(sol.w[ok], w[ok], 1e-10, 4 * amp[ok], 'equation of state')
    ctx.close(sol._logaH[ok], N[ok] + np.log(H2[ok]) / 2, 1e-12, amp[ok], 'log aH')
    ctx.close(sol.Omega_K[ok], -K * np.exp(-2 * N[ok]) / H2[ok], 4 * amp[ok], 0, 'Omega_K')
    ctx.close(sol.N_tot, sol._N_end - sol._N_beg, 1e-14, 1e-13, 'N_tot')
    if np.isfinite(sol._N_beg) and np.isfinite(sol._N_end):
        m = (N > sol._N_beg) & (N < sol._N_end)
        ctx.check(np.array_equal(sol.inflation_mask, m), 'inflation mask')
        ins = m & (N > sol._N_beg + 1e-7) & (N < sol._N_end - 1e-7)
        ctx.check(np.all(sol.w[ins] < -1 / 3 + 1e-7), 'point marked as inflating has w=%s' % np.max(sol.w[ins], initial=-1))
    # event tables
    keys = list(sol.event_keys)
    for tab in ('x_events', 'y_events', sol.independent_variable + '_events'):
        ctx.check(list(getattr(sol, tab)) == keys, 'event table %s has keys %s' % (tab, list(getattr(sol, tab))))
    for k in keys:
        xe, ye = sol.x_events[k], sol.y_events[k]
        ctx.check(np.array_equal(getattr(sol, sol.independent_variable + '_events')[k], xe), 'event table of x')
        ctx.check(len(xe) == len(ye), 'event table lengths')
        for n, i in eq.idx.items():
            got = getattr(sol, n + '_events')[k]
            ctx.check(np.array_equal(got, ye[:, i] if len(xe) else np.array([])), 'event table %s[%s]' % (n, k))
    return ok


def compare(sol, ref, ctx, form, track, rtol, ok, dense=False, N=None, y=None, idx=None, eta0=0.):
    Nn = sol._N if N is None else N
    r = ref.at(np.clip(Nn, *sorted((ref.sol.t[0], ref.sol.t[-1]))))
    rho3 = (r['dphidt']**2 / 2 + ref.pot.V(r['phi'])) / 3
    if form == 'N':
        # H^2 = (2 V - 6 K/a^2) / (6 - dphidN^2): ill-conditioned where dphidN^2 comes close to 6 (0/0 when crossing it)
        back = ref.sol.t[-1] < ref.sol.t[0]
        Nr = np.linspace(ref.sol.t[0], ref.sol.t[-1], 4001)
        rr = ref.at(Nr)
        d2 = rr['dphidt']**2 / np.maximum(np.abs(rr['H2']), 1e-300)
        cond = np.maximum.accumulate(np.where((d2 - 6) * (d2[0] - 6) > 0, np.abs(6 / (6 - d2)), np.inf))
        ill = np.interp(Nn, Nr[::-1], cond[::-1]) if back else np.interp(Nn, Nr, cond)
        if back:
            ill = ill * np.exp(6 * (Nr[0] - Nn))
        ok = ok & (ill * rtol < 1e-2)
    ok = ok & (r['H2'] > 1e-4 * rho3) & (Nn <= max(ref.sol.t[0], ref.sol.t[-1]) + 1e-9)
    if np.sum(ok) == 0:
        return 0
    amp = rho3[ok] / r['H2'][ok]
    get = (lambda n: getattr(sol, n)[ok]) if y is None else (lambda n: y[idx[n]][ok])
    r = {k: v[ok] for k, v in r.items()}
    t = rtol * np.minimum(amp, 1e3)
    if form == 'N':
        t = t * ill[ok]
    L = np.abs(r['phi']) + 1
    # explicit Runge-Kutta steps at their limit of stability on the attractor: single steps overshoot and decay again
    v, rv = (get('dphidt'), r['dphidt']) if form == 't' else (get('dphidN'), r['dphidt'] / r['H'])
    blip = ~(np.abs(v - rv) <= t * np.abs(rv) + t * (r['H'] if form == 't' else 1))
    if np.sum(blip) <= 0.08 * blip.size:
        t = np.where(blip, 100 * t, t)
    ctx.close(get('phi'), r['phi'], 0, t * L, 'phi')
    if form == 't':
        ctx.close(get('dphidt'), r['dphidt'], t, t * r['H'] + 3e-11, 'dphidt')
    else:
        ctx.close(get('dphidN'), r['dphidt'] / r['H'], t, t, 'dphidN')
    if y is None:
        ctx.close(sol.H[ok], r['H'], t, 3e-11, 'H')
    if 't' in track or form == 't':
        tt = sol.x[ok] if form == 't' and y is None else (get('t') if form == 'N' else None)
        if tt is not None:
            ctx.close(tt - ref.case['t_i'], r['t'] - ref.case['t_i'], t * 3, 1e-12 * ref.case['t_i'] + t / r['H'] + 1e-9, 't')
    if 'eta' in track:
        ctx.close(get('eta') - ref.case['eta_i'], r['eta'] - ref.case['eta_i'], t * 3,
                  3e-11 + t * np.exp(-r['N']) / r['H'], 'eta')
    return int(np.sum(ok))


def forward(case, ctx):
    from primpy.events import AfterInflationEndEvent, InflationEvent, CollapseEvent
    form = case['form']
    c = S.finish(case, form)
    pot = pots.build(c['spec'])
    after = case['stop'] == 'after'
    ref = S.Reference(c, pot=pot)
    if after and ref.N_end is not None:
        end = ref.N_end
        ref = S.Reference(c, pot=pot, until_end=False, N_end=end + 0.35)
        ref.N_end = end
    track = [n for n in ('t', 'eta') if case['track_' + {'t': 'time', 'eta': 'eta'}[n]] and not (form == 't' and n == 't')]
    kw = dict(track_eta=case['track_eta'], pot=pot)
    if form == 'N':
        kw['track_time'] = case['track_time']
    rtol = 2e-6
    if case['method'] == 'Radau':
        kw.update(rtol=1e-8, atol=1e-11)
        rtol = 2e-4
    elif case['method'] == 'LSODA':
        rtol = 2e-5
    Nstop = None
    eternal = ref.N_end is None and not ref.collapsed
    if case['stop'] == 'x_end' or case['out'] == 'grid' or eternal:
        frac = 0.9 if not ref.collapsed else 0.5
        Nstop = c['N_i'] + (60. if eternal else frac * (ref.N_last - c['N_i']))
        if after and not eternal:
            Nstop = min(Nstop, c['N_i'] + 0.9 * case['Nsr'])
        kw['x_end'] = Nstop if form == 'N' else float(ref.at(Nstop)['t'])
    if case['out'] == 'grid':
        Ng = np.unique(c['N_i'] + np.array(case['u']) * (Nstop - c['N_i']))
        xg = Ng if form == 'N' else np.unique(np.clip(ref.at(Ng)['t'], c['t_i'], kw['x_end']))
        kw['t_eval'] = xg
    if case['out'] == 'dense':
        kw['dense_output'] = True

    def events(eq):
        ev = [InflationEvent(eq, direction=+1), InflationEvent(eq, direction=-1, terminal=not after), CollapseEvent(eq)]
        return ev + ([AfterInflationEndEvent(eq)] if after else [])
    try:
        eq, ic, sol = S.run(c, form, events, method=case['method'], **kw)
    except ValueError as e:
        if case['method'] == 'LSODA' and 'different signs' in str(e):
            # scipy: LSODA's interpolation is not exact at the start, where an event sits exactly at its root
            raise Inconclusive(str(e))
        raise
    ctx.label(c['spec']['cls'], 'K=%d' % c['K'], c['ic'], 'form ' + form, case['method'], case['out'], case['stop'],
              'collapsed' if ref.collapsed else 'eternal' if eternal else 'no collapse')
    if not sol.success and not ref.collapsed:
        if case['method'] == 'RK45' and 'step size' not in sol.message:
            ctx.fail('solver failed: %s' % sol.message)
        ctx.label('solver failed')
        raise Inconclusive(sol.message)
    ok = derived(eq, sol, c['K'], pot, ctx, form, track)
    if case['out'] == 'grid':
        want = xg[:len(sol.x)] if sol.status == 1 else xg
        ctx.check(np.array_equal(sol.x, want), 'output grid was not used')
    if after:
        ok = ok & (sol._N <= (ref.N_end if ref.N_end is not None else c['N_i'] + 200) + 0.3)
    n = compare(sol, ref, ctx, form, track, rtol * (100 if case['out'] == 'grid' else 1), ok)
    Nfirst, Nlast = sol._N[0], sol._N[ok][-1] if np.any(ok) else sol._N[0]
    if case['out'] != 'grid':
        ctx.check(abs(sol._N[0] - c['N_i']) < 1e-12 * (1 + abs(c['N_i'])), 'first point is not the initial condition')
        # the whole range is covered
        want = Nstop if Nstop is not None else (ref.N_end if ref.N_end is not None else None)
        if want is not None and not ref.collapsed:
            ctx.check(sol._N[-1] > want - 1e-3, 'trajectory stops at N=%s, expected %s' % (sol._N[-1], want))
    if case['out'] == 'dense':
        xs = sol.x[0] + np.array(case['u']) * (sol.x[ok][-1] - sol.x[0]) if np.any(ok) else np.array([sol.x[0]])
        yd = sol.sol(xs)
        Nd = xs if form == 'N' else yd[eq.idx['_N']]
        if after and ref.N_end is not None:
            m = Nd <= ref.N_end
        else:
            m = np.ones(len(Nd), bool)
        # interpolation between steps is of lower order than the steps
        n += compare(sol, ref, ctx, form, track, 100 * rtol, m, N=Nd, y=yd, idx=eq.idx)
    ctx.nt(n > 20 and abs(Nlast - Nfirst) > 1 or case['out'] == 'grid' and n >= 5)


@st.composite
def backward_case(draw):
    c = draw(S.background(ics=('IS',), Nmin=2., Nmax=70., Ok=(1e-4, 0.7)))
    c['form'] = draw(pick('t', 'N'))
    c['method'] = draw(pick('RK45', 'DOP853'))
    c['track_time'], c['track_eta'] = draw(st.booleans()), draw(st.booleans())
    c['dN'] = draw(uni(0.2, 2.) if c['form'] == 't' else uni(0.1, 1.))
    c['t_i'] = 1e5
    return c


def backward(case, ctx):
    form = case['form']
    c = S.finish(case, form)
    pot = pots.build(c['spec'])
    ref = S.Reference(c, pot=pot, until_end=False, N_end=c['N_i'] - case['dN'])
    if ref.collapsed:
        ctx.label('bounce in the past')
        return
    Nb = c['N_i'] - case['dN']
    kw = dict(track_eta=case['track_eta'], pot=pot)
    if form == 'N':
        kw['track_time'] = case['track_time']
    track = [n for n in ('t', 'eta') if case['track_' + {'t': 'time', 'eta': 'eta'}[n]] and not (form == 't' and n == 't')]
    x_end = Nb if form == 'N' else float(ref.at(Nb)['t'])
    eq, ic, sol = S.run(c, form, lambda eq: [], method=case['method'], x_end=x_end, **kw)
    ctx.label(c['spec']['cls'], 'K=%d' % c['K'], 'form ' + form, case['method'])
    ctx.check(sol.success, 'backward integration failed: %s' % sol.message)
    ctx.check(abs(sol.x[-1] - x_end) <= 1e-12 * abs(x_end) and abs(sol._N[-1] - Nb) < 1e-5, 'end point %s of backward integration'
              % sol._N[-1])
    ok = derived(eq, sol, c['K'], pot, ctx, form, track)
    n = compare(sol, ref, ctx, form, track, 2e-6 if form == 't' else 1e-8, ok)
    ctx.nt(n > 5 and case['dN'] > 0.2)


SUBS = [Sub('forward', forward_case, forward, 240, 12000, shards=(8, 8)),
        Sub('backward', backward_case, backward, 80, 4000, shards=(2, 4))]
