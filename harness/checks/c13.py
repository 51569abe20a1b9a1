"""C13: power spectra of the oscillatory solver against a direct integration of the mode equation, and invariances of the call."""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp
from core import Sub, Inconclusive
from gen import uni, pick, logu, unit
import calib
import const as C
import pots
import setups as S

RULE = ('non-trivial: scalar and tensor power of at least one wavenumber compared with the direct integration, or two differently '
        'phrased requests compared; distinct = distinct generated (background, k, vacua, options)')
ASSUMPTIONS = ['backgrounds on 10000 points, so that the linear interpolation inside pyoscode is not the limit',
               'the mode equation itself and the vacuum initial values are decided by C12; here they are evaluated independently',
               'tolerance 2e-3 for rtol=1e-6 (2e-2 where |Omega_K|>2 at the start) and 2e-2 for the default rtol=5e-5 (pyoscode controls local errors only)',
               'scalar modes with k<1 in closed universes: only the documented replacement by 1e-30 is decided',
               'pyoscode 1.1.2 reads beyond its arrays: the harness passes arrays with room behind them']

NPTS = 10000


@st.composite
def base_case(draw, Ks=(0, 0, 1, -1), features=True):
    c = draw(S.background(features=features, ics=('IS', 'SR'), Nmin=22., Nmax=60., Ok=(1e-3, 0.9), Ks=Ks, lam=logu(5e-4, 3e-2)))
    c['form'] = draw(pick('t', 'N'))
    if c['K']:
        c['h'] = draw(uni(0.5, 0.9))
    return c


def background(case, npts=NPTS):
    """Calibrated solution on a fine grid of the independent variable, or Inconclusive."""
    from primpy.solver import solve
    c, eq, s0 = calib.solve_background(case)
    form = case['form']
    eq, ic = S.make(c, form)
    xi = float(s0.x[0])
    xe = float(s0.x[-1])
    te = np.geomspace(xi, xe, npts) if form == 't' else np.linspace(xi, xe, npts)
    if form == 'N' and c['K'] and not case.get('even'):     # finer where curvature matters
        te = np.sort(np.r_[te[::2], np.linspace(xi, min(xi + 6, xe), npts // 2 + 2)[1:-1]])
    if form == 'N' and case.get('even') and np.exp(-2 * xi) / float(s0.H[0])**2 * abs(c['K']) > 2:
        raise Inconclusive('even grid too coarse for a strongly curved start')
    te[0], te[-1] = xi, xe
    sol = solve(ic, events=calib.end_events(eq, c), t_eval=te, rtol=1e-11, atol=1e-15, method='DOP853')
    if not np.isfinite(sol.N_tot) or np.max(np.diff(sol._N)) > 0.2:
        raise Inconclusive('background not resolved')
    try:
        if c['K'] == 0:
            calib.quiet(sol.calibrate_scale_factor, N_star=0.6 * sol.N_tot)
        else:
            m = sol.inflation_mask
            a0_lp = np.exp(sol._logaH[m][0] + 0.5 * (sol._logaH[m][-1] - sol._logaH[m][0])) / C.K_STAR_LP
            calib.quiet(sol.calibrate_scale_factor, Omega_K0=float(-c['K'] * (C.C_KMS / (100 * c['h']) * C.MPC_M / C.L_P / a0_lp)**2), h=c['h'])
    except (TypeError, ValueError, IndexError):
        raise Inconclusive('approximate spectra fail at the pivot')
    return c, eq, sol


def equation(pot, K, k):
    """dp/dN, damping and squared frequency of R, damping and squared frequency of h in e-folds, at (N, phi, p=dphi/dN)."""
    q2 = k * k if K < 1 else k * (k + 2)
    kap = q2 - 3 * K

    def f(N, phi, p):
        e, V, V1, E0 = p * p / 2, pot.V(phi), pot.dV(phi), np.exp(-2 * N)
        H2 = (V / 3 - K * E0) / (1 - e / 3)
        E, u = K * E0 / H2, V1 / H2
        fr = 3 - e + E                        # 3 + dlnH/dN
        pp = -fr * p - u
        # R'' + ...: (p/H-independent) form of the curved Mukhanov-Sasaki equation
        s = kap / (kap + K * e)
        T = e - 3 - u / p - E
        return pp, fr + 2 * s * T, kap * E0 / H2 - E * (1 + 2 * s * T), fr, (q2 + 2 * K) * E0 / H2, H2
    return f


def vacuum(c, pot, k, N, phi, p, H, vac):
    """(R, dR/dN, h, dh/dN) of a vacuum."""
    K = c['K']
    a = np.exp(N)
    E = K / (a * H)**2
    h1 = -p * p / 2 + E                                        # dlnH/dN
    V1, V2 = pot.dV(phi) / H**2, pot.d2V(phi) / H**2
    p1 = -(3 + h1) * p - V1
    h2 = -p * p1 - 2 * E * (1 + h1)
    p2 = -h2 * p - (3 + h1) * p1 - V2 * p + 2 * h1 * V1
    out = []
    for z, l1, l2 in ((a * p, 1 + p1 / p, p2 / p - (p1 / p)**2), (a / 2, 1., 0.)):
        zz = (a * H)**2 * (l2 + l1**2 + (1 + h1) * l1)         # z''/z in conformal time
        w2 = k * k - zz if vac == 'HD' else k * k
        if w2 < 1e-3 * (k * k + abs(zz)):
            return None
        w = np.sqrt(w2)
        u = 1 / np.sqrt(2 * w) / z + 0j
        out += [u, (-1j * w / (a * H) - (0 if vac == 'RST' else l1)) * u]
    return out


class Direct:
    """Direct integration of one mode in e-folds, jointly with the background."""

    def __init__(self, c, pot, k, vac, N0, N1, phi, p, H, dense=False):
        f = equation(pot, c['K'], k)
        v = vacuum(c, pot, k, N0, phi, p, H, vac)
        if v is None:
            raise Inconclusive('vacuum not defined')
        R, dR, h, dh = v

        def rhs(N, y):
            pp, g, w, tg, tw, H2 = f(N, y[0], y[1])
            return [y[1], pp, y[4], y[5], -g * y[4] - w * y[2], -g * y[5] - w * y[3],
                    y[8], y[9], -tg * y[8] - tw * y[6], -tg * y[9] - tw * y[7], 1 / np.sqrt(H2)]
        y0 = [phi, p, R.real, R.imag, dR.real, dR.imag, h.real, h.imag, dh.real, dh.imag, 0.]
        self.s = solve_ivp(rhs, (N0, N1), y0, method='DOP853', rtol=1e-9, dense_output=dense,
                           atol=[1e-12] * 2 + [1e-10 * abs(R)] * 4 + [1e-10 * abs(h)] * 4 + [1e-12 / H])
        if self.s.status != 0 or not np.all(np.isfinite(self.s.y[:, -1])):
            raise Inconclusive('direct integration failed')
        self.k = k
        self.end = self.power(self.s.y[:, -1])

    def power(self, y):
        return self.k**3 / (2 * np.pi**2) * (y[2]**2 + y[3]**2), self.k**3 / np.pi**2 * (y[6]**2 + y[7]**2)

    def along(self, N):
        y = self.s.sol(N)
        return self.power(y) + (y[10],)


def segment(sol, k, fac_beg, fac_end):
    """First and last point of the integration, as documented; None if inflation is too short."""
    x = np.log(k) - sol._logaH
    if fac_beg:
        i = np.where(x > np.log(fac_beg))[0]
        b = i[-1] if i.size else 0
    else:
        b = 0
    i = np.where(-x > np.log(fac_end))[0]
    if not i.size:
        return None
    e = i[0]
    if sol._N[e] - sol._N[b] < 10:
        i = np.where(sol._N - sol._N[b] > 10)[0]
        if not i.size:
            return None
        e = i[0]
    return int(b), int(e)


def pick_k(case, sol):
    """A wavenumber with room until the end of inflation."""
    lo = sol._logaH[0]
    room = sol._logaH[-1] - np.log(case['fac_end']) - 0.5
    if case['fac_beg']:
        top = room
        low = lo - 1.
    else:
        low, top = lo - 1., min(lo + 4.5, room)
    if top < low + 0.5:
        raise Inconclusive('inflation too short')
    k = float(np.exp(low + case['u'] * (top - low)))
    if case['K'] == 1:
        if case.get('integer'):
            k = float(max(3, round(k)))
        elif k < 1.5:
            k = 1.5 + k
    k = float('%.10g' % k)
    return k


def tolerance(rtol):
    return 2e-2 if rtol > 1e-5 else 2e-3


# ------------------------------------------------------------------ against the direct integration
@st.composite
def direct_case(draw):
    c = draw(base_case())
    c['fac_beg'] = draw(pick(0, 0, 20, 100, 35.5))
    c['fac_end'] = draw(pick(None, 100, 300, 1000.))
    c['u'] = draw(unit())
    c['integer'] = draw(st.booleans())
    c['vac'] = draw(pick(None, ['RST'], ['k', 'HD', 'RST'], ['HD', 'k'], ['HD']))
    c['rtol'] = draw(pick(None, 1e-6, 1e-6, 1e-6))
    c['single'] = draw(pick('float', 'np', 'array'))
    c['num'] = draw(pick(0, 0, 40, 150))
    c['even'] = draw(st.booleans())
    c['y0'] = draw(pick(None, None, 'random'))
    c['y'] = draw(st.lists(uni(-1.5, 1.5), min_size=4, max_size=4))
    return c


def options(case, sol, lo):
    kw = {'fac_beg': case['fac_beg']}
    if case['fac_end']:
        kw['fac_end'] = case['fac_end']
    if case['rtol']:
        kw['rtol'] = case['rtol']
    if case['num']:
        kw['num_eval'] = case['num']
    if case['even'] and case['form'] == 'N' and np.ptp(np.diff(sol.x)) < 1e-9 * np.max(np.abs(sol.x)):
        kw['even_grid'] = True
    return kw


def direct_body(case, ctx):
    from primpy.oscode_solver import solve_oscode
    c, eq, sol = background(case)
    d = dict(case, fac_end=case['fac_end'] or 100)
    k = pick_k(d, sol)
    seg = segment(sol, k, d['fac_beg'], d['fac_end'])
    if seg is None:
        raise Inconclusive('inflation too short')
    b, e = seg
    if k / np.exp(sol._logaH[b]) > 250:
        raise Inconclusive('too far inside the horizon for a direct integration')
    # pyoscode interpolates ln(omega) linearly: where the squared frequency changes sign the logarithm has no slope
    kw = options(case, sol, k)
    if case['vac'] is not None:
        kw['vacuum'] = tuple(case['vac'])
    if case['y0'] == 'random':
        # another basis of the same solutions, independent in units of the natural rate at the start
        y = case['y']
        if abs(y[0] * y[3] - y[1] * y[2]) > 0.3:
            a = np.exp(sol._N[b])
            rate = max(k / a, float(sol.H[b])) / (float(sol.H[b]) if case['form'] == 'N' else 1.)
            kw['y0'] = (y[0], y[1] * rate, y[2], y[3] * rate)
            ctx.label('other basis')
    arg = {'float': k, 'np': np.float64(k), 'array': np.array([k])}[case['single']]
    out = solve_oscode(sol, arg, **kw)
    vacua = case['vac'] or ['RST']
    pot = pots.build(c['spec'])
    phi, N0 = float(sol.phi[b]), float(sol._N[b])
    E0 = np.exp(-2 * N0)
    if case['form'] == 'N':
        p = float(sol.dphidN[b])
        H = np.sqrt((pot.V(phi) / 3 - c['K'] * E0) / (1 - p * p / 6))
    else:
        v = float(sol.dphidt[b])
        H = np.sqrt((pot.V(phi) + v * v / 2) / 3 - c['K'] * E0)
        p = v / H
    tol = tolerance(case['rtol'] or 5e-5)
    if abs(c['K']) / (np.exp(sol._N[0]) * sol.H[0])**2 > 2:    # resolution limit next to a strongly curved start
        tol = 2e-2
        ctx.label('strongly curved start')
    ctx.label('K=%d' % c['K'], 'form ' + case['form'], 'fac_beg %s' % case['fac_beg'], 'rtol %s' % case['rtol'], 'k/aH %s' % ('<1' if k < np.exp(sol._logaH[b]) else '>1'))
    for vac in vacua:
        try:
            ref = Direct(c, pot, k, vac, N0, float(sol._N[e]), phi, p, H, dense=bool(case['num']))
        except Inconclusive:
            continue
        if case['single'] == 'array':
            got = [float(getattr(out, 'P_%s_%s' % (t, vac))[0]) for t in 'st']
        else:
            got = [float(getattr(out.scalar, 'P_s_%s' % vac)), float(getattr(out.tensor, 'P_t_%s' % vac))]
        for g, w, what in zip(got, ref.end, ('scalar', 'tensor')):
            ctx.close(g, w, tol, 0, '%s power, rtol %s' % (what, case['rtol']))
        if case['num'] and case['single'] != 'array':
            for mode, j, what in ((out.scalar, 0, 's'), (out.tensor, 1, 't')):
                ctx.check(np.size(mode.x_eval) == case['num'], 'dense output on %d points instead of %d' % (np.size(mode.x_eval), case['num']))
                ctx.close(mode.x_eval[[0, -1]], sol.x[[b, e]], 1e-9, 1e-9, 'range of the dense output')
                P = getattr(mode, 'P_%s_%s_eval' % (what, vac))
                if case['form'] == 'N':
                    ctx.close(mode.N_eval - mode.x_eval, np.full(case['num'], float(sol.N[0] - sol._N[0])), 1e-9, 1e-9, 'calibrated e-folds of the dense output')
                Ne = mode.x_eval if case['form'] == 'N' else np.interp(mode.x_eval, sol.x, sol._N)
                sel = slice(1, -1)
                w = ref.along(np.clip(Ne[sel], N0, float(sol._N[e])))[j]
                # a mode oscillates while inside the horizon: phase errors matter at its zeros only
                scale = np.maximum.accumulate(w[::-1])[::-1]
                ctx.close(P[sel], w, tol * 5, tol * 5 * scale, 'dense output of the %s power, rtol %s' % (what, case['rtol']))
            ctx.label('dense output')
        ctx.nt()
    if case['single'] == 'array':
        ctx.check(np.shape(out.k) == (1,), 'wavenumbers of the spectrum')
        ctx.close(out.k_iMpc, k * C.K_STAR / np.exp(float(sol._logaH_star)), 1e-12, 0, 'k in 1/Mpc')


# ------------------------------------------------------------------ invariances of the request
@st.composite
def invariance_case(draw):
    c = draw(base_case())
    c['us'] = draw(st.lists(unit(), min_size=2, max_size=4))
    c['fac_beg'] = draw(pick(0, 40, 100))
    c['perm'] = draw(st.permutations(range(4)))
    c['num'] = draw(pick(10, 100))
    c['small'] = draw(st.booleans())
    c['fe'] = draw(pick(30, 200, 1e3))
    return c


def invariance_body(case, ctx):
    from primpy.oscode_solver import solve_oscode
    c, eq, sol = background(case, 3000)
    K = c['K']
    ks = []
    for u in case['us']:
        try:
            ks.append(pick_k(dict(case, u=u, fac_end=max(100, case['fe'])), sol))
        except Inconclusive:
            pass
    ks = [k for k in ks if segment(sol, k, case['fac_beg'], max(100, case['fe'])) is not None]
    if K == 1 and case['small']:
        ks.append(0.5 * case['us'][0] + 0.2)
        if segment(sol, ks[-1], case['fac_beg'], max(100, case['fe'])) is None:
            ks.pop()
    if not ks:
        raise Inconclusive('inflation too short')
    ks = np.array(ks)
    kw = dict(fac_beg=case['fac_beg'], rtol=1e-6)
    vac = ('k', 'HD', 'RST')
    one = solve_oscode(sol, ks, vacuum=vac, **kw)
    names = ['P_%s_%s' % (t, v) for t in 'st' for v in vac]
    ctx.close(one.k_iMpc, ks * C.K_STAR / np.exp(float(sol._logaH_star)), 1e-12, 0, 'k in 1/Mpc')
    j = sol.inflation_mask.nonzero()[0][::97]
    ctx.close(np.exp(sol._logaH[j]) * C.K_STAR / np.exp(float(sol._logaH_star)), sol.k_iMpc[::97], 1e-8, 0, 'k in 1/Mpc of the calibration')
    for n in names:
        ctx.check(np.shape(getattr(one, n)) == ks.shape, '%s has shape %s' % (n, np.shape(getattr(one, n))))
    # documented replacement in closed universes
    if K == 1:
        for i in np.where(ks < 1)[0]:
            for v in vac:
                ctx.check(getattr(one, 'P_s_' + v)[i] == 1e-30, 'closed universe, k=%s<1: P_s_%s = %s instead of 1e-30' % (ks[i], v, getattr(one, 'P_s_' + v)[i]))
            solo = solve_oscode(sol, ks[i:i + 1], vacuum=('HD',), **kw)
            ctx.check(solo.P_s_HD[0] == 1e-30, 'closed universe, k=%s<1, HD only: P_s_HD = %s instead of 1e-30' % (ks[i], solo.P_s_HD[0]))
            kept = solve_oscode(sol, ks[i:i + 1], vacuum=('k', 'RST'), drop_closed_large_scales=False, **kw)
            ctx.check(not np.any(kept.P_s_RST == 1e-30), 'large scales dropped although drop_closed_large_scales=False')
            ctx.label('closed, k<1')
            ctx.check(not np.any(one.P_t_RST[i] == 1e-30) and not np.any(one.P_t_HD[i] == 1e-30), 'tensor mode k=%s dropped' % ks[i])
        if case['small'] and segment(sol, 1., case['fac_beg'], 100) is not None:
            edge = solve_oscode(sol, np.array([1.]), vacuum=('HD', 'RST'), **kw)
            ctx.check(not (edge.P_s_HD[0] == 1e-30 or edge.P_s_RST[0] == 1e-30), 'closed universe, k=1 dropped')
        for i in np.where(ks >= 1)[0]:
            ctx.check(not np.any(getattr(one, 'P_s_RST')[i] == 1e-30), 'k=%s dropped' % ks[i])
    # order of the wavenumbers
    perm = [i for i in case['perm'] if i < len(ks)]
    other = solve_oscode(sol, ks[perm], vacuum=vac, **kw)
    for n in names:
        ctx.close(getattr(other, n), getattr(one, n)[perm], 1e-12, 0, n + ' of permuted wavenumbers')
    # singly, and each vacuum on its own
    i = perm[0]
    p = solve_oscode(sol, float(ks[i]), vacuum=vac, **kw)
    for n in names:
        ctx.close(getattr(p.scalar if n[2] == 's' else p.tensor, n), getattr(one, n)[i], 1e-12, 0, n + ' of a single wavenumber')
    for v in vac:
        q = solve_oscode(sol, ks[i:i + 1], vacuum=(v,), **kw)
        for t in 'st':
            ctx.close(getattr(q, 'P_%s_%s' % (t, v)), getattr(one, 'P_%s_%s' % (t, v))[i], 1e-12, 0, 'P_%s_%s requested alone' % (t, v))
    q = solve_oscode(sol, ks[i:i + 1], **kw)
    ctx.close([q.P_s_RST[0], q.P_t_RST[0]], [one.P_s_RST[i], one.P_t_RST[i]], 1e-12, 0, 'default vacuum')
    # integers
    if 3 <= ks[i] < 9e15:
        n = int(ks[i])
        b = solve_oscode(sol, float(n), **kw)
        ref = [b.scalar.P_s_RST, b.tensor.P_t_RST]
        if case['num'] == 10:
            a = solve_oscode(sol, n, **kw)
        else:
            try:
                a = solve_oscode(sol, np.int64(n), **kw)
            except TypeError as e:
                ctx.fail('single wavenumber of type np.int64: %s' % e)
        ctx.close([a.scalar.P_s_RST, a.tensor.P_t_RST], ref, 1e-12, 0, 'integer wavenumber %d' % n)
        a = solve_oscode(sol, np.array([n]), **kw)
        ctx.close([a.P_s_RST[0], a.P_t_RST[0]], ref, 1e-12, 0, 'array of the integer wavenumber %d' % n)
        ctx.label('integer > 2e6' if n > 2e6 else 'integer')
    # dense output changes nothing else
    q = solve_oscode(sol, float(ks[i]), vacuum=vac, num_eval=case['num'], **kw)
    for n in names:
        ctx.close(getattr(q.scalar if n[2] == 's' else q.tensor, n), getattr(p.scalar if n[2] == 's' else p.tensor, n), 2e-3, 0, n + ' with dense output')
    # later end
    late = solve_oscode(sol, ks, vacuum=vac, fac_end=case['fe'], **kw)
    for n in names:
        g, w = getattr(late, n), getattr(one, n)
        m = ks >= 1 if K == 1 else slice(None)
        ctx.close(g[m], w[m], 3e-3 if case['fe'] >= 100 else 2e-2, 0, n + ' with another end of the integration')
    ctx.label('K=%d' % K, 'form ' + case['form'])
    ctx.nt()


SUBS = [Sub('direct', direct_case, direct_body, 240, 10000, shards=(8, 8), case_timeout=30),
        Sub('request', invariance_case, invariance_body, 60, 2500, shards=(4, 8), case_timeout=40)]
