"""C10: approximate primordial spectra against the published expansions, against exact mode integrations, and as reported."""
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import InterpolatedUnivariateSpline, CubicSpline
from core import Sub, Inconclusive
from gen import uni, pick, logu, unit
import calib
import const as C
import modes
import pots
import setups as S
import slowroll as SR

RULE = ('non-trivial: spectra were formed and compared with the reference values, or a request for n_s was answered and verified; '
        'distinct = distinct generated (background, calibration, method, order) combinations')
ASSUMPTIONS = ['LLMS and ARBDS are expansions around the pivot crossing: their background values may differ from the reference by the '
               'resolution of the solver steps (1.5 times linear versus cubic interpolation)',
               'comparison with exactly integrated modes: flat universes, smooth potentials, slow roll at and around the pivot; the '
               'constants of the neglected order were fixed beforehand (see DESIGN.md)',
               'order 3 of CGS (alpha* = alpha - epsilon_1) and of ARBDS (epsilon_4 = 0, a documented TODO of the code) are accurate to '
               'second order plus part of the third']

METHODS = [('CGS', 0), ('CGS', 1), ('CGS', 2), ('CGS', 3), ('LLMS', 3), ('STE', 3), ('ARBDS', 1), ('ARBDS', 2), ('ARBDS', 3)]


@st.composite
def formula_case(draw):
    c = draw(calib.long_background(Nmin=15.))
    if c['K']:
        c['h'] = draw(uni(0.3, 1.2))
    c['fstar'] = draw(uni(0.1, 0.9))
    c['method'] = draw(st.sampled_from([None] + METHODS + METHODS))
    c['u'] = draw(st.lists(unit(), min_size=3, max_size=3))
    c['solver'] = draw(pick('RK45', 'DOP853', 'DOP853'))
    return c


def flow(sol, mask):
    """H, and e1.. and their relatives at the solver's points, by power series in N from the state alone."""
    pot = sol.potential
    N, phi, H = sol._N[mask], sol.phi[mask], sol.H[mask]
    p0 = sol.dphidt[mask] / H if hasattr(sol, 'dphidt') else sol.dphidN[mask]
    K = sol.K
    n = 4
    p, u = [p0], [[pot.dV(phi) / H**2], [pot.d2V(phi) / H**2], [pot.d3V(phi) / H**2], [0 * H]]
    E = [K * np.exp(-2 * N) / H**2]
    h = [-p0**2 / 2 + E[0]]

    def mul(a, b, k):
        return sum(a[i] * b[k - i] for i in range(k + 1))
    for k in range(n - 1):
        p.append((-3 * p[k] - mul(h, p, k) - u[0][k]) / (k + 1))
        E.append((-2 * E[k] - 2 * mul(h, E, k)) / (k + 1))
        new = [(mul(u[j + 1], p, k) - 2 * mul(h, u[j], k)) / (k + 1) if j < 3 and len(u[j + 1]) > k else None for j in range(3)]
        for j in range(3):
            if new[j] is not None:
                u[j].append(new[j])
        h.append(-mul(p, p, k + 1) / 2 + E[k + 1])
    # fourth derivative of V enters beyond what is needed; u[3] is a placeholder and only used where it does not matter
    e = [-x for x in h]
    e1, de, dde, ddde = e[0], e[1], 2 * e[2], 6 * e[3]
    # deltas from their definition by recursion
    q = series_div(series_der(p), p[:3], 3)                  # p'/p
    d1 = [q[k] + h[k] for k in range(3)]
    d2 = [(k + 1) * d1[k + 1] + mul(h, d1, k) + mul(d1, d1, k) for k in range(2)]
    d3 = d2[1] + 2 * h[0] * d2[0] + d1[0] * d2[0]
    with np.errstate(all='ignore'):
        e2 = de / e1
        de2 = dde / e1 - e2**2
        e3 = de2 / e2
    g2, g3 = de, dde - e1 * de
    return dict(N=N, H=H, e1=e1, e2=e2, e3=e3, d1=d1[0], d2=d2[0], d3=d3, g2=g2, g3=g3)


def series_der(a):
    return [(k + 1) * a[k + 1] for k in range(len(a) - 1)]


def series_div(a, b, n):
    out = []
    for k in range(n):
        out.append((a[k] - sum(b[k - i] * out[i] for i in range(k))) / b[0])
    return out


def at(f, name, N):
    """Value at N and how well the steps resolve it."""
    lin = np.interp(N, f['N'], f[name])
    ok = np.isfinite(f[name])
    j = np.searchsorted(f['N'], N)
    sl = slice(max(0, j - 6), j + 6)
    if np.sum(ok[sl]) < 5 or not np.all(np.diff(f['N'][sl]) > 0):
        return lin, np.inf
    cub = CubicSpline(f['N'][sl], f[name][sl])(N)
    return lin, 1.5 * abs(cub - lin) + 1e-10 * np.max(np.abs(f[name][sl]))


def node_reference(f, method, order):
    """(P_s, P_t) at the nodes for the methods which are evaluated at each wavenumber's own crossing."""
    with np.errstate(all='ignore'):
        if method == 'CGS':
            return SR.cgs_state(f['H'], f['e1'], f['d1'], f['d2'], f['d3'], f['g2'], f['g3'], order)
        return SR.ste(f['H'], f['e1'], f['e2'], f['e3'])


def pivot_reference(f, method, order, N_cross, logk):
    """ln P at logk with an uncertainty, for the expansions around the pivot."""
    x = logk - np.log(C.K_STAR)
    N = N_cross
    if method == 'ARBDS':
        e1, e2 = at(f, 'e1', N)[0], at(f, 'e2', N)[0]
        N = float(np.clip(N + SR.pivot_delay(e1, e2), f['N'][0], f['N'][-1]))
    v = {n: at(f, n, N) for n in ('H', 'e1', 'e2', 'e3')}

    def ev(d):
        a = [v[n][0] + d.get(n, 0.) for n in ('H', 'e1', 'e2', 'e3')]
        if method == 'LLMS':
            return SR.llms(*a, x)
        with np.errstate(all='ignore'):
            return tuple(np.log(q) for q in SR.arbds(*a, x, order))
    base = ev({})
    tol = [1e-9 + 1e-9 * np.abs(b) for b in base]
    for n in v:
        up = ev({n: v[n][1]})
        tol = [t + np.abs(a - b) for t, a, b in zip(tol, up, base)]
    if method == 'ARBDS':
        # the time itself is known to the resolution of e1, e2
        M = N + at(f, 'e1', N_cross)[1] + abs(at(f, 'e1', N_cross)[0]) * at(f, 'e2', N_cross)[1] + 1e-10
        M = min(M, f['N'][-1])
        keep = dict(v)
        v.update({n: at(f, n, M) for n in v})
        up = ev({})
        v.update(keep)
        tol = [t + np.abs(a - b) for t, a, b in zip(tol, up, base)]
    return base, tol


def positive(f, method, order, N_cross, logk):
    """Number of steps at which the expansion is positive (at every order: all orders are formed together)."""
    n = []
    for o in (0, 1, 2, 3) if method == 'CGS' else (1, 2, 3) if method == 'ARBDS' else (3,):
        if method in ('CGS', 'STE'):
            ref = node_reference(f, method, o)
            with np.errstate(all='ignore'):
                n.append(np.sum((ref[0] > 0) & (ref[1] > 0)))
        else:
            base, _ = pivot_reference(f, method, o, N_cross, logk)
            n.append(np.sum(np.isfinite(base[0]) & np.isfinite(base[1])))
    return min(n)


def calibrate(case, sol, **kw):
    if case['K'] == 0:
        N_star = float('%.9g' % (case['fstar'] * sol.N_tot))
        kw.update(N_star=N_star)
    else:
        # a present-day curvature which puts the pivot where wanted
        i = np.where(sol.inflation_mask)[0]
        lo, hi = sol._logaH[i[0]], sol._logaH[i[-1]]
        x = hi - case['fstar'] * (hi - lo)
        a0_lp = np.exp(x) / C.K_STAR_LP
        kw.update(Omega_K0=float('%.9g' % (-case['K'] * (C.C_KMS / (100 * case['h']) * C.MPC_M / C.L_P / a0_lp)**2)), h=case['h'])
    try:
        calib.quiet(sol.calibrate_scale_factor, **kw)
    except (TypeError, ValueError, IndexError):
        Nc = float(sol._N_cross)
        if min(sol._N_end - Nc, Nc - sol._N_beg) < 3:
            raise Inconclusive('slow-roll expansion fails at the pivot')
        m = sol.inflation_mask
        f = flow(sol, m)
        if max(abs(at(f, n, Nc)[0]) for n in ('e1', 'e2', 'e3')) > 0.5:
            raise Inconclusive('slow-roll expansion fails at the pivot')
        lk = sol._logaH[m] + np.log(C.K_STAR) - np.interp(Nc, sol._N[m], sol._logaH[m])
        if positive(f, *(case['method'] or ('CGS', 3)), Nc, lk) < 12:
            raise Inconclusive('slow-roll expansion negative almost everywhere')
        raise


def formula_body(case, ctx):
    c, eq, sol = calib.solve_background(case, method=case['solver'])
    kw = {}
    sel = case['method'] or ('CGS', 3)
    if case['method']:
        kw['method'] = sel[0]
        if sel[0] in ('CGS', 'ARBDS'):
            kw['order'] = sel[1]
    calibrate(case, sol, **kw)
    mask = sol.inflation_mask
    f = flow(sol, mask)
    logk = sol.logk
    if not np.all(np.diff(logk) > 0):
        raise Inconclusive('comoving Hubble horizon not monotonic')
    Nc = float(sol._N_cross)
    ctx.label('K=%d' % case['K'], 'form ' + case['form'], 'selected %s%s' % (sel[0], sel[1] if sel[0] in ('CGS', 'ARBDS') else ''))
    lk0 = np.log(C.K_STAR)
    us = [logk[0] + u * (logk[-1] - logk[0]) for u in case['u']] + [lk0]
    done = False
    for method, order in METHODS:
        name = method + (str(order) if method in ('CGS', 'ARBDS') else '')
        okw = {'order': order} if method in ('CGS', 'ARBDS') else {}
        if positive(f, method, order, Nc, logk) < 12:
            ctx.label('expansion negative almost everywhere')
            continue
        ps = [sol.P_s_approx(sol.k_iMpc, method=method, **okw), sol.P_t_approx(sol.k_iMpc, method=method, **okw)]
        if (method, order) == sel:
            # the arrays that go with k_iMpc, and the spline of logarithms
            for p, what in zip(ps, ('scalar', 'tensor')):
                arr = np.asarray(sol['P_%s_approx' % what])
                ctx.check(arr.shape == np.shape(sol.k_iMpc), 'P_%s_approx has shape %s for %d wavenumbers' % (what, arr.shape, np.size(sol.k_iMpc)))
                with np.errstate(all='ignore'):
                    both = (np.asarray(sol.P_scalar_approx) > 0) & (np.asarray(sol.P_tensor_approx) > 0)
                ctx.close(arr[both], p[both], 1e-8, 0, 'P_%s_approx at k_iMpc (%s)' % (what, name))
                ctx.close(np.asarray(sol['logk2logP_' + what[0]](logk)), np.log(p), 1e-12, 1e-12, 'logk2logP_%s (%s)' % (what[0], name))
        one = [[float(fn(float(np.exp(x)), method=method, **okw)) for x in us] for fn in (sol.P_s_approx, sol.P_t_approx)]
        if method in ('CGS', 'STE'):
            ref = node_reference(f, method, order)
            with np.errstate(all='ignore'):
                pos = (ref[0] > 0) & (ref[1] > 0)
            if np.sum(pos) < 8:
                continue
            amp = np.nanmax(np.abs(np.vstack([f[n] for n in ('d1', 'd2', 'd3', 'g3')])), axis=0)
            tol = 1e-8 * (1 + amp**2)
            # right at a change of sign of the expansion the logarithm has no digits
            lead = SR.leading(f['H'], f['e1'])
            for r, p, what, ld in zip(ref, ps, ('scalar', 'tensor'), lead):
                good = pos & (r > 1e-3 * np.abs(ld)) & np.isfinite(tol)
                ctx.close(np.log(p[good]), np.log(r[good]), 0, tol[good], 'ln P of the %s spectrum %s at the steps' % (what, name))
                lr = np.log(r[pos])
                x0 = logk[pos]
                spl = InterpolatedUnivariateSpline(x0, lr)
                for x, v in zip(us, one['scalar tensor'.split().index(what)]):
                    if not x0[3] < x < x0[-4]:
                        continue
                    j = np.searchsorted(x0, x)
                    if not np.all(np.isin(np.where(pos)[0][j - 3:j + 3], np.where(good)[0])):
                        continue
                    d = abs(spl(x) - np.interp(x, x0, lr))
                    if not d < 1:
                        continue
                    ctx.close(np.log(v), float(spl(x)), 0, 1e-7 + 0.3 * d + 10 * np.max(tol[pos][j - 3:j + 3]), '%s spectrum %s between the steps' % (what, name))
            done = True
        else:
            base, tol = pivot_reference(f, method, order, Nc, logk)
            for r, t, p, what in zip(base, tol, ps, ('scalar', 'tensor')):
                fin = np.isfinite(base[0]) & np.isfinite(base[1])
                good = fin & (np.isfinite(t)) & (t < 0.1)
                if not good.any():
                    continue
                if method == 'ARBDS':
                    # a polynomial in ln k times the leading order: relative digits are lost where it nearly vanishes
                    good &= np.exp(r) > 1e-3 * np.exp(r[np.argmin(np.abs(logk - lk0))])
                ctx.close(np.log(p[good]), r[good], 1e-9, t[good], 'ln P of the %s spectrum %s at the steps' % (what, name))
                j = np.searchsorted(logk, lk0)
                near = slice(max(0, j - 4), j + 4)
                if np.all(good[near]) and 4 <= j <= logk.size - 4:
                    w = 0 if what == 'scalar' else 1
                    got = np.log(one[w][-1])
                    ctx.close(got, float(InterpolatedUnivariateSpline(logk[fin], r[fin])(lk0)), 0, 3 * np.max(t[near]) + 1e-7,
                              '%s spectrum %s at the pivot' % (what, name))
                    done = True
    # reported parameters describe the selected spectra
    name, order = sel
    if name in ('CGS', 'STE'):
        ref = node_reference(f, name, order)
        with np.errstate(all='ignore'):
            pos = (ref[0] > 0) & (ref[1] > 0) & np.isfinite(ref[0])
        x = logk[pos]
        j = np.searchsorted(x, lk0)
        if np.sum(pos) < 12 or not 5 <= j <= x.size - 5 or np.any(np.diff(np.where(pos)[0][j - 5:j + 5]) > 1):
            raise Inconclusive('pivot next to the edge of the approximation')
        spl = [InterpolatedUnivariateSpline(x, np.log(r[pos])) for r in ref]
        d = [s.derivatives(lk0) for s in spl]
        dx = np.min(np.diff(x[j - 5:j + 5]))
        amp = np.nanmax(np.abs(np.vstack([f[n][pos][j - 5:j + 5] for n in ('d1', 'd2', 'd3', 'g3')])))
        noise = 1e-9 * (1 + amp**2) + 1e-9
        tols = [noise, 5 * noise / dx, 30 * noise / dx**2, 200 * noise / dx**3]
        # a spline through noisy nodes a long way off matters less and less, but tiny steps elsewhere do not matter at all
    else:
        b, t = pivot_reference(f, name, order, Nc, lk0 + np.array([-2e-2, -1e-2, 0., 1e-2, 2e-2]))
        if not np.all(np.isfinite(b[0]) & np.isfinite(b[1])) or max(np.max(q) for q in t) > 0.1:
            raise Inconclusive('pivot next to the edge of the approximation')
        if not logk[4] < lk0 < logk[-5]:
            raise Inconclusive('pivot next to the edge of the approximation')
        if name == 'ARBDS' and max(abs(at(f, n, Nc)[0]) for n in ('e1', 'e2', 'e3')) > 0.5:
            raise Inconclusive('slow-roll expansion fails at the pivot')
        pol = [np.polynomial.polynomial.Polynomial.fit(np.array([-2e-2, -1e-2, 0., 1e-2, 2e-2]), q, 4, domain=[-1, 1]) for q in b]
        d = [[float(q[2]), q_.deriv(1)(0.), q_.deriv(2)(0.), q_.deriv(3)(0.)] for q, q_ in zip(b, pol)]
        t0 = max(np.max(q) for q in t)
        # tilt and running come from the same uncertain parameters
        v = {n: at(f, n, Nc)[1] for n in ('e1', 'e2', 'e3')}
        w = 4 * (v['e1'] + v['e2'] + v['e3']) + 1e-8
        res = 1e-4 if name == 'ARBDS' else 1e-8
        ee = 1 + max(abs(at(f, n, Nc)[0]) for n in ('e1', 'e2', 'e3'))
        # ln P of ARBDS is not a cubic: its spline follows it to the resolution of the steps
        j = np.searchsorted(logk, lk0)
        h4 = np.max(np.diff(logk[j - 3:j + 3]))
        eps = (abs(at(f, 'e1', Nc)[0]) + abs(at(f, 'e2', Nc)[0]) + abs(at(f, 'e2', Nc)[0] * at(f, 'e3', Nc)[0])**0.5)
        r4 = 30 * eps**4 if name == 'ARBDS' else 0.
        dx = np.min(np.diff(logk[j - 3:j + 3]))
        tols = [t0 + r4 * h4**4 + 1e-9, w * ee + r4 * h4**3 + 1e-9 + 1e-13 / dx, w * ee + r4 * h4**2 + 1e-7 + 1e-12 / dx**2,
                w * ee + r4 * h4 + 1e-4 + 1e-11 / dx**3]
        del res
    ctx.close(np.log(sol.A_s), d[0][0], 0, tols[0], 'ln A_s of ' + name)
    ctx.close(np.log(sol.A_t), d[1][0], 0, tols[0], 'ln A_t of ' + name)
    ctx.close(sol.n_s, 1 + d[0][1], 0, tols[1], 'n_s of ' + name)
    ctx.close(sol.n_t, d[1][1], 0, tols[1], 'n_t of ' + name)
    ctx.close(sol.n_run, d[0][2], 0, tols[2], 'running of ' + name)
    ctx.close(sol.n_runrun, d[0][3], 0, tols[3], 'running of the running of ' + name)
    ctx.close(sol.r, sol.A_t / sol.A_s, 1e-13, 0, 'r = A_t/A_s')
    if done:
        ctx.nt()


# ------------------------------------------------------------------ exact spectra
@st.composite
def exact_case(draw):
    c = draw(S.background(Ks=(0,), features=False, ics=('SR',), Nmin=45., Nmax=95., lam=logu(1e-3, 1e-2)))
    c['form'] = draw(pick('t', 'N'))
    c['N_star'] = draw(uni(20., 70.))
    c['rtol'] = 1e-12
    return c


# |ln P - ln P_exact| <= const * size^(order+1); fixed from a scan over all potentials, with a margin of 3
LIMIT = {1: 3., 2: 8., 3: 12.}


def exact_body(case, ctx):
    c, eq, sol = calib.solve_background(case, method='DOP853', rtol=1e-12, atol=1e-15)
    if sol.N_tot < case['N_star'] + 9:
        raise Inconclusive('pivot leaves the horizon too early')
    calib.quiet(sol.calibrate_scale_factor, N_star=case['N_star'])
    m = modes.FlatSlowRoll(c, float(sol._N_end))
    N = float(sol._N_end) - case['N_star']
    f0 = [m.flow(N + d) for d in (-4., -2., 0., 2.)]
    size = max(max(abs(f['e1']), abs(f['e2']), abs(f['e3'])) for f in f0)
    if size > 0.15:
        raise Inconclusive('not in slow roll')
    ctx.label('form ' + case['form'], case['spec']['cls'], 'size<0.05' if size < 0.05 else 'size>0.05')
    Ps, Pt = m.spectra(N)
    lim = {o: LIMIT[o] * size**o for o in LIMIT}
    base = 1e-3 if case['form'] == 't' else 3e-4
    for method, order in METHODS:
        okw = {'order': order} if method in ('CGS', 'ARBDS') else {}
        o = min(order + 1, 3)
        acc = base if method in ('LLMS', 'ARBDS') else 1e-4  # linear interpolation at the pivot
        ctx.close(np.log(float(sol.P_s_approx(C.K_STAR, method=method, **okw))), np.log(Ps), 0, lim[o] + acc, 'scalar spectrum %s%d versus exact modes' % (method, order))
        ctx.close(np.log(float(sol.P_t_approx(C.K_STAR, method=method, **okw))), np.log(Pt), 0, lim[o] + acc, 'tensor spectrum %s%d versus exact modes' % (method, order))
    # tilt from the exact spectrum around the pivot
    h = 0.25
    L = [m.spectra(N + s * h) for s in (-1, 1)]
    lk = [np.log(m.aH(N + s * h)) for s in (-1, 1)]
    ns = 1 + np.log(L[1][0] / L[0][0]) / (lk[1] - lk[0])
    nt = np.log(L[1][1] / L[0][1]) / (lk[1] - lk[0])
    ctx.close(sol.n_s, ns, 0, lim[3] + 2e-4, 'n_s versus exact modes')
    ctx.close(sol.n_t, nt, 0, lim[3] + 2e-4, 'n_t versus exact modes')
    ctx.close(sol.r, Pt / Ps, lim[3] + 2e-4, 0, 'r versus exact modes')
    ctx.nt()


# ------------------------------------------------------------------ amplitude scaling, target n_s
@st.composite
def ns_case(draw):
    c = draw(S.background(Ks=(0, 0, 0, 1, -1), features=False, Nmin=96., Nmax=120., lam=logu(1e-3, 3e-2), Ok=(1e-3, 0.3)))
    c['form'] = draw(pick('t', 'N'))
    c['lo'], c['hi'] = draw(pick((20, 90), (20, 90), (30, 60), (40.5, 70)))
    c['v'] = draw(uni(-0.6, 1.6))
    c['rho'] = draw(st.one_of(st.none(), logu(1e-2, 1e12)))
    c['fac'] = draw(uni(0.5, 3.))
    return c


def ns_body(case, ctx):
    from primpy.exceptionhandling import PrimpyError
    c, eq, sol = calib.solve_background(case, method='DOP853')
    if case['K'] != 0:
        ctx.raises(PrimpyError, lambda: sol.set_ns(0.965), 'target n_s in a curved universe')
        ctx.label('curved: rejected')
        ctx.nt()
        return
    if sol.N_tot < case['hi'] + 3:
        raise Inconclusive('inflation too short')
    cal = sol.calibrate_scale_factor
    ends = []
    for n in (case['lo'], case['hi']):
        calib.quiet(cal, N_star=n)
        ends.append(float(sol.n_s))
    a, b = sorted(ends)
    target = float('%.10g' % (ends[0] + case['v'] * (ends[1] - ends[0])))
    kw = {} if (case['lo'], case['hi']) == (20, 90) else dict(N_star_min=case['lo'], N_star_max=case['hi'])
    if case['rho']:
        kw['rho_reh_GeV'] = case['rho']
    if not a <= target <= b:
        if target < a - 1e-9 or target > b + 1e-9:
            ctx.raises(PrimpyError, lambda: calib.quiet(sol.set_ns, target, **kw), 'n_s=%s outside of [%s, %s]' % (target, a, b))
            ctx.label('out of range: rejected')
            ctx.nt()
        return
    if min(abs(target - a), abs(target - b)) < 1e-7:
        raise Inconclusive('target at the edge')
    calib.quiet(sol.set_ns, target, **kw)
    ctx.close(float(sol.n_s), target, 0, 1e-8, 'n_s as requested')
    ctx.check(case['lo'] <= sol.N_star <= case['hi'], 'N_star=%s outside of the search range' % sol.N_star)
    ctx.label('form ' + case['form'], 'set_ns', case['spec']['cls'])
    got = {n: float(sol[n]) for n in ('n_s', 'A_s', 'r', 'n_run', 'N_star', 'N_cross', 'N_end', 'N_beg', 'a0_Mpc', 'rho_reh_GeV', 'w_reh', 'DeltaN_reh', 'N_reh', 'DeltaN_minus1')}
    calib.quiet(cal, N_star=got['N_star'], **({'rho_reh_GeV': case['rho']} if case['rho'] else {}))
    for n, v in got.items():
        ctx.close(float(sol[n]), v, 1e-10, 1e-12, n + ' after set_ns versus a direct calibration')
    if case['rho']:
        ctx.close(float(sol.rho_reh_GeV), case['rho'], 1e-12, 0, 'reheating density as requested')
    # amplitude: V -> f^4 V
    if case['form'] == 'N':
        f = case['fac']
        d = dict(case, spec=dict(case['spec'], Lambda=case['spec']['Lambda'] * f))
        if 'N_i' not in d:
            return
        c2, eq2, s2 = calib.solve_background(d, method='DOP853')
        calib.quiet(s2.calibrate_scale_factor, N_star=got['N_star'])
        ctx.close(float(s2.A_s), float(sol.A_s) * f**4, 1e-6, 0, 'A_s scales with the potential')
        ctx.close(float(s2.A_t), float(sol.A_t) * f**4, 1e-6, 0, 'A_t scales with the potential')
        ctx.close([s2.r, s2.n_s, s2.n_t], [sol.r, sol.n_s, sol.n_t], 1e-6, 1e-7, 'r, n_s, n_t unchanged by the amplitude of the potential')
        ctx.label('scaled')
    ctx.nt()


SUBS = [Sub('formula', formula_case, formula_body, 500, 16000, shards=(8, 8), case_timeout=30),
        Sub('exact', exact_case, exact_body, 60, 2500, shards=(8, 8), case_timeout=60),
        Sub('set_ns', ns_case, ns_body, 80, 3000, shards=(4, 8), case_timeout=40)]
