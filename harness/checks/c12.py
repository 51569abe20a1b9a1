"""C12: mode equation and vacuum initial values against the perturbed Einstein equations in Newtonian gauge."""
import mpmath as mp
import numpy as np
from hypothesis import strategies as st
from core import Sub, Inconclusive
from gen import uni, pick, logu, unit
import calib
import pots
import setups as S

mpf = mp.mpf
RULE = ('non-trivial: frequency and damping compared at two or more points of the background, or vacuum initial values compared; '
        'distinct = distinct generated (background, K, k, segment, formulation)')
ASSUMPTIONS = ['Laplacian eigenvalue -k^2 (flat, open) or -k(k+2) (closed) for scalar and tensor modes, as in the papers cited by the code',
               'canonical variable v = z R with z = a dphi/dt / H, and v = a h / 2, for every geometry (as the code documents for its '
               'vacua); HD only where the squared initial frequency is positive']


@st.composite
def case_strategy(draw):
    c = draw(S.background(features=True, ics=('SR', 'IS', 'IS', 'KD'), Nmin=5., Nmax=70., Ok=(1e-4, 0.95), Ks=(0, 1, -1, 1, -1), lam=logu(3e-4, 3e-2)))
    c['form'] = draw(pick('t', 'N'))
    c['kind'] = draw(pick('horizon', 'horizon', 'number'))
    c['k'] = draw(st.one_of(uni(0.05, 12.), pick(3., 4., 10.), logu(10., 1e6)))
    c['lk'] = draw(uni(-6., 12.))
    c['ub'], c['ue'] = draw(unit()), draw(unit())
    c['us'] = draw(st.lists(unit(), min_size=3, max_size=3))
    c['vac'] = draw(pick(['k', 'HD', 'RST'], ['RST'], ['HD', 'k']))
    return c


@mp.workdps(220)      # far outside the horizon the constraint equations cancel to (k/aH)^2
def state(c, sol, i, form):
    pot_f = pots.formula(c['spec'])
    phi, N = mpf(float(sol.phi[i])), mpf(float(sol._N[i]))
    K = c['K']
    with mp.workdps(40):
        t = pots.taylor(pot_f, phi, 2)
    V, V1, V2 = t[0], t[1], 2 * t[2]
    E = K * mp.exp(-2 * N)
    if form == 't':
        p = mpf(float(sol.dphidt[i]))
        H2 = (p**2 / 2 + V) / 3 - E
    else:
        q = mpf(float(sol.dphidN[i]))
        H2 = (V / 3 - E) / (1 - q**2 / 6)
    if H2 <= 0:
        raise Inconclusive('no digits of H left at a turning point of the scale factor')
    H = mp.sqrt(H2)
    if form == 'N':
        p = q * H
    b = dict(K=K, N=N, a=mp.exp(N), H=H, p=p, V1=V1, V2=V2, E=E)
    b['p1'] = -3 * H * p - V1
    b['H1'] = -p**2 / 2 + E
    b['H2'] = -p * b['p1'] - 2 * H * E
    b['p2'] = -3 * b['H1'] * p - 3 * H * b['p1'] - V2 * p
    return b


@mp.workdps(220)
def scalar_equation(b, k):
    """2*damping and frequency^2 of R with respect to t: from the 0i and 00 Einstein equations for (Phi, delta phi)."""
    K, H, p, E, V1, V2 = b['K'], b['H'], b['p'], b['E'], b['V1'], b['V2']
    p1, p2, H1, H2, a = b['p1'], b['p2'], b['H1'], b['H2'], b['a']
    k = mpf(k)
    q2 = k**2 if K < 1 else k * (k + 2)
    s = (q2 - 3 * K) / a**2
    # d(Phi)/dt = -H Phi + p f/2 ;  p df/dt = (p^2 - 2 s) Phi - (3 H p + V') f
    A = mp.matrix([[-H, p / 2], [p - 2 * s / p, -3 * H - V1 / p]])
    A1 = mp.matrix([[-H1, p1 / 2], [p1 + 4 * s * H / p + 2 * s * p1 / p**2, -3 * H1 - V2 + V1 * p1 / p**2]])
    g = H / p
    l1 = H1 / H - p1 / p
    g1 = g * l1
    g2 = g1 * l1 + g * (H2 / H - (H1 / H)**2 - p2 / p + (p1 / p)**2)
    c, c1, c2 = mp.matrix([[1, g]]), mp.matrix([[0, g1]]), mp.matrix([[0, g2]])
    r1 = c1 + c * A
    r2 = c2 + 2 * c1 * A + c * A1 + c * A * A
    M = mp.matrix([[r1[0], c[0]], [r1[1], c[1]]])
    x = mp.lu_solve(M, -mp.matrix([r2[0], r2[1]]))
    return x[0], x[1]


def body(case, ctx):
    form = case['form']
    c = S.finish(case, form)
    eq, ic, sol = S.run(c, form, events=lambda eq: calib.end_events(eq, c), **({} if case['ic'] != 'KD' else {'x_end': 1e300}))
    n = sol.x.size
    if n < 8:
        raise Inconclusive('too few points')
    with np.errstate(all='ignore'):
        ok = np.isfinite(sol.H) & (sol.H > 0)
    last = n - 1 if ok.all() else int(np.argmin(ok)) - 1
    if last < 6:
        raise Inconclusive('too few points')
    lo = int(case['ub'] * 0.7 * last)
    hi = lo + 2 + int(case['ue'] * (last - lo - 2))
    k = case['k'] if case['kind'] == 'number' else float('%.9g' % np.exp(sol._logaH[lo] + case['lk']))
    if case['K'] == 1 and case['kind'] == 'horizon' and k < 3:
        k = 3.
    ctx.label('K=%d' % case['K'], 'form ' + form, 'ic ' + case['ic'])
    if form == 't':
        from primpy.time.perturbations import PerturbationT as P
    else:
        from primpy.efolds.perturbations import PerturbationN as P
    vac = tuple(case['vac'])
    p = P(background=sol, k=k, vacuum=vac, idx_beg=lo, idx_end=hi, num_eval=0)
    for mode, tag in ((p.scalar, 's'), (p.tensor, 't')):
        for what in ('ms_frequency', 'ms_damping'):
            ctx.check(np.shape(getattr(mode, what)) == (hi - lo + 1,), '%s of %s has shape %s for a segment of %d points'
                      % (what, tag, np.shape(getattr(mode, what)), hi - lo + 1))
    # the equation is the same whatever the segment
    full = P(background=sol, k=k, vacuum=vac, idx_beg=0, idx_end=last, num_eval=0)
    for a, b in ((p.scalar, full.scalar), (p.tensor, full.tensor)):
        ctx.close(a.ms_damping, b.ms_damping[lo:hi + 1], 1e-13, 0, 'damping on a segment of the background')
        ctx.close(a.ms_frequency**2 + 0j, b.ms_frequency[lo:hi + 1]**2 + 0j, 1e-12, 0, 'frequency on a segment of the background')
    done = 0
    for i in sorted({lo, hi} | {lo + int(u * (hi - lo)) for u in case['us']}):
        b = state(c, sol, i, form)
        H, N, E, K = b['H'], b['N'], b['E'], b['K']
        slow = abs(b['p']) / H
        if slow < 1e-6:
            continue                # the field turns round: the equation of R is singular there
        eps = slow**2 / 2
        q2 = k**2 if K < 1 else k * (k + 2)
        kap = abs(q2 - 3 * K)
        den = abs(q2 - 3 * K + K * eps)
        if den < 1e-3 * (kap + eps):
            continue                # singular point of the equation
        amp = max(1, kap / den)**2 * (1 + abs(b['V1'] / (H * b['p'])))
        drop = 1 + (b['p']**2 + abs(b['V1'] * b['p'] / H)) / H**2 + abs(E) / H**2       # digits lost in H next to a turning point
        g, w2 = scalar_equation(b, k)
        tg, tw2 = 3 * H, (q2 + 2 * K) / b['a']**2
        if form == 'N':
            drop *= 1 + 1e-5 / abs(1 - float(sol.dphidN[i])**2 / 6)     # H^2 = (V/3 - K/a^2)/(1 - dphidN^2/6)
        j = i - lo
        for mode, (G, W2), what in ((p.scalar, (g, w2), 'scalar'), (p.tensor, (tg, tw2), 'tensor')):
            if form == 'N':
                G, W2 = G / H + b['H1'] / H**2, W2 / H**2
                unit_ = mpf(1)
            else:
                unit_ = H
            A = amp if what == 'scalar' else 1
            tol = float(1e-10 * A * drop)
            ctx.close(2 * float(np.real(mode.ms_damping[j]) / unit_), float(G / unit_), tol, tol, '%s damping (in units of the Hubble rate)' % what)
            sc = float((q2 + 3) / b['a']**2 / H**2 + 1)
            got = complex(mode.ms_frequency[j])**2 / float(unit_)**2
            ctx.close(got.real, float(W2 / unit_**2), 1e-12, tol * sc, '%s squared frequency' % what)
            ctx.close(got.imag, 0., 0, tol * sc, 'imaginary part of the squared frequency')
        done += 1
    # ---- vacua at the beginning of the segment
    b = state(c, sol, lo, form)
    H, N, K, a, pd = b['H'], b['N'], b['K'], b['a'], b['p']
    if abs(pd) / H > 1e-5:
        L1 = H + b['p1'] / pd - b['H1'] / H
        L2 = b['H1'] + b['p2'] / pd - (b['p1'] / pd)**2 - b['H2'] / H + (b['H1'] / H)**2
        kk = mpf(k)
        lost = float((1 + abs(L1) / H + abs(L2) / H**2 + abs(b['p1'] / pd / H)**2) * (1 + (pd**2 + abs(E)) / H**2))
        for mode, z, l1, l2, what in ((p.scalar, a * pd / H, L1, L2, 'scalar'), (p.tensor, a / 2, H, b['H1'], 'tensor')):
            zz = a**2 * (l2 + l1**2 + H * l1)            # (d^2z/deta^2)/z
            for v in ('k', 'HD', 'RST'):
                with np.errstate(all='ignore'):
                    u, du = getattr(mode, 'get_vacuum_ic_%s' % v)()
                w2 = kk**2 - zz if v == 'HD' else kk**2
                if v == 'HD' and w2 < 1e-4 * (kk**2 + abs(zz)):
                    continue
                w = mp.sqrt(w2)
                want = 1 / (mp.sqrt(2 * w) * z)
                dwant = (-1j * w / a - (0 if v == 'RST' else l1)) * want
                if form == 'N':
                    dwant = dwant / H
                cond = float((kk**2 + abs(zz)) / w2) if v == 'HD' else 1.
                rt = 1e-11 * lost * cond * (1 if what == 'scalar' else 1)
                ctx.close(complex(u), complex(want), rt, 0, '%s initial value, vacuum %s' % (what, v))
                ctx.close(complex(du), complex(dwant), 0, rt * float(abs(dwant) + abs(l1 * want) / (H if form == 'N' else 1)), '%s initial velocity, vacuum %s' % (what, v))
                # canonical commutation relation: v dv*/deta - v* dv/deta = i
                ud = complex(du) * (float(H) if form == 'N' else 1)
                wr = float(a) * float(z)**2 * (complex(u) * ud.conjugate() - complex(u).conjugate() * ud)
                ctx.close(wr, 1j, 0, rt * 4 * (1 + float(abs(l1) * a / w)), '%s Wronskian, vacuum %s' % (what, v))
                # the combination of two numerical solutions
        done += 1
    ctx.label('sub-horizon' if k > np.exp(sol._logaH[lo]) else 'super-horizon')
    ctx.nt(done >= 2)


# ------------------------------------------------------------------ combination of two solutions
@st.composite
def comb_case(draw):
    f = st.one_of(uni(-2., 2.), logu(1e-8, 1e8), logu(1e-8, 1e8).map(lambda v: -v))
    pair = lambda: [draw(f), draw(st.one_of(f, st.just(0.)))]
    modes = [{'y': [pair() for _ in range(6)], 'T': [draw(f), draw(f)], 'E': [[draw(f), draw(f)] for _ in range(draw(st.integers(0, 3)))]}
             for _ in range(2)]
    return {'modes': modes, 'form': draw(st.sampled_from('tN')), 'k': draw(logu(1e-6, 1e6)), 'K': draw(st.sampled_from([-1, 0, 1])),
            'vac': draw(st.sampled_from([['RST'], ['HD'], ['k'], ['RST', 'HD'], ['HD', 'k', 'RST']])),
            'n': draw(st.integers(5, 9)), 'nan': draw(st.booleans())}


_BG = {}


def some_background(K, form):
    """Any background: the combination of the two solutions does not depend on it."""
    if (K, form) not in _BG:
        c = {'spec': {'cls': 'QuadraticPotential', 'par': {}, 'Lambda': 0.01}, 'K': K, 'ic': 'SR', 'Nsr': 12., 't_i': 1., 'eta_i': 0.,
             'N_i': 12., 'form': form}
        _BG[K, form] = calib.solve_background(c)[2]
    return _BG[K, form]


def comb_body(case, ctx):
    """The vacuum solution is the combination that meets the initial data.

    The solver is replaced by a linear map T from initial data (u, u') to the
    final value, so the vacuum solution must end at T(u, u') whatever the two
    solutions started from; the spectrum is its squared modulus times
    k^3/(2 pi^2), and twice that for tensors.
    """
    from primpy.time.perturbations import PerturbationT
    from primpy.efolds.perturbations import PerturbationN
    P = {'t': PerturbationT, 'N': PerturbationN}[case['form']]
    k = case['k']
    dets, sols, wants = [], [], []
    for m in case['modes']:
        u, du, y1, d1, y2, d2 = [complex(*v) for v in m['y']]
        det = y1 * d2 - d1 * y2
        big = abs(y1 * d2) + abs(d1 * y2)
        if abs(det) < 1e-6 * big or big == 0:
            return
        ea = 1e-14 * (abs(u * d2) + abs(du * y2)) / abs(det) * big / abs(det)
        eb = 1e-14 * (abs(u * d1) + abs(du * y1)) / abs(det) * big / abs(det)
        a, b = (u * d2 - du * y2) / det, (du * y1 - u * d1) / det

        def ends(T):
            e1, e2 = T[0] * y1 + T[1] * d1, T[0] * y2 + T[1] * d2
            s1, s2 = abs(T[0] * y1) + abs(T[1] * d1), abs(T[0] * y2) + abs(T[1] * d2)
            tol = ea * s1 + eb * s2 + 1e-14 * (abs(a) * s1 + abs(b) * s2)
            return e1, e2, T[0] * u + T[1] * du, tol
        e1, e2, w, tol = ends(m['T'])
        ev = [ends(T) for T in m['E']]
        for y, d, e, q in [(y1, d1, e1, 0), (y2, d2, e2, 1)]:
            n = case['n']
            tail = np.full(5, e)
            if case['nan']:
                tail[-1] = np.nan
            o = {'types': [1] * n, 't': list(np.linspace(1., 2., n + 1)),
                 'sol': np.concatenate([[y], np.full(n - 5, 7.5 + 0j), tail]),
                 'dsol': np.concatenate([[d], np.full(n, .25 + 0j)])}
            if ev:
                o['x_eval'] = np.array([v[q] for v in ev])
                o['dx_eval'] = np.zeros(len(ev), dtype=complex)
            sols.append(o)
        wants.append((u, du, w, tol, [v[2] for v in ev], np.array([v[3] for v in ev])))
    p = P(background=some_background(case['K'], case['form']), k=k, idx_beg=1, idx_end=9, num_eval=0, vacuum=case['vac'])
    # vacuum data of my own for each vacuum: (u, u') scaled by a number per vacuum
    scale = {'RST': 1., 'HD': -.5j, 'k': 3.}
    for mode, w in zip((p.scalar, p.tensor), wants):
        for v in case['vac']:
            setattr(mode, 'get_vacuum_ic_' + v, lambda v=v, w=w: (scale[v] * w[0], scale[v] * w[1]))
        mode.x_eval = np.arange(len(w[4])) if w[4] else None
    p.oscode_postprocessing(sols, vacuum=case['vac'])
    for mode, w, tag, pol in zip((p.scalar, p.tensor), wants, 'st', (1, 2)):
        norm = pol * k**3 / (2 * np.pi**2)
        for v in case['vac']:
            s = abs(scale[v])**2 * norm
            atol = lambda val, tol: s * (2 * np.abs(val) * tol + tol**2)
            got = getattr(mode, 'P_%s_%s' % (tag, v))
            ctx.close(got, s * abs(w[2])**2, 1e-12, atol(w[2], w[3]), 'P_%s of the combined solution, vacuum %s' % (tag, v))
            if w[4]:
                got = getattr(mode, 'P_%s_%s_eval' % (tag, v))
                ctx.close(got, s * np.abs(w[4])**2, 1e-12, atol(np.array(w[4]), w[5]), 'P_%s along the way, vacuum %s' % (tag, v))
    ctx.label('combination', case['form'])
    ctx.nt()


SUBS = [Sub('equation', case_strategy, body, 1200, 40000, shards=(8, 8), case_timeout=20),
        Sub('combination', comb_case, comb_body, 600, 10000, shards=(1, 2))]
