"""C04: chain of background derivatives in both formulations at random physical states."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
from core import Sub
from gen import uni, pick, logu
import pots
import bg

RULE = ('non-trivial: curvature, kinetic and potential energy all contribute more than 1e-6 of the density, or K=0 with '
        'both kinetic and potential energy above that; distinct = distinct generated (potential, state, K)')
ASSUMPTIONS = ['states on an expanding branch (H>0) with kinetic/potential energy in [1e-8, 1e3] and curvature up to '
               '90% (closed) or 10 times (open) of the density; potential parameters as in harness/pots.py']


@st.composite
def state_case(draw):
    spec = draw(pots.spec())
    K = draw(pick(0, 1, -1, 1, -1))
    return {'spec': spec, 'u': draw(uni(0.02, 0.95)), 'K': K, 'q': draw(logu(1e-8, 1e3)),
            'sgn': draw(pick(-1, 1)), 'f': draw(logu(1e-6, 0.9) if K == 1 else logu(1e-6, 10.)),
            'N0': draw(uni(-5., 20.)), 'eta': draw(uni(-3., 3.)), 'tt': draw(uni(-50., 50.))}


def state(case):
    """Exact physical state: (Taylor of V, phi, dphi/dt, N)."""
    spec = case['spec']
    phi = float(pots.field_from_unit(spec, case['u']))
    V = pots.formula(spec)
    Vt = pots.taylor(V, phi, 7)
    dphi = float(case['sgn'] * mp.sqrt(2 * case['q'] * Vt[0]))
    rho3 = (mp.mpf(dphi)**2 / 2 + Vt[0]) / 3
    K = case['K']
    N = float(case['N0']) if K == 0 else float(-mp.log(case['f'] * rho3) / 2)
    return Vt, phi, dphi, N, K


def tol(f, args, want, keys):
    """Effect of relative input errors of 1e-13 on f, by perturbing each input."""
    base = f(**args)
    s = 0.
    for k in keys:
        for sg in (-1, 1):
            b = dict(args)
            b[k] = b[k] * (1 + sg * 1e-8)
            s += abs(f(**b) - base)
    return 1e-10 * abs(want) + 1e-5 * s


def body(case, ctx):
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    spec = case['spec']
    Vt, phi, dphi, N, K = state(case)
    ctx.label(spec['cls'], 'K=%d' % K)
    ctx.nt(1e-6 < case['q'])
    pot = pots.build(spec)
    ph, NN, Hs = bg.jet_t(Vt, phi, dphi, N, K, 6)
    H = Hs
    Vd = [float(c) for c in bg.derivs_of(Vt)]

    # ---------------- cosmic time
    p = [float(c) for c in bg.derivs_of(ph)]
    h = [float(c) for c in bg.derivs_of(H)]
    e1s = [-a for a in pots.s_div(pots.s_der(H), pots.s_mul(H, H))]
    lnd = lambda s: pots.s_div(bg.d_dN(s, H), s)   # dln/dN
    e2s = lnd(e1s)
    e3s = lnd(e2s)
    g2 = float(e1s[1] / H[0])
    g3 = float(2 * e1s[2] / H[0]**2)
    hub = {'epsilon_1H': float(e1s[0]), 'epsilon_2H': float(e2s[0]), 'epsilon_3H': float(e3s[0]), 'gong2': g2, 'gong3': g3,
           'delta_1': float(2 * ph[2] / (H[0] * ph[1])), 'delta_2': float(6 * ph[3] / (H[0]**2 * ph[1])),
           'delta_3': float(24 * ph[4] / (H[0]**3 * ph[1]))}

    # epsilon_3H = epsilon_2H'/epsilon_2H divides by a difference squared: rounding beyond that of its arguments
    M = max(abs(hub['epsilon_1H']), abs(float(lnd(e1s)[0])), abs(hub['epsilon_1H'] - hub['epsilon_2H']))
    round3 = 2e-14 * (M + abs(hub['epsilon_3H'])) * (M / hub['epsilon_2H'])**2 if hub['epsilon_2H'] else np.inf

    def cmp(name, f, want, **args):
        keys = [k for k, v in args.items() if v is not None and k not in ('K', 'kind')]
        got = f(**args)
        ctx.close(got, want, 0, tol(f, args, want, keys) + (round3 if name.endswith('get_epsilon_3H') else 0) + 1e-280, name)

    def chain(eq, x, p, h, tag):
        # p: derivatives of phi, h: derivatives of H with respect to the independent variable
        cmp(tag + 'get_H2', eq.get_H2, h[0]**2, N=N, dphi=p[1], V=Vd[0], K=K)
        cmp(tag + 'get_dH', eq.get_dH, h[1], N=N, H=h[0], dphi=p[1], K=K)
        cmp(tag + 'get_dH_H', eq.get_dH_H, h[1] / h[0], N=N, H2=h[0]**2, dphi=p[1], K=K)
        cmp(tag + 'get_d2H', eq.get_d2H, h[2], N=N, H=h[0], dH=h[1], dphi=p[1], d2phi=p[2], K=K)
        cmp(tag + 'get_d3H', eq.get_d3H, h[3], N=N, H=h[0], dH=h[1], d2H=h[2], dphi=p[1], d2phi=p[2], d3phi=p[3], K=K)
        cmp(tag + 'get_d2phi', eq.get_d2phi, p[2], H2=h[0]**2, dH_H=h[1] / h[0], dphi=p[1], dV=Vd[1])
        cmp(tag + 'get_d3phi', eq.get_d3phi, p[3], H=h[0], dH=h[1], d2H=h[2], dphi=p[1], d2phi=p[2], dV=Vd[1], d2V=Vd[2])
        cmp(tag + 'get_d4phi', eq.get_d4phi, p[4], H=h[0], dH=h[1], d2H=h[2], d3H=h[3], dphi=p[1], d2phi=p[2], d3phi=p[3],
            dV=Vd[1], d2V=Vd[2], d3V=Vd[3])
        cmp(tag + 'get_epsilon_1H', eq.get_epsilon_1H, hub['epsilon_1H'], H=h[0], dH=h[1])
        cmp(tag + 'get_epsilon_2H', eq.get_epsilon_2H, hub['epsilon_2H'], H=h[0], dH=h[1], d2H=h[2])
        cmp(tag + 'get_epsilon_3H', eq.get_epsilon_3H, hub['epsilon_3H'], H=h[0], dH=h[1], d2H=h[2], d3H=h[3])
        cmp(tag + 'get_epsilon_2H Gong', eq.get_epsilon_2H, hub['gong2'], H=h[0], dH=h[1], d2H=h[2], kind='Gong')
        cmp(tag + 'get_epsilon_3H Gong', eq.get_epsilon_3H, hub['gong3'], H=h[0], dH=h[1], d2H=h[2], d3H=h[3], kind='Gong')
        cmp(tag + 'get_delta_1', eq.get_delta_1, hub['delta_1'], H=h[0], dH=h[1], dphi=p[1], d2phi=p[2])
        cmp(tag + 'get_delta_2', eq.get_delta_2, hub['delta_2'], H=h[0], dH=h[1], d2H=h[2], dphi=p[1], d2phi=p[2], d3phi=p[3])
        cmp(tag + 'get_delta_3', eq.get_delta_3, hub['delta_3'], H=h[0], dH=h[1], d2H=h[2], d3H=h[3], dphi=p[1], d2phi=p[2],
            d3phi=p[3], d4phi=p[4])

    rho = float(mp.mpf(dphi)**2 / 2 + Vt[0])
    w = float((mp.mpf(dphi)**2 / 2 - Vt[0]) / rho)
    infl = float(Vt[0] - mp.mpf(dphi)**2)
    cancel = 1e-12 * rho / 3 / h[0]**2 * (1 + abs(case['f']) * (K != 0)) * (1 + abs(N))   # of H^2 = rho/3 - K/a^2

    def common(eq, x, y, dy, tag):
        for name, want, sc in [('H2', h[0]**2, 2 * cancel), ('H', h[0], cancel), ('V', Vd[0], 1e-12), ('dVdphi', Vd[1], 0)]:
            ctx.close(getattr(eq, name)(x, y), want, sc + 1e-10, 1e-12 * abs(Vd[0]) / float(pots.length(spec, phi)) if name == 'dVdphi' else 0,
                      tag + name)
        ctx.close(eq.d2Vdphi2(x, y), Vd[2], 1e-10, 1e-12 * abs(Vd[0]) / float(pots.length(spec, phi))**2, tag + 'd2Vdphi2')
        ctx.close(eq.w(x, y), w, 1e-10, 1e-12 + 3 * cancel, tag + 'w')
        ctx.close(eq.inflating(x, y), infl, 1e-10, rho * (1e-12 + 3 * cancel), tag + 'inflating')
        y0 = y.copy()
        got = eq(x, y)
        ctx.check(np.array_equal(y, y0), tag + ' right-hand side changed the state')
        ctx.check(set(dy) == set(eq.idx), tag + 'variables %s instead of %s' % (sorted(eq.idx), sorted(dy)))
        for name, (want, sc) in dy.items():
            ctx.close(got[eq.idx[name]], want, 1e-10 + cancel, sc, tag + 'd(%s)/d%s' % (name, eq.independent_variable))
        for name, i in eq.idx.items():
            ctx.check(getattr(eq, name)(x, y) == y[i], tag + 'accessor ' + name)
        ctx.check(getattr(eq, eq.independent_variable)(x, y) == x, tag + 'accessor of independent variable')

    for track in (False, True):
        eq = InflationEquationsT(K=K, potential=pot, track_eta=track)
        y = np.zeros(len(eq.idx))
        y[eq.idx['phi']], y[eq.idx['dphidt']], y[eq.idx['_N']] = phi, dphi, N
        s2 = (3 * h[0] * abs(dphi) + abs(Vd[1])) * 1e-10
        dy = {'phi': (dphi, 0), 'dphidt': (p[2], s2 * (1 + cancel * 1e10)), '_N': (h[0], 0)}
        if track:
            y[eq.idx['eta']] = case['eta']
            dy['eta'] = (float(mp.exp(-mp.mpf(N))), 0)
        common(eq, case['tt'], y, dy, 'time: ')
    chain(eq, case['tt'], p, h, 'time: ')

    # ---------------- e-folds
    pN = [ph]
    hN = [H]
    for _ in range(4):
        pN.append(bg.d_dN(pN[-1], H))
        if len(hN) < 4:
            hN.append(bg.d_dN(hN[-1], H))
    p2 = [float(s[0]) for s in pN]
    h2 = [float(s[0]) for s in hN]
    if abs(6 - p2[1]**2) < 1e-9:
        ctx.label('kinetic domination: e-fold form singular')
        return
    canN = cancel + 1e-12 * 6 / abs(6 - p2[1]**2)
    cancel = canN
    for track_t, track_eta in ((False, False), (True, False), (False, True), (True, True)):
        eq = InflationEquationsN(K=K, potential=pot, track_time=track_t, track_eta=track_eta)
        y = np.zeros(len(eq.idx))
        y[eq.idx['phi']], y[eq.idx['dphidN']] = phi, p2[1]
        s2 = (3 * abs(p2[1]) + abs(p2[1])**3 + abs(p2[1]) * abs(h2[1] / h2[0]) + abs(Vd[1]) / h2[0]**2) * (1e-10 + 4 * canN)
        dy = {'phi': (p2[1], 0), 'dphidN': (p2[2], s2)}
        if track_t:
            y[eq.idx['t']] = case['tt']
            dy['t'] = (1 / h2[0], 0)
        if track_eta:
            y[eq.idx['eta']] = case['eta']
            dy['eta'] = (float(mp.exp(-mp.mpf(N))) / h2[0], 0)
        common(eq, N, y, dy, 'efolds: ')
    chain(eq, N, p2, h2, 'efolds: ')


SUBS = [Sub('state', state_case, body, 900, 40000, shards=(6, 8))]
