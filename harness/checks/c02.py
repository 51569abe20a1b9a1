"""C02: potential slow-roll parameters, end of inflation, Hubble-flow parameters of the attractor."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
from core import Sub
from gen import uni, pick, logu
import pots

RULE = ('epsilonV: all four parameters non-zero at the generated field value; phi_end: every case (root bracketed by '
        'the independent formula); hubble-flow: largest parameter below 0.03, so that the claimed order is resolved')
ASSUMPTIONS = ['feature-free potentials (feature potentials inherit the expressions of the potential they decorate)',
               'the slow-roll attractor is the Hamilton-Jacobi solution expanded around H^2=V/3 (7 iterations)']


@st.composite
def eps_case(draw):
    spec = draw(pots.spec(features=False))
    return {'spec': spec, 'u': draw(uni(0., 1.))}


def eps_body(case, ctx):
    spec = case['spec']
    pot = pots.build(spec)
    phi = pots.field_from_unit(spec, case['u'])
    V = pots.formula(spec)
    h = 0.05 * float(pots.length(spec, phi))
    cols = [[float(e) for e in pots.eps_V(V, phi + s * h, 4)] for s in (-1, 0, 1)]
    ctx.label(spec['cls'])
    ctx.nt(all(c != 0 for c in cols[1]))
    L = float(pots.length(spec, phi))
    x = min(1., abs(phi) / (par0(spec)))
    # for p=1 the leading coefficients of the double well's expressions vanish and powers of the distance to the hilltop are left
    y = abs(1 - phi / spec['par']['phi0']) if spec['cls'] == 'DoubleWellPotential' and spec['par']['p'] < 1.2 else 1.
    for n in range(1, 5):
        want = cols[1][n - 1]
        scale = max(abs(c[n - 1]) for c in cols)
        got = getattr(pot, 'get_epsilon_%dV' % n)(phi)
        # the quoted rational expressions cancel like x**n close to the minimum
        ctx.close(got, want, 1e-9, scale * (1e-10 + 1e-14 / x**n + (1e-15 / y**n if y < 1 else 0)) + 1e-17, '%s.get_epsilon_%dV' % (spec['cls'], n))
        neg = None
    if spec['cls'] in ('QuadraticPotential', 'QuarticPotential', 'NaturalPotential', 'RadionGauge2Potential'):
        for n in range(1, 5):   # even potentials
            f = getattr(pot, 'get_epsilon_%dV' % n)
            ctx.close(f(-phi), f(phi), 1e-12, 0, '%s.get_epsilon_%dV(-phi)' % (spec['cls'], n))


def par0(spec):
    par = spec['par']
    if 'phi0' in par:
        return par['phi0'] / 2
    if spec['cls'] == 'TmodelPotential':
        return float(np.sqrt(6 * par['alpha']))
    if spec['cls'].startswith('RadionGauge'):
        return par['alpha']**(1 / par.get('p', 2))
    return 1.


@st.composite
def end_case(draw):
    return {'spec': draw(pots.spec(features=False))}


def eps1(V, x):
    t = pots.taylor(V, x, 1)
    return (t[1] / t[0])**2 / 2


def end_body(case, ctx):
    spec = case['spec']
    pot = pots.build(spec)
    V = pots.formula(dict(spec, Lambda=None))
    e = pot.phi_end
    ctx.label(spec['cls'])
    ctx.nt()
    ctx.check(np.ndim(e) == 0 and np.isfinite(e) and e > 0, '%s.phi_end = %r is not a positive number' % (spec['cls'], e))
    hi = spec['par'].get('phi0')
    if hi is not None:
        ctx.check(e < hi, '%s.phi_end = %r is beyond the hilltop %r' % (spec['cls'], e, hi))
    d = 1e-8 * e + 1e-11
    lo, up = e - d, e + d
    ctx.check(lo <= 0 or eps1(V, lo) > 1, '%s: epsilon_1V just below phi_end=%r is %s, not above 1'
              % (spec['cls'], e, eps1(V, max(lo, 1e-300))))
    ctx.check(eps1(V, up) < 1, '%s: epsilon_1V just above phi_end=%r is %s, not below 1' % (spec['cls'], e, eps1(V, up)))
    ctx.close(pot.get_epsilon_1V(e), 1., 1e-6 + 4 * d / e, 0, '%s.get_epsilon_1V(phi_end)' % spec['cls'])
    if spec['cls'] == 'DoubleWell4Potential':
        phi0 = spec['par']['phi0']
        e2 = pot.phi_end_squared(phi0)
        ctx.close(phi0 - np.sqrt(e2), e, 1e-8, 1e-8 * phi0 + 1e-13 * phi0**3, 'DoubleWell4Potential.phi_end_squared')


@st.composite
def flow_case(draw):
    spec = draw(pots.spec(features=False, lambdas=False))
    par = spec['par']
    if 'phi0' in par:
        par['phi0'] = draw(logu(80., 5000.))
    return {'spec': spec, 'u': draw(uni(0., 1.))}


def flow_field(spec, u):
    """Field value where the largest parameter is roughly t (10**-4.7 .. 10**-1.7)."""
    cls, par = spec['cls'], spec['par']
    t = 10**(-1.7 - 3 * u)
    g = np.sqrt(2 / 3)
    p = float(par.get('p', {'LinearPotential': 1, 'CubicPotential': 3, 'QuarticPotential': 4}.get(cls, 2)))
    if cls == 'NaturalPotential':
        return par['phi0'] * (0.1 + 0.85 * u)
    if cls.startswith('DoubleWell'):
        return par['phi0'] * (0.1 + 0.85 * u)
    if cls.startswith('Starobinsky'):
        return float(np.log(1 + 8 / (3 * t)) / g)
    if cls == 'TmodelPotential':
        s = float(np.sqrt(6 * par['alpha']))
        return float(s * 0.5 * np.log(1 + 64 * p / (s**2 * t)) + min(s, 1.))
    if cls.startswith('RadionGauge'):
        return float(max((par['alpha'] * p * 4 * (p + 1) / t)**(1 / (p + 2)), 1.))
    return float(np.sqrt(2 * p * max(p, 1) / t))


def flow_body(case, ctx):
    spec = case['spec']
    pot = pots.build(spec)
    phi = flow_field(spec, case['u'])
    V = pots.formula(spec)
    n = 12
    with mp.workdps(60):
        t = pots.taylor(V, phi, n)
        v = pots.s_div(pots.s_der(t), t)            # (ln V)'
        h = [c / 2 for c in v]                      # (ln H)' iterated: h = v/2 + 2 h h'/(3-2h^2)
        for _ in range(7):
            hh = pots.s_mul(h, h)
            den = [3 - 2 * hh[0]] + [-2 * c for c in hh[1:]]
            q = pots.s_div([2 * c for c in pots.s_mul(h, pots.s_der(h))], den)
            h = [a / 2 + b for a, b in zip(v, q)]
        truth = []
        e = [2 * c for c in pots.s_mul(h, h)]
        truth.append(e[0])
        for _ in range(3):
            e = [-2 * c for c in pots.s_mul(h, pots.s_div(pots.s_der(e), e))]
            truth.append(e[0])
        eV = [float(x) for x in pots.eps_V(V, phi, 6)]
    truth = [float(x) for x in truth]
    pk = [getattr(pot, 'get_epsilon_%dV' % i)(phi) for i in range(1, 5)]
    noise = max(abs(a - b) for a, b in zip(pk, eV))
    s = max(abs(x) for x in eV)
    if not (s < 0.03):
        ctx.label('not slow-roll ' + spec['cls'])
        return
    ctx.nt()
    ctx.label(spec['cls'], 'max epsilon 1e%d' % int(np.floor(np.log10(s))))
    e1, e2, e3, e4, e5 = eV[:5]
    tol = [abs(e1) * 3 * s**3, abs(e2) * 6 * s**3, abs(e3) * 6 * s**3, 6 * abs(e4) * s**2]
    # the fifth parameter is not available to the code; including its term would be right as well
    without_e5 = [0, 0, -e3 * e4 * e5 / 9, e4 * e5 / 3]
    for i in range(4):
        got = getattr(pot, 'get_epsilon_%d' % (i + 1))(phi)
        want = truth[i] + without_e5[i]
        if abs(got - truth[i]) < abs(got - want):
            want = truth[i]
        ctx.close(got, want, 1e-13, tol[i] + 3 * noise + 1e-18, '%s.get_epsilon_%d' % (spec['cls'], i + 1))


SUBS = [
    Sub('epsilonV', eps_case, eps_body, 900, 30000, shards=(2, 6)),
    Sub('phi_end', end_case, end_body, 600, 20000, shards=(1, 4)),
    Sub('hubble_flow', flow_case, flow_body, 400, 10000, shards=(3, 8)),
]
