"""Potentials: specs -> primpy objects, and independent mpmath formulas (from the documentation)."""
import mpmath as mp
import numpy as np
from hypothesis import strategies as st
from gen import uni, logu, pick

mp.mp.dps = 40
mpf = mp.mpf


def build(spec, **extra):
    """spec = {'cls': class name, 'par': {...}, 'Lambda': float}"""
    import primpy.potentials as pp
    kw = dict(spec['par'])
    kw.update(extra)
    if spec.get('Lambda') is not None and 'A_s' not in extra and 'Lambda' not in extra:
        kw['Lambda'] = spec['Lambda']
    return getattr(pp, spec['cls'])(**kw)


def base_formula(cls, par):
    """V(x)/Lambda^4 as an mpmath function."""
    P = {k: mpf(v) for k, v in par.items()}
    fixed = {'LinearPotential': 1, 'QuadraticPotential': 2, 'CubicPotential': 3, 'QuarticPotential': 4}
    if cls in fixed:
        p = fixed[cls]
        return lambda x: abs(x)**p
    if cls == 'MonomialPotential':
        p = P['p']
        return lambda x: abs(x)**p
    if cls == 'StarobinskyPotential' or cls.startswith('Starobinsky'):
        g = mp.sqrt(mpf(2) / 3)
        return lambda x: (1 - mp.exp(-g * x))**2
    if cls == 'NaturalPotential':
        f0 = P['phi0']
        return lambda x: (1 - mp.cos(mp.pi * x / f0)) / 2
    if cls.startswith('DoubleWell'):
        f0 = P['phi0']
        p = {'DoubleWell2Potential': mpf(2), 'DoubleWell4Potential': mpf(4)}.get(cls) or P['p']
        if p == int(p):
            p = int(p)
        return lambda x: (1 - (1 - x / f0)**p)**2
    if cls == 'TmodelPotential':
        s = mp.sqrt(6 * P['alpha'])
        q = 2 * P['p']
        if q == int(q):
            q = int(q)
        return lambda x: mp.tanh(x / s)**q
    if cls.startswith('RadionGauge'):
        a = P['alpha']
        p = mpf(2) if cls == 'RadionGauge2Potential' else P['p']
        if p == int(p):
            p = int(p)
        return lambda x: x**p / (a + x**p)
    raise ValueError(cls)


def formula(spec):
    par = spec['par']
    base = base_formula(spec['cls'], {k: v for k, v in par.items() if not k.endswith('feature')})
    L4 = mpf(spec['Lambda'] if spec.get('Lambda') is not None else 1)**4
    if 'a_feature' in par:
        x0, a, b = mpf(par['phi_feature']), mpf(par['a_feature']), mpf(par['b_feature'])
        if 'Gaussian' in spec['cls']:
            F = lambda x: -a * mp.exp(-(x - x0)**2 / (2 * b**2))
        else:
            F = lambda x: a * mp.tanh((x - x0) / b)
        return lambda x: L4 * base(x) * (1 + F(x))
    return lambda x: L4 * base(x)


def taylor(V, x, n):
    """Taylor coefficients c_0..c_n of V at x by high-precision differentiation."""
    with mp.workdps(60 + 12 * n):
        return mp.taylor(V, mpf(x), n)


def derivs(V, x, n):
    t = taylor(V, x, n)
    return [t[i] * mp.factorial(i) for i in range(n + 1)]


# ---- series algebra on Taylor coefficient lists
def s_mul(a, b):
    return [sum(a[i] * b[k - i] for i in range(k + 1)) for k in range(min(len(a), len(b)))]


def s_div(a, b):
    q = []
    for k in range(min(len(a), len(b))):
        q.append((a[k] - sum(q[i] * b[k - i] for i in range(k))) / b[0])
    return q


def s_der(a):
    return [a[i] * i for i in range(1, len(a))]


def eps_V(V, x, n=4):
    """Potential slow-roll parameters eps_1V..eps_nV: e1=(V'/V)^2/2, e_{n+1} = dln(e_n)/dN with dphi/dN=-V'/V."""
    t = taylor(V, x, n + 2)
    r = s_div(s_der(t), t)
    e = [c / 2 for c in s_mul(r, r)]
    out = [e[0]]
    for _ in range(n - 1):
        e = [-c for c in s_mul(r, s_div(s_der(e), e))]
        out.append(e[0])
    return out


GENERAL = ['MonomialPotential', 'LinearPotential', 'QuadraticPotential', 'CubicPotential', 'QuarticPotential',
           'StarobinskyPotential', 'NaturalPotential', 'DoubleWellPotential', 'DoubleWell2Potential',
           'DoubleWell4Potential', 'TmodelPotential', 'RadionGaugePotential', 'RadionGauge2Potential']
FEATURES = ['StarobinskyGaussianDipPotential', 'StarobinskyTanhStepPotential']


def lam():
    return st.one_of(pick(None, 1.0), logu(1e-4, 30.))


def near(*centres):
    """Close to, but not at, values at which a special form may be used."""
    return st.builds(lambda c, s, d: float('%.9g' % (c + s * d)), pick(*centres), pick(-1, 1), logu(1e-6, 0.1))


@st.composite
def spec(draw, classes=None, features=True, lambdas=True):
    cls = draw(st.sampled_from(classes or (GENERAL + (FEATURES if features else []))))
    par = {}
    if cls == 'MonomialPotential':
        par['p'] = draw(st.one_of(pick(1, 2, 3, 4, 2 / 3, 4 / 3, 0.5, 6), uni(0.3, 6.), near(1., 2., 3., 4.)))
    elif cls == 'NaturalPotential':
        par['phi0'] = draw(logu(2., 300.))
    elif cls == 'DoubleWellPotential':
        par['phi0'] = draw(logu(4., 200.))
        par['p'] = draw(st.one_of(pick(2, 3, 4, 6), uni(2., 6.), pick(1, 1.5), uni(1., 2.), near(2.)))
    elif cls in ('DoubleWell2Potential', 'DoubleWell4Potential'):
        par['phi0'] = draw(logu(4., 200.))
    elif cls == 'TmodelPotential':
        par['alpha'] = draw(logu(0.02, 50.))
        par['p'] = draw(st.one_of(pick(1, 2, 0.5, 3, 1.5), uni(0.3, 4.), near(1., 2.)))
    elif cls == 'RadionGaugePotential':
        par['alpha'] = draw(st.one_of(logu(0.02, 50.), logu(0.02, 50.), logu(50., 1e5)))
        par['p'] = draw(st.one_of(pick(1, 2, 3, 4), uni(0.5, 5.), near(1., 2.)))
    elif cls == 'RadionGauge2Potential':
        par['alpha'] = draw(logu(0.02, 50.))
    elif cls in FEATURES:
        par['phi_feature'] = draw(uni(0.5, 7.))
        par['a_feature'] = draw(st.one_of(logu(1e-4, 0.5), logu(1e-4, 0.5).map(lambda v: -v)))
        par['b_feature'] = draw(logu(0.02, 2.))
    return {'cls': cls, 'par': par, 'Lambda': draw(lam()) if lambdas else None}


def field_from_unit(spec_, u, wide=False):
    """Map u in [0,1] to a field value in the potential's (positive) domain."""
    cls, par = spec_['cls'], spec_['par']
    if cls == 'NaturalPotential':
        return par['phi0'] * (0.01 + 0.98 * u)
    if cls.startswith('DoubleWell'):
        return par['phi0'] * (0.005 + 0.985 * u)
    if cls.startswith('Starobinsky'):
        return 0.02 * (12 / 0.02)**u
    if cls == 'TmodelPotential':
        s = np.sqrt(6 * par['alpha'])
        return float(s * 0.03 * (7 / 0.03)**u)
    if cls.startswith('RadionGauge'):
        p = par.get('p', 2)
        mu = par['alpha']**(1 / p)
        return float(mu * 0.05 * (60 / 0.05)**u)
    return 0.05 * (40 / 0.05)**u


def length(spec_, phi):
    """Characteristic field scale on which V varies at phi (sets the size of rounding errors of derivatives)."""
    cls, par = spec_['cls'], spec_['par']
    L = abs(phi)
    pw = {'TmodelPotential': 2.}.get(cls, 1.) * float(par.get('p', 2)) + 1   # coefficients of d^n grow like power**n
    if cls.startswith('DoubleWell'):
        return np.minimum(L, abs(par['phi0'] - phi)) / pw
    if cls == 'TmodelPotential':
        return np.minimum(L, np.sqrt(6 * par['alpha'])) / pw
    if cls.startswith('Starobinsky'):
        L = np.minimum(L, 1.)
        if 'b_feature' in par:
            L = np.minimum(L, par['b_feature'])
        return L / pw
    if cls == 'NaturalPotential':
        return np.minimum(L, par['phi0'] / np.pi)
    return L / pw
