"""C03: slow-roll relations between field, e-folds, n_s, r and the amplitude."""
import warnings
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
from core import Sub
from gen import uni, pick, logu
import pots

RULE = ('field/e-folds: more than one e-fold away from the end of inflation; relations n_s, r: N_star in [3, 300]; '
        'amplitude: requested amplitude differs from the one the object has')
ASSUMPTIONS = ['feature-free potentials for field <-> e-folds', 'generator bounds of harness/pots.py; N_star in [0.01, 300]']
HAVE_NS = ['MonomialPotential', 'LinearPotential', 'QuadraticPotential', 'CubicPotential', 'QuarticPotential',
           'StarobinskyPotential', 'NaturalPotential']
FIXED_P = {'LinearPotential': 1, 'QuadraticPotential': 2, 'CubicPotential': 3, 'QuarticPotential': 4}


def table_tol(spec, phi):
    """DoubleWell potentials interpolate their inverse on 100001 points of the field range."""
    if not spec['cls'].startswith('DoubleWell'):
        return 0.
    h = spec['par']['phi0'] / 1e5
    d = max(spec['par']['phi0'] - phi, h)
    return h * min(1., 4 * h * (1 / d + 1 / phi)) * 4


def near2(spec):
    p = spec['par'].get('p')
    if spec['cls'] == 'DoubleWellPotential' and p != 2:
        return 1e-15 * spec['par']['phi0']**2 / abs(p - 2)
    return 0.


@st.composite
def efold_case(draw):
    return {'spec': draw(pots.spec(features=False)), 'u': draw(uni(0., 1.)), 'N': draw(logu(0.01, 300.))}


def efold_field(spec, u, end):
    cls, par = spec['cls'], spec['par']
    if 'phi0' in par:
        return end + (par['phi0'] - end) * (0.002 + 0.99 * u)
    if cls.startswith('Starobinsky'):
        return end + 0.01 + 6.4 * u
    if cls == 'TmodelPotential':
        return end + float(np.sqrt(6 * par['alpha'])) * (0.01 + 4.5 * u)
    if cls.startswith('RadionGauge'):
        return end * (1.001 + 12 * u)
    return end * 1.001 + 30 * u


def efold_body(case, ctx):
    spec = case['spec']
    pot = pots.build(spec)
    V = pots.formula(dict(spec, Lambda=None))
    cls = spec['cls']
    end = pot.phi_end
    ctx.label(cls)
    cond = 1e-13 * (1 + abs(float(spec['par'].get('phi0', 1)))**2) + near2(spec)
    ctx.close(pot.sr_phi2N(end), 0., 0, cond + 1e-12 * (1 + end**2), '%s.sr_phi2N(phi_end)' % cls)
    phi = efold_field(spec, case['u'], end)

    def f(x):
        t = pots.mp.taylor(V, x, 1)
        return t[0] / t[1]
    mp.mp.dps = 25
    try:
        pts = [mp.mpf(end), mp.mpf(phi)]
        if 'phi0' in spec['par']:
            # resolve the logarithmic divergence towards the hilltop
            d = spec['par']['phi0'] - phi
            pts = [mp.mpf(end)] + [mp.mpf(x) for x in sorted(spec['par']['phi0'] - d * 4.**k for k in range(1, 8))
                                   if end < x < phi] + [mp.mpf(phi)]
        want = float(mp.quad(f, pts))
    finally:
        mp.mp.dps = 40
    got = pot.sr_phi2N(phi)
    dNdphi = abs(float(f(phi)))
    ctx.nt(want > 1)
    atol = 1e-9 + cond + 1e-12 * dNdphi * phi + 1e-11 * abs(float(f(end))) * 1
    ctx.close(got, want, 1e-8, atol, '%s.sr_phi2N(phi)' % cls)
    # inverse
    tt = table_tol(spec, phi)
    back = pot.sr_N2phi(got)
    ctx.check(np.isrealobj(np.asarray(back)), '%s.sr_N2phi is complex' % cls)
    ctx.close(back, phi, 1e-8, tt + 1e-9 + (1e-9 + cond) / dNdphi, '%s.sr_N2phi(sr_phi2N(phi))' % cls)
    if cls.startswith('DoubleWell') or cls == 'NaturalPotential':
        # closer to the hilltop than floating point resolves?
        if pot.sr_phi2N(spec['par']['phi0'] * (1 - 1e-4)) < case['N']:
            ctx.label('N beyond the resolved hilltop')
            return
    N = case['N']
    phi = float(pot.sr_N2phi(N))
    dNdphi = abs(float(f(phi)))
    ctx.check(phi > end * (1 - 1e-9), '%s.sr_N2phi(N>0) lies after the end of inflation' % cls)
    ctx.close(pot.sr_phi2N(phi), N, 1e-8, 1e-9 + cond + dNdphi * (table_tol(spec, phi) + 1e-9 + 1e-10 * phi),
              '%s.sr_phi2N(sr_N2phi(N))' % cls)


@st.composite
def ns_case(draw):
    spec = draw(pots.spec(classes=HAVE_NS))
    if spec['cls'] == 'NaturalPotential':
        spec['par']['phi0'] = draw(logu(4., 1000.))
    return {'spec': spec, 'N': draw(logu(3., 300.)), 'arr': draw(st.booleans())}


def ns_body(case, ctx):
    spec, N = case['spec'], case['N']
    cls, par = spec['cls'], dict(spec['par'])
    pot = pots.build(spec)
    kw = par if cls != 'StarobinskyPotential' else {}
    ctx.label(cls)
    x = np.array([N, 1.5 * N]) if case['arr'] and cls != 'NaturalPotential' else N
    if cls == 'NaturalPotential' and (N / (par['phi0'] / np.pi)**2 > 20):
        ctx.label('too close to the hilltop')
        return
    ctx.nt()
    ns = pot.sr_Nstar2ns(N_star=x, **kw)
    r = pot.sr_Nstar2r(N_star=x, **kw)
    ctx.check(np.shape(ns) == np.shape(x) and np.shape(r) == np.shape(x), '%s: shape of n_s or r' % cls)
    f2 = (par['phi0'] / np.pi)**2 if cls == 'NaturalPotential' else 1.
    amp = (np.exp(1.5 * N / f2) * (1 + f2) if cls == 'NaturalPotential' else 1.)
    ctx.check(np.all(np.asarray(ns) < 1) and np.all(np.asarray(r) > 0), '%s: n_s >= 1 or r <= 0' % cls)
    ctx.close(pot.sr_ns2Nstar(n_s=ns, **kw), x, 1e-9, 1e-13 * amp * f2 * 10 + 1e-10, '%s: N_star -> n_s -> N_star' % cls)
    ctx.close(pot.sr_r2Nstar(r=r, **kw), x, 1e-9, 1e-13 * amp * f2 * 10 + 1e-10, '%s: N_star -> r -> N_star' % cls)
    # other direction
    n0, r0 = np.asarray(ns).ravel()[0].item(), np.asarray(r).ravel()[0].item()
    ctx.close(pot.sr_Nstar2ns(N_star=pot.sr_ns2Nstar(n_s=n0, **kw), **kw), n0, 1e-9, 1e-11, '%s: n_s -> N_star -> n_s' % cls)
    ctx.close(pot.sr_Nstar2r(N_star=pot.sr_r2Nstar(r=r0, **kw), **kw), r0, 1e-8, 1e-13, '%s: r -> N_star -> r' % cls)
    if cls == 'NaturalPotential':
        # 1 - n_s > 1/f^2 for every N_star: a spectral index closer to one belongs to no N_star
        from primpy.exceptionhandling import PrimpyError
        bad = 1 - (1 - 1e-6 - 0.9 * (N % 1)) / f2
        ctx.raises(PrimpyError, lambda: pot.sr_ns2Nstar(n_s=bad, **kw), 'natural inflation (phi0=%r) with n_s=%r' % (par['phi0'], bad))
    # leading-order agreement with the slow-roll parameters of the same potential
    V = pots.formula(dict(spec, Lambda=None))
    if cls == 'NaturalPotential' and N / f2 > 8:
        return
    phi = float(pot.sr_N2phi(N))
    e1, e2 = [float(e) for e in pots.eps_V(V, phi, 2)]
    p = float(par.get('p', FIXED_P.get(cls, 2)))
    if cls == 'StarobinskyPotential':
        tol_ns, tol_r = 3 * (1 + np.log(N)) / N**2, r0 * (2 + 2 * np.log(N)) / N
    elif cls == 'NaturalPotential':
        tol_ns, tol_r = 1.5 / N**2 + 1e-9, 1e-6 * r0 + 1e-9
    else:
        tol_ns, tol_r = (p + 2) * (p / 4 + 0.1) / N**2 / 1.5, 1e-9 * r0
    ctx.close(n0, 1 - 2 * e1 - e2, 0, tol_ns, '%s: n_s vs slow-roll parameters' % cls)
    ctx.close(r0, 16 * e1, 1e-9, tol_r, '%s: r vs slow-roll parameters' % cls)


@st.composite
def as_case(draw):
    spec = draw(pots.spec(features=True))
    return {'spec': spec, 'A_s': draw(logu(1e-12, 1e-5)), 'N': draw(uni(5., 80.)), 'how': draw(pick('N', 'phi')),
            'ctor': draw(st.booleans())}


def as_body(case, ctx):
    import primpy.potentials as pp
    from primpy.exceptionhandling import PrimpyWarning, PrimpyError
    spec, A_s, N = case['spec'], case['A_s'], case['N']
    cls = spec['cls']
    pot0 = pots.build(dict(spec, Lambda=None))
    if cls.startswith('DoubleWell') or cls == 'NaturalPotential':
        if pot0.sr_phi2N(spec['par']['phi0'] * (1 - 1e-3)) < N:
            ctx.label('N beyond the resolved hilltop')
            return
    phi = float(pot0.sr_N2phi(N))
    ctx.label(cls, case['how'], 'constructor' if case['ctor'] else 'method')
    ctx.nt()
    arg = {'N_star': N} if case['how'] == 'N' else {'phi_star': phi}
    if case['ctor']:
        kw = dict(spec['par'], A_s=A_s, **arg)
        if spec['Lambda'] not in (None, 1.):
            kw['Lambda'] = spec['Lambda']
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            pot = getattr(pp, cls)(**kw)
        warned = any(issubclass(x.category, PrimpyWarning) for x in w)
        ctx.check(warned == ('Lambda' in kw), '%s(A_s, Lambda=%s): PrimpyWarning %s'
                  % (cls, kw.get('Lambda'), 'given' if warned else 'missing'))
        kw = dict(spec['par'], A_s=A_s)
        ctx.raises(PrimpyError, lambda: getattr(pp, cls)(**kw), '%s(A_s) without N_star or phi_star' % cls)
        Lam, phis, Ns = pot.Lambda, phi, N
    else:
        pot = pots.build(spec)
        before = pot.Lambda
        Lam, phis, Ns = pot.sr_As2Lambda(A_s=A_s, phi_star=arg.get('phi_star'), N_star=arg.get('N_star'))
        ctx.check(pot.Lambda == before, '%s.sr_As2Lambda changed the object' % cls)
        ctx.close(phis, phi, 1e-7, 1e-9, '%s.sr_As2Lambda: phi_star' % cls)
        ctx.close(Ns, N, 1e-6, 1e-6 + abs(float(table_tol(spec, phi))) * 1e3 * N,
                  '%s.sr_As2Lambda: N_star' % cls)
        # feeding the amplitude back in is a fixed point
        pot2 = pots.build(dict(spec, Lambda=float(Lam)))
        Lam2, _, _ = pot2.sr_As2Lambda(A_s=A_s, phi_star=arg.get('phi_star'), N_star=arg.get('N_star'))
        ctx.close(Lam2, Lam, 1e-10, 0, '%s.sr_As2Lambda twice' % cls)
        pot = pot2
        ctx.raises(Exception, lambda: pot.sr_As2Lambda(A_s=A_s, phi_star=phi, N_star=N),
                   '%s.sr_As2Lambda with both N_star and phi_star' % cls)
    ctx.check(Lam > 0, '%s: Lambda=%r' % (cls, Lam))
    Vf = pots.formula(dict(spec, Lambda=float(Lam)))
    base = dict(spec, Lambda=None)
    if cls in pots.FEATURES:
        base = {'cls': 'StarobinskyPotential', 'par': {}, 'Lambda': None}
    e1 = float(pots.eps_V(pots.formula(base), float(phis), 1)[0])
    got = float(Vf(mp.mpf(float(phis)))) / (24 * np.pi**2 * e1)
    # the inverse table of the double wells limits the accuracy of phi_star
    ctx.close(got, A_s, 1e-8 + (table_tol(spec, phi) / (spec['par']['phi0'] - phi) * 20
                                if cls.startswith('DoubleWell') else 0), 0, '%s: A_s from Lambda' % cls)


@st.composite
def dep_case(draw):
    spec = draw(pots.spec(classes=['StarobinskyPotential', 'NaturalPotential', 'DoubleWell2Potential',
                                   'DoubleWell4Potential']))
    return {'spec': spec, 'us': draw(st.lists(uni(0., 1.), min_size=1, max_size=4)), 'arr': draw(st.booleans())}


def dep_body(case, ctx):
    spec = case['spec']
    pot = pots.build(spec)
    cls = spec['cls']
    x = np.array([efold_field(spec, u, pot.phi_end) for u in case['us']])
    if not case['arr']:
        x = float(x[0])
    phi0 = spec['par'].get('phi0', 1.)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        got = pot.phi2efolds(x, phi0) if 'phi0' in spec['par'] else pot.phi2efolds(x)
    ctx.check(any(issubclass(v.category, DeprecationWarning) for v in w), '%s.phi2efolds does not announce its deprecation' % cls)
    ctx.label(cls)
    ctx.nt()
    ctx.close(got, pot.sr_phi2N(x), 1e-7, 1e-12 * (10 + phi0**2) + (1e-15 * phi0**4 if '4' in cls else 0) + 1e-9,
              '%s.phi2efolds vs sr_phi2N' % cls)
    if 'phi0' in spec['par']:
        ctx.raises(AssertionError, lambda: pot.phi2efolds(phi0 * 1.1, phi0), '%s.phi2efolds beyond phi0' % cls)


SUBS = [
    Sub('field_efolds', efold_case, efold_body, 900, 20000, shards=(3, 8)),
    Sub('ns_r_Nstar', ns_case, ns_body, 900, 30000, shards=(1, 4)),
    Sub('amplitude', as_case, as_body, 700, 20000, shards=(2, 4)),
    Sub('deprecated', dep_case, dep_body, 400, 10000, shards=(1, 2)),
]
