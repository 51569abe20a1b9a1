"""C01: potentials, derivatives, inverse, specialisations, element-wise evaluation."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
from core import Sub
from gen import uni, pick, logu
import pots

RULE = ('a case is non-trivial if the compared function is not identically zero or constant there and, for fields, '
        'the value lies where both the monomial-like core and the non-linear part of V contribute, or the sign or power '
        'of the field is one no test uses; distinct = distinct generated (class, parameters, field values)')
ASSUMPTIONS = ['field values and parameters range over the generator bounds in harness/pots.py',
               'documented formulas are those of the class docstrings (Natural with its overall 1/2, T-model with '
               'sqrt(6*alpha)), as the potential is implemented']
NAMES = ['V', 'dV', 'd2V', 'd3V', 'd4V']
SIGNED = {'MonomialPotential', 'LinearPotential', 'QuadraticPotential', 'CubicPotential', 'QuarticPotential',
          'StarobinskyPotential', 'NaturalPotential', 'RadionGauge2Potential'} | set(pots.FEATURES)


def cancel_scale(spec, V, phi, n):
    """max |V^(n)| around phi: what rounding errors are measured against."""
    h = 0.1 * float(pots.length(spec, phi))
    return [max(abs(float(d)) for d in ds) for ds in
            zip(*[pots.derivs(V, phi + s * h, n) for s in (-1, 0, 1)])]


def domain_field(spec, u, neg):
    phi = pots.field_from_unit(spec, u)
    cls, par = spec['cls'], spec['par']
    if neg:
        if cls in SIGNED:
            phi = -phi * (0.25 if cls.startswith('Starobinsky') else 1)
        elif cls.startswith('DoubleWell'):
            p = par.get('p', 2)
            if p == int(p):
                phi = 2 * par['phi0'] - phi   # other side of the hilltop
    return float('%.12g' % phi)


@st.composite
def field_case(draw):
    spec = draw(pots.spec())
    if spec['cls'] in pots.FEATURES and draw(st.booleans()):
        # close to the feature
        x = spec['par']['phi_feature'] + draw(uni(-3., 3.)) * spec['par']['b_feature']
        return {'spec': spec, 'phi': float('%.10g' % (x if x > 0.05 else 0.05))}
    return {'spec': spec, 'phi': domain_field(spec, draw(uni(0., 1.)), draw(pick(False, False, False, True)))}


def derivs_body(case, ctx):
    spec, phi = case['spec'], case['phi']
    pot = pots.build(spec)
    V = pots.formula(spec)
    want = [float(d) for d in pots.derivs(V, phi, 4)]
    scale = cancel_scale(spec, V, phi, 4)
    L4 = (spec['Lambda'] or 1.)**4
    ctx.label(spec['cls'], 'negative field' if phi < 0 else 'positive field')
    ctx.nt(all(w != 0 for w in want[:3]))
    # cancellation of O(1) terms: absolute error eps*Lambda^4 for V, more for derivatives of plateaus
    for n, name in enumerate(NAMES):
        got = getattr(pot, name)(phi)
        ctx.check(np.ndim(got) == 0, '%s.%s(float) is not a scalar: %r' % (spec['cls'], name, got))
        length = pots.length(spec, phi)
        floor = 3e-14 * max(scale[0], 1e-3 * L4 * min(1., length)**2) / length**n
        ctx.close(got, want[n], 1e-9, 1e-10 * scale[n] + floor, '%s.%s' % (spec['cls'], name))


@st.composite
def inv_case(draw):
    spec = draw(pots.spec(features=False))
    return {'spec': spec, 'u': draw(uni(0., 1.))}


def inv_body(case, ctx):
    spec = case['spec']
    phi = pots.field_from_unit(spec, case['u'])
    pot = pots.build(spec)
    t = pots.taylor(pots.formula(spec), phi, 1)
    cond = abs(float(t[0] / t[1]))        # |V/V'|
    Vv = float(t[0])
    if Vv >= (spec['Lambda'] or 1.)**4 * (1 - 1e-12) and not spec['cls'].startswith(('Mon', 'Lin', 'Qua', 'Cub')):
        ctx.label('plateau: too flat for an inverse')
        return
    got = pot.inv_V(Vv)
    ctx.label(spec['cls'])
    ctx.nt()
    ctx.close(got, phi, 1e-10, 4e-14 * cond, '%s.inv_V(V(phi))' % spec['cls'])
    got = pot.inv_V(pot.V(phi))
    ctx.close(got, phi, 1e-9, 1e-12 * cond + (1e-7 if spec['cls'] == 'NaturalPotential' else 0) * 1e-3,
              '%s.inv_V(pot.V(phi))' % spec['cls'])
    arr = pot.inv_V(np.array([Vv, 0.5 * Vv]))
    ctx.close(arr[0], phi, 1e-10, 4e-14 * cond, '%s.inv_V(array)' % spec['cls'])


PAIRS = {'LinearPotential': ('MonomialPotential', {'p': 1}), 'QuadraticPotential': ('MonomialPotential', {'p': 2}),
         'CubicPotential': ('MonomialPotential', {'p': 3}), 'QuarticPotential': ('MonomialPotential', {'p': 4}),
         'DoubleWell2Potential': ('DoubleWellPotential', {'p': 2}),
         'DoubleWell4Potential': ('DoubleWellPotential', {'p': 4}),
         'RadionGauge2Potential': ('RadionGaugePotential', {'p': 2})}


@st.composite
def special_case(draw):
    spec = draw(pots.spec(classes=sorted(PAIRS) + pots.FEATURES))
    if spec['cls'] in pots.FEATURES:
        spec['par']['a_feature'] = 0.0
        other = {'cls': 'StarobinskyPotential', 'par': {}, 'Lambda': spec['Lambda']}
    else:
        g, extra = PAIRS[spec['cls']]
        other = {'cls': g, 'par': dict(spec['par'], **extra), 'Lambda': spec['Lambda']}
    return {'spec': spec, 'other': other, 'u': draw(uni(0.05, 1.)), 'N': draw(uni(1., 70.)),
            'neg': draw(pick(False, False, True))}


def special_body(case, ctx):
    spec, other = case['spec'], case['other']
    a, b = pots.build(spec), pots.build(other)
    phi = domain_field(spec, case['u'], case['neg'])
    ctx.label(spec['cls'])
    ctx.nt()
    L = pots.length(spec, phi)
    for n, name in enumerate(NAMES):
        ctx.close(getattr(a, name)(phi), getattr(b, name)(phi), 1e-10, 1e-12 * abs(b.V(phi)) / L**n,
                  '%s.%s vs %s' % (spec['cls'], name, other['cls']))
    if phi > 0:
        for name in ['get_epsilon_1V', 'get_epsilon_2V', 'get_epsilon_3V', 'get_epsilon_4V', 'get_epsilon_1',
                     'get_epsilon_2', 'get_epsilon_3', 'get_epsilon_4']:
            ctx.close(getattr(a, name)(phi), getattr(b, name)(phi), 1e-8, 1e-13,
                      '%s.%s vs %s' % (spec['cls'], name, other['cls']))
    if phi > 0 and b.V(phi) < (1 - 1e-9) * b.Lambda**4 or spec['cls'] in ('LinearPotential', 'QuadraticPotential',
                                                                         'CubicPotential', 'QuarticPotential'):
        v = b.V(abs(phi))
        cond = abs(v / b.dV(abs(phi)))
        if not (case['neg'] and 'phi0' in spec['par']):
            ctx.close(a.inv_V(v), b.inv_V(v), 1e-9, 1e-12 * cond, '%s.inv_V' % spec['cls'])
    ctx.close(a.phi_end, b.phi_end, 1e-8, 1e-9, '%s.phi_end' % spec['cls'])
    if not (case['neg'] and 'phi0' in spec['par']):
        x = abs(phi)
        ctx.close(a.sr_phi2N(x), b.sr_phi2N(x), 1e-7, 1e-7 * (1 + x**2), '%s.sr_phi2N' % spec['cls'])
    try:
        want = b.sr_N2phi(case['N'])
    except ValueError:
        return    # out of the range of the general family's table (hilltop)
    ctx.close(a.sr_N2phi(case['N']), want, 1e-6, 1e-7, '%s.sr_N2phi' % spec['cls'])


@st.composite
def array_case(draw):
    spec = draw(pots.spec())
    us = draw(st.lists(uni(0., 1.), min_size=1, max_size=6))
    return {'spec': spec, 'us': us, 'neg': draw(pick(False, False, True)), 'twod': draw(st.booleans())}


def array_body(case, ctx):
    spec = case['spec']
    pot = pots.build(spec)
    phis = np.array([domain_field(spec, u, case['neg'] and i % 2 == 0) for i, u in enumerate(case['us'])])
    if case['twod'] and len(phis) % 2 == 0:
        phis = phis.reshape(2, -1)
    ctx.label(spec['cls'], 'size %d' % phis.size)
    ctx.nt(phis.size > 1)
    before = {k: v for k, v in vars(pot).items()}
    keep = phis.copy()
    names = NAMES + ['get_epsilon_1V', 'get_epsilon_2V', 'get_epsilon_3V', 'get_epsilon_4V']
    if np.all(phis > 0) and not ('phi0' in spec['par'] and np.any(phis >= spec['par']['phi0'])):
        names = names + ['sr_phi2N']
    first = {}
    for name in names:
        f = getattr(pot, name)
        got = f(phis)
        first[name] = got
        ctx.check(np.array_equal(phis, keep), '%s.%s changed its argument' % (spec['cls'], name))
        want = np.array([f(x) for x in keep.ravel()], dtype=float).reshape(keep.shape)
        ref = abs(want)
        if name == 'sr_phi2N':
            ref = ref + 1 + keep**2
            if spec['cls'] == 'DoubleWellPotential' and spec['par']['p'] != 2:    # terms of size phi0^2/(p-2) cancel
                ref = ref + spec['par']['phi0']**2 / abs(spec['par']['p'] - 2)
        n = NAMES.index(name) if name in NAMES else 0
        if name in NAMES:
            L = pots.length(spec, keep)
            ref = ref + np.abs(pot.V(keep)) / L**n
        ctx.close(np.broadcast_to(got, keep.shape), want, 1e-9, 1e-11 * ref, '%s.%s(array)' % (spec['cls'], name))
        again = f(phis)
        ctx.check(np.array_equal(np.asarray(again), np.asarray(got), equal_nan=True),
                  '%s.%s differs when evaluated again' % (spec['cls'], name))
    after = {k: v for k, v in vars(pot).items() if k in before}
    ctx.check(set(before) <= set(vars(pot)) and all(np.array_equal(before[k], after[k]) for k in before),
              '%s: evaluation changed the parameters of the potential' % spec['cls'])
    # another object with other parameters must not interfere
    other = pots.build(dict(spec, Lambda=2.3456))
    other.V(keep), other.phi_end
    for name in NAMES:
        ctx.check(np.array_equal(np.asarray(getattr(pot, name)(phis)), np.asarray(first[name]), equal_nan=True),
                  '%s.%s depends on another object' % (spec['cls'], name))


@st.composite
def integer_case(draw):
    spec = draw(pots.spec())
    if 'phi0' in spec['par']:
        spec['par']['phi0'] = draw(st.integers(8, 60))
    return {'spec': spec, 'phi': draw(st.integers(1, 7 if 'phi0' in spec['par'] else 12)), 'neg': draw(pick(False, False, True))}


def integer_body(case, ctx):
    """Field values that happen to be integers (also of an integer type)."""
    spec, phi = case['spec'], case['phi']
    if phi > pots.field_from_unit(spec, 1.):
        phi = max(1, int(pots.field_from_unit(spec, 1.)))
    if phi > pots.field_from_unit(spec, 1.):
        return ctx.label('no integer in the domain')
    pot = pots.build(spec)
    if case['neg'] and spec['cls'] in SIGNED:
        phi = -phi
    ctx.label(spec['cls'])
    ctx.nt()
    names = NAMES + (['get_epsilon_%dV' % i for i in (1, 2, 3, 4)] + ['get_epsilon_%d' % i for i in (1, 2, 3, 4)] if phi > 0 else [])
    for name in names + (['sr_phi2N'] if phi > 0 else []):
        f = getattr(pot, name)
        want = f(float(phi))
        L = pots.length(spec, phi)
        slack = 1e-11 * (abs(float(pot.V(float(phi)))) / L**NAMES.index(name) if name in NAMES else 1e4 * (1 + phi**2) if name == 'sr_phi2N' else 0.)
        for kind, x in (('int', phi), ('np.int64', np.int64(phi)), ('integer array', np.array([phi, phi]))):
            try:
                got = f(x)
            except Exception as e:
                ctx.fail('%s.%s of the %s %d: %s: %s' % (spec['cls'], name, kind, phi, type(e).__name__, e))
            ctx.close(np.broadcast_to(got, np.shape(x)), np.full(np.shape(x), want), 1e-9, slack, '%s.%s of the %s %d' % (spec['cls'], name, kind, phi))


@st.composite
def refuse_case(draw):
    spec = draw(pots.spec())
    known = set(spec['par']) | {'Lambda', 'A_s', 'N_star', 'phi_star', 'p', 'alpha', 'phi0'}
    name = draw(st.one_of(pick('mass', 'm', 'lambda', 'Lamda', 'lam', 'LAMBDA', 'phi_0', 'n', 'Alpha', 'V0', 'amplitude', 'phi_feat', 'a', 'b'),
                          st.text('abcdefghijklmnopqrstuvwxyz_', min_size=1, max_size=8)))
    return {'spec': spec, 'name': name if name not in known else name + '_x', 'value': draw(pick(0, 1, 2, None, 1e-3))}


def refuse_body(case, ctx):
    """A misspelt or unknown parameter must not silently give a different potential."""
    spec, name = case['spec'], case['name']
    pots.build(spec)   # the same request without the unknown parameter is accepted
    ctx.label(spec['cls'])
    ctx.nt()
    ctx.raises(Exception, lambda: pots.build(spec, **{name: case['value']}), '%s(%s=%r)' % (spec['cls'], name, case['value']))


SUBS = [
    Sub('refused', refuse_case, refuse_body, 300, 6000, shards=(1, 2)),
    Sub('derivatives', field_case, derivs_body, 1600, 60000, shards=(3, 8)),
    Sub('inverse', inv_case, inv_body, 600, 20000, shards=(1, 4)),
    Sub('special', special_case, special_body, 600, 20000, shards=(1, 4)),
    Sub('integers', integer_case, integer_body, 300, 6000, shards=(1, 2)),
    Sub('elementwise', array_case, array_body, 500, 15000, shards=(1, 4)),
]
