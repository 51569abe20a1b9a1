"""C15: classification of universes without a Big Bang and of recollapsing universes against the dynamics, in exact arithmetic."""
import warnings
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
from core import Sub, Inconclusive
from gen import uni, pick, logu, unit
from checks.c14 import OMEGA_R_H2
import const as C

RULE = ('non-trivial: a universe whose past or future is decided in exact rational arithmetic and compared with the classification; '
        'distinct = distinct generated densities')
ASSUMPTIONS = ['the dividing lines are those of universes of matter, curvature and cosmological constant (as documented); next to them, closer '
               'than 1e-9 relative, nothing is decided',
               'the Hubble parameter includes radiation: universes for which radiation decides between the classes are not decided',
               'Omega_m0 below 1e-150 is not generated (other than 0)']


def min_cubic(Om, OL):
    """Minimum of E^2(x) = Om x^3 + OK x^2 + OL in the past (x=1/a>1) and in the future (0<=x<1), exactly; None if at an end of the range."""
    Om, OL = F(Om), F(OL)
    OK = 1 - Om - OL

    def f(x):
        return Om * x**3 + OK * x**2 + OL
    past, future = F(1), min(F(1), OL)
    if Om > 0:
        x = -2 * OK / (3 * Om)
        if x > 1:
            past = f(x)
        elif 0 < x < 1:
            future = min(future, f(x))
    elif OK < 0:
        past = F(-1)                        # E^2 falls without limit
    return past, future


def real_roots(Or, Om, OK, OL):
    """(bounce, turning point) with radiation, by sampling E^2 densely in ln(x)."""
    x = np.exp(np.linspace(0, 60, 60001))
    E2 = ((Or * x + Om) * x + OK) * x**2 + OL
    y = np.exp(-np.linspace(0, 60, 60001))
    G2 = ((Or * y + Om) * y + OK) * y**2 + OL
    return bool(np.any(E2 < 0)), bool(np.any(G2 < 0) or OL < 0)


# ------------------------------------------------------------------ dividing lines
@st.composite
def line_case(draw):
    Om = draw(st.one_of(uni(0., 3.), logu(1e-150, 1.), logu(1e-8, 1.), logu(0.5, 1e4), pick(0., 0.5, 1., 2., 0.25, 0.3),
                        logu(1e-12, 1e-1).map(lambda d: 0.5 + d), logu(1e-12, 1e-1).map(lambda d: 0.5 - d),
                        logu(1e-12, 1e-1).map(lambda d: 1 + d), logu(1e-12, 1e-1).map(lambda d: 1 - d)))
    return dict(Om=Om, d=draw(logu(1e-9, 1.)), OL=draw(uni(-2., 5.)), kind=draw(pick('float', 'np', 'int')))


def line_body(case, ctx):
    import primpy.bigbang as bb
    Om = case['Om']
    arg = Om
    if case['kind'] == 'np':
        arg = np.float64(Om)
    elif case['kind'] == 'int' and Om == int(Om):
        arg = int(Om)
    up, lo = float(bb.no_Big_Bang_line(Omega_m0=arg)), float(bb.expand_recollapse_line(Omega_m0=arg))
    ctx.check(np.isfinite(up) and np.isfinite(lo), 'dividing lines at Omega_m0=%s: %s, %s' % (Om, up, lo))
    ctx.check(lo <= up, 'lines out of order at Omega_m0=%s: %s > %s' % (Om, lo, up))
    d = case['d']
    # the upper line
    a, b = F(up) * (1 + F(d)), F(up) * (1 - F(d))
    ctx.check(min_cubic(Om, a)[0] < 0, 'no bounce just above the no-Big-Bang line, Omega_m0=%s, Omega_L0=%s' % (Om, float(a)))
    ctx.check(min_cubic(Om, b)[0] > 0, 'bounce just below the no-Big-Bang line, Omega_m0=%s, Omega_L0=%s' % (Om, float(b)))
    # the lower line; next to its branch point it rises as (Omega_m0-1)^3, known up to rounding in the cosine only
    delta = (Om - 1) / Om if Om > 1 else 0.
    rel = max(d, 1e-13 / delta) if delta else 1.
    if Om >= 1 and rel > 0.3:
        s = 10 * (F(Om) - 1)**3 + F(1, 10**30)
        ctx.check(abs(F(lo)) <= s, 'recollapse line at Omega_m0=%s: %s' % (Om, lo))
    elif Om > 1:
        ctx.check(lo > 0, 'recollapse line at Omega_m0=%s: %s' % (Om, lo))
        s = F(rel) * F(lo)
    else:
        ctx.check(lo == 0, 'recollapse line at Omega_m0=%s: %s' % (Om, lo))
        s = F(d)
    ctx.check(min_cubic(Om, F(lo) + s)[1] > 0, 'turning point just above the recollapse line, Omega_m0=%s, Omega_L0=%s' % (Om, float(F(lo) + s)))
    ctx.check(min_cubic(Om, F(lo) - s)[1] < 0, 'no turning point just below the recollapse line, Omega_m0=%s, Omega_L0=%s' % (Om, float(F(lo) - s)))
    # any other universe
    OL = case['OL']
    past, future = min_cubic(Om, OL)
    if abs(OL - up) > 1e-9 * up:
        ctx.check((OL > up) == (past < 0), 'Omega_m0=%s, Omega_L0=%s: line %s, minimum of H^2 in the past %s' % (Om, OL, up, float(past)))
    if past > 0 and abs(OL - lo) > 1e-9 * abs(lo):
        ctx.check((OL < lo) == (future < 0), 'Omega_m0=%s, Omega_L0=%s: line %s, minimum of H^2 in the future %s' % (Om, OL, lo, float(future)))
    # monotonic lines
    up2, lo2 = float(bb.no_Big_Bang_line(Omega_m0=Om * (1 + d) + 1e-9)), float(bb.expand_recollapse_line(Omega_m0=Om * (1 + d) + 1e-9))
    ctx.check(up2 >= up * (1 - 1e-12) and lo2 >= lo - 1e-15, 'dividing lines fall between Omega_m0=%s and %s' % (Om, Om * (1 + d)))
    for fn in (bb.no_Big_Bang_line, bb.expand_recollapse_line):
        ctx.raises(ValueError, lambda: fn(Omega_m0=-max(Om, 1e-300)), '%s of negative matter density' % fn.__name__)
        ctx.raises(ValueError, lambda: fn(Omega_m0=float('nan')), '%s of undefined matter density' % fn.__name__)
    ctx.label('0' if Om == 0 else '<0.5' if Om < 0.5 else '<1' if Om < 1 else '>=1', 'near a branch point' if min(abs(Om - 0.5), abs(Om - 1)) < 1e-2 else 'elsewhere')
    ctx.nt()


# ------------------------------------------------------------------ the Hubble parameter
@st.composite
def hubble_case(draw):
    Om = draw(st.one_of(uni(0., 3.), logu(1e-6, 1.), pick(0., 1., 0.5)))
    return dict(Om=Om, h=draw(uni(0.3, 1.3)), how=draw(pick('any', 'any', 'upper', 'lower')), OL=draw(uni(-1.5, 4.)),
                d=draw(st.one_of(logu(1e-4, 0.5), logu(1e-4, 0.5).map(lambda x: -x))), x=draw(st.lists(uni(-60., 20.), min_size=1, max_size=4)),
                fn=draw(pick('H', 'cHH', 'eta', 'H')), units=draw(pick('planck', 'SI')), flat=draw(st.booleans()))


def hubble_body(case, ctx):
    import primpy.bigbang as bb
    from primpy.exceptionhandling import BigBangError, BigBangWarning, PrimpyError, PrimpyWarning
    Om, h = case['Om'], case['h']
    Or = OMEGA_R_H2 / h**2
    OL = case['OL']
    if case['how'] == 'upper':
        OL = bb.no_Big_Bang_line(Omega_m0=Om) * (1 + case['d'])
    elif case['how'] == 'lower':
        OL = bb.expand_recollapse_line(Omega_m0=Om) + case['d']
    OK = 0. if case['flat'] and case['how'] == 'any' else float(1 - Or - Om - OL)
    OL = 1 - Or - Om - OK
    past, future = min_cubic(Om, OL)
    near = 1e-7
    if abs(past) < near or abs(future) < near or abs(OL) < near:
        raise Inconclusive('on a dividing line')
    bounce, turn = real_roots(Or, Om, OK, OL)
    if bounce != (past < 0) or (turn != (future < 0) and not bounce):
        raise Inconclusive('radiation decides')
    N0 = np.log(1. if OK == 0 else 1 / (h * 1e5 / C.MPC_M * C.T_P * np.sqrt(abs(OK))))
    N = N0 + np.array(case['x'])
    kw = dict(Omega_m0=Om, Omega_K0=OK, h=h)
    fn = {'H': lambda: bb.Hubble_parameter(N, units=case['units'], **kw), 'cHH': lambda: bb.comoving_Hubble_horizon(N, units=case['units'], **kw),
          'eta': lambda: bb.conformal_time(float(N0 - 30), np.array([N0 - 5.]), **kw)}[case['fn']]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            v, err = fn(), None
        except PrimpyError as e:
            err = e
    told = any(issubclass(i.category, BigBangWarning) for i in w)
    what = 'Omega_m0=%r, Omega_K0=%r, h=%r (Omega_L0=%r)' % (Om, OK, h, OL)
    if bounce:
        ctx.check(isinstance(err, BigBangError), 'universe without Big Bang not refused: ' + what)
        ctx.label('bounce')
    else:
        ctx.check(err is None, 'universe with Big Bang refused (%s): %s' % (err, what))
        ctx.check(told == turn, ('recollapsing universe without warning: ' if turn else 'warning for a universe which expands forever: ') + what)
        ctx.check(issubclass(BigBangWarning, PrimpyWarning) and issubclass(BigBangWarning, Warning), 'class of the warning')
        ctx.label('turning point' if turn else 'expands forever')
        x = np.exp(-np.array(case['x']))
        E2 = ((Or * x + Om) * x + OK) * x**2 + OL
        if case['fn'] == 'H':
            H0 = h * 1e5 / C.MPC_M * (C.T_P if case['units'] == 'planck' else 1)
            m = E2 > 1e-6 * (Or * x**4 + Om * x**3 + abs(OK) * x**2 + abs(OL))
            ctx.close(v[m], H0 * np.sqrt(E2[m]), 1e-8, 0, 'Hubble parameter')
            m = E2 < -1e-6 * (Or * x**4 + Om * x**3 + abs(OK) * x**2 + abs(OL))
            ctx.check(not np.any(np.isfinite(v[m])), 'Hubble parameter of %s beyond the turning point' % v[m])
    ctx.label(case['how'], case['fn'])
    ctx.nt()


def negative_body(case, ctx):
    import primpy.bigbang as bb
    N = np.array([100., 140.])
    Om = -case['Om'] if case['Om'] else -1e-9
    for fn in (bb.Hubble_parameter, bb.comoving_Hubble_horizon):
        ctx.raises(ValueError, lambda: fn(N, Omega_m0=Om, Omega_K0=case['OK'], h=case['h']), 'negative matter density accepted by %s' % fn.__name__)
    ctx.raises(ValueError, lambda: bb.conformal_time(100., 140., Omega_m0=Om, Omega_K0=case['OK'], h=case['h']), 'negative matter density accepted')
    ctx.nt()


@st.composite
def negative_case(draw):
    return dict(Om=draw(logu(1e-9, 5.)), OK=draw(st.one_of(uni(-2., 2.), pick(0.))), h=draw(uni(0.3, 1.3)))


SUBS = [Sub('lines', line_case, line_body, 6000, 600000, shards=(4, 8)),
        Sub('hubble', hubble_case, hubble_body, 2000, 60000, shards=(4, 8)),
        Sub('negative', negative_case, negative_body, 200, 5000, shards=(1, 1))]
