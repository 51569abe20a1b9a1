"""C16: Cobaya theories of power-law and feature spectra against the documented functions, directly and inside a Cobaya model."""
import logging
import math
import numpy as np
from hypothesis import strategies as st
from core import Sub
from gen import uni, pick, logu

RULE = ('non-trivial: a spectrum of a theory compared with the formula over the whole grid, or a contradictory request rejected; '
        'distinct = distinct generated (theory, parameter set, values)')
ASSUMPTIONS = ['A_s is always given (it has no default)',
               'contradictory means that r and A_t/A_s differ by more than 1e-6 relative, or n_t_run without n_t',
               'inflationary consistency to second order as in CAMB: n_t = -r/8 (2 - n_s - r/8), n_t_run = r/8 (r/8 + n_s - 1)']

CLASSES = {'PowerLawPPS': 'cobaya_wrapper.powerlaw_pps', 'LogOscillationPPS': 'cobaya_wrapper.feature_pps',
           'LinOscillationPPS': 'cobaya_wrapper.feature_pps', 'CutoffPPS': 'cobaya_wrapper.feature_pps'}
FEATURE = {'PowerLawPPS': [], 'LogOscillationPPS': ['A_log', 'w_log', 'p_log'], 'LinOscillationPPS': ['A_lin', 'w_lin', 'p_lin'],
           'CutoffPPS': ['k_cut', 's_cut']}


@st.composite
def parameters(draw, cls=None):
    cls = draw(pick(*CLASSES)) if cls is None else cls
    p = {'A_s': draw(logu(1e-11, 1e-7))}
    for n, s in (('n_s', uni(0.5, 1.5)), ('n_run', uni(-0.1, 0.1)), ('n_runrun', uni(-0.05, 0.05))):
        if draw(st.booleans()):
            p[n] = draw(s)
    tensor = draw(pick('none', 'r', 'A_t', 'both', 'r', 'zero'))
    if tensor in ('r', 'both'):
        p['r'] = draw(st.one_of(logu(1e-6, 2.), uni(1e-3, 0.5)))
    if tensor == 'A_t':
        p['A_t'] = p['A_s'] * draw(logu(1e-6, 2.))
    if tensor == 'both':
        p['A_t'] = p['r'] * p['A_s']
    if tensor == 'zero':
        p['r'] = 0
    if draw(st.booleans()):
        p['n_t'] = draw(st.one_of(uni(-0.5, 0.5), pick(0)))
        if draw(st.booleans()):
            p['n_t_run'] = draw(uni(-0.1, 0.1))
    elif draw(pick(False, False, False, True)):
        p['n_t_run'] = 0
    f = FEATURE[cls]
    if cls == 'CutoffPPS':
        if draw(st.booleans()):
            p['k_cut'] = draw(logu(1e-6, 1e-1))
        if draw(st.booleans()):
            p['s_cut'] = draw(uni(0.5, 6.))
    elif f:
        how = draw(pick('on', 'on', 'off', 'default', 'no phase', 'zero'))
        if how in ('on', 'no phase', 'zero'):
            p[f[0]] = 0. if how == 'zero' else draw(uni(-0.5, 0.5))
            p[f[1]] = draw(logu(0.1, 100.))
        if how in ('on', 'zero'):
            p[f[2]] = draw(st.one_of(uni(-1., 1.), uni(-5., 5.)))
        if how == 'off':
            p[f[0]] = 0
    names = draw(st.permutations(sorted(p)))
    return {n: p[n] for n in names}


def spectra(cls, p, ks, k0):
    """Documented spectra, with and without feature."""
    As, ns, a, b = p['A_s'], p.get('n_s', 1), p.get('n_run', 0), p.get('n_runrun', 0)
    r = p.get('r')
    At = p.get('A_t', 0) or (r * As if r else 0.)
    r = At / As
    nt, nta = p.get('n_t'), p.get('n_t_run', 0)
    if nt is None:
        nt = -r / 8 * (2 - ns - r / 8)
        nta = r / 8 * (r / 8 + ns - 1)
    s, t, raw = [], [], []
    for k in ks:
        x = math.log(k / k0)
        f = 1.
        if cls == 'LogOscillationPPS' and p.get('A_log'):
            f = 1 + p['A_log'] * math.cos(p['w_log'] * x + 2 * math.pi * p.get('p_log', 0))
        elif cls == 'LinOscillationPPS' and p.get('A_lin'):
            f = 1 + p['A_lin'] * math.cos(p['w_lin'] * k / k0 + 2 * math.pi * p.get('p_lin', 0))
        elif cls == 'CutoffPPS':
            e = (k / p.get('k_cut', 1e-3))**p.get('s_cut', 2)
            f = -math.expm1(-e)
        raw.append((As * k0**(1 - ns) * k**(ns - 1) * math.exp(a * x * x / 2 + b * x**3 / 6),
                    At * math.exp(nt * x) * math.exp(nta * x * x / 2)))
        s.append(f * raw[-1][0])
        t.append(f * raw[-1][1])
    raw = np.array(raw)
    return np.array(s), np.array(t), raw[:, 0], raw[:, 1]


def theory(cls, **info):
    import importlib
    C = getattr(importlib.import_module(CLASSES[cls]), cls)
    return C(info) if info else C()


def compare(ctx, got, want, what, raw):
    ctx.check(sorted(got) == ['Pk', 'kmax', 'kmin', 'log_regular'], 'entries of the spectrum: %s' % sorted(got))
    ctx.check(bool(got['log_regular']), 'grid not declared as regular in log k')
    ctx.check(np.shape(got['Pk']) == want.shape, '%s on %s points' % (what, np.shape(got['Pk'])))
    ctx.close(got['Pk'], want, 1e-7, 1e-14 * raw, what)


def grid(ctx, th, got):
    """The declared grid."""
    kmin, kmax, n = got['kmin'], got['kmax'], np.size(got['Pk'])
    ctx.check(kmin <= 1e-6 and kmax >= 10 and n >= 400, 'grid from %s to %s with %d points' % (kmin, kmax, n))
    return np.exp(np.linspace(math.log(kmin), math.log(kmax), n))


@st.composite
def theory_case(draw):
    cls = draw(pick(*CLASSES))
    return dict(cls=cls, seq=draw(st.lists(parameters(cls), min_size=1, max_size=3)), pivot=draw(pick(None, None, 0.002, 0.05, 0.3)),
                bad=draw(pick(None, 'r', 'n_t_run')), f=draw(st.one_of(uni(1e-3, 3.), uni(-0.99, -1e-3))))


def theory_body(case, ctx):
    cls = case['cls']
    th = theory(cls, **({'k_pivot': case['pivot']} if case['pivot'] else {}))
    k0 = case['pivot'] or 0.05
    sup = set(th.get_can_support_params())
    need = {'A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'n_t_run', 'r'} | set(FEATURE[cls])
    ctx.check(sup == need, 'supported parameters of %s: %s' % (cls, sorted(sup)))
    for p in case['seq']:
        state = {}
        th.calculate(state, want_derived=True, **p)
        s, t = state['primordial_scalar_pk'], state['primordial_tensor_pk']
        ks = grid(ctx, th, s)
        ws, wt, rs, rt = spectra(cls, p, ks, k0)
        compare(ctx, s, ws, 'scalar spectrum of %s%s' % (cls, sorted(p)), rs)
        compare(ctx, t, wt, 'tensor spectrum of %s%s' % (cls, sorted(p)), rt)
        ctx.check(s['kmin'] == t['kmin'] and s['kmax'] == t['kmax'], 'grids of scalars and tensors differ')
        # feature switched off
        if cls != 'PowerLawPPS':
            q = {n: v for n, v in p.items() if n not in FEATURE[cls]}
            pl, off = {}, {}
            theory('PowerLawPPS', k_pivot=k0).calculate(pl, **q)
            if cls == 'CutoffPPS':
                q = dict(q, k_cut=1e-12)
            th.calculate(off, **q)
            for n in pl:
                ctx.close(off[n]['Pk'], pl[n]['Pk'], 1e-13, 0, '%s of %s without feature' % (n, cls))
        ctx.label(cls, 'r' if 'r' in p and 'A_t' not in p else 'A_t' if 'r' not in p and 'A_t' in p else 'r and A_t' if 'r' in p else 'no tensors',
                  'n_t' if 'n_t' in p else 'consistency')
        ctx.nt()
    # contradictory requests
    p = dict(case['seq'][-1])
    if case['bad'] == 'r':
        p['r'] = p.get('r') or 0.1
        p['A_t'] = p['r'] * p['A_s'] * (1 + case['f'])
        ctx.raises(Exception, lambda: th.calculate({}, **p), 'r=%s with A_t/A_s=%s' % (p['r'], p['A_t'] / p['A_s']))
        ctx.label('contradiction')
    elif case['bad'] == 'n_t_run':
        p.pop('n_t', None)
        p['n_t_run'] = case['f']
        ctx.raises(Exception, lambda: th.calculate({}, **p), 'n_t_run without n_t')
        ctx.label('contradiction')


# ------------------------------------------------------------------ inside a Cobaya model
@st.composite
def model_case(draw):
    cls = draw(pick(*CLASSES))
    p = draw(parameters(cls))
    vary = [n for n in p if n in ('A_s', 'n_s', 'n_run', 'n_runrun', 'n_t') or (n in FEATURE[cls] and p[n])]
    n = draw(st.integers(1, 3))
    pts = [[draw(uni(-0.3, 0.3)) for _ in vary] for _ in range(n)]
    return dict(cls=cls, p=p, vary=vary, pts=pts, back=draw(st.booleans()))


def model_body(case, ctx):
    import importlib
    from cobaya.model import get_model
    from cobaya.likelihood import Likelihood
    seen = []

    class Collect(Likelihood):
        def get_requirements(self):
            return {'primordial_scalar_pk': {}, 'primordial_tensor_pk': {}}

        def logp(self, _derived=None, **kw):
            seen.append((self.provider.get_primordial_scalar_pk(), self.provider.get_primordial_tensor_pk()))
            return -1.
    cls, p = case['cls'], dict(case['p'])
    vary = list(case['vary'])
    if 'A_t' in p and 'r' in p or 'A_t' in p:
        vary = [n for n in vary if n != 'A_s']
    C = getattr(importlib.import_module(CLASSES[cls]), cls)
    if not vary:
        p.setdefault('n_s', 0.97)
        vary = ['n_s']
    params = {n: ({'prior': {'min': min(-2 * abs(p[n]), -1.), 'max': 200.}} if n in vary else p[n]) for n in p}
    m = get_model({'likelihood': {'collect': Collect}, 'theory': {'pps': {'external': C}}, 'params': params, 'debug': logging.CRITICAL, 'stop_at_error': True})
    pts = [{n: p[n] * (1 + (0.3 * d if n == 'A_s' else d)) for n, d in zip(case['vary'] + ['n_s'], x + [0.02]) if n in vary} for x in case['pts']]
    if case['back']:
        pts += pts[:1]
    try:
        for x in pts:
            seen.clear()
            lp = m.logposterior(x, cached=True)
            ctx.check(np.isfinite(lp.loglike), 'point rejected: %s' % x)
            q = dict(p, **x)
            if not seen:            # served from the cache of the likelihood
                continue
            s, t = seen[-1]
            ks = grid(ctx, None, s)
            ws, wt, rs, rt = spectra(cls, q, ks, 0.05)
            compare(ctx, s, ws, 'scalar spectrum of %s in a model' % cls, rs)
            compare(ctx, t, wt, 'tensor spectrum of %s in a model' % cls, rt)
            ctx.nt()
    finally:
        m.close()
    ctx.label(cls, '%d points' % len(pts))


SUBS = [Sub('theory', theory_case, theory_body, 2000, 120000, shards=(4, 8)),
        Sub('model', model_case, model_body, 200, 8000, shards=(4, 8))]
