"""C18: coherence of units and constants, and version bookkeeping against a model of version numbers."""
import importlib.util
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from hypothesis import strategies as st
from scipy import constants as sc
from core import Sub, Inconclusive
from gen import uni, pick, logu
import const as C
import core

RULE = ('units: a quantity of random dimension converted along two routes; versions: a pair of versions classified, or a version bumped; '
        'distinct = distinct generated dimension, pair or version')
ASSUMPTIONS = ['the base constants are those of scipy.constants (CODATA)',
               'versions of three components, released or pre-released (a, b, rc), in any spelling PEP 440 admits; pre-releases count from 0; '
               'a later kind of pre-release (a < b < rc) of the same version is a single step whatever the number of the earlier one was',
               'the bump tool runs in a scratch directory holding copies of it and generated primpy/__version__.py and README.rst; '
               'only releases are bumped (the tool offers no pre-releases)',
               'the release check runs in a scratch clone of a scratch git repository with one branch, master']


# ------------------------------------------------------------------ units
@st.composite
def unit_case(draw):
    e = st.integers(-4, 4)
    return dict(hbar=draw(e), c=draw(e), G=draw(e), k=draw(e), M=draw(e), x=draw(logu(1e-6, 1e6)), route=draw(st.integers(0, 3)))


def unit_body(case, ctx):
    import primpy.units as u
    import primpy.parameters as P
    a, b, g, k, m = (case[n] for n in ('hbar', 'c', 'G', 'k', 'M'))
    # a quantity x M_P^m hbar^a c^b G^g k^k; logarithms since the numbers are extreme
    SI = math.log(case['x']) + m * math.log(C.M_P) + a * math.log(sc.hbar) + b * math.log(sc.c) + g * math.log(sc.G) + k * math.log(sc.k)
    # kg, m, s, K exponents
    kg, me, s, K = m + a - g + k, 2 * a + b + 3 * g + 2 * k, -a - b - 2 * g - 2 * k, -k
    unit = kg * math.log(u.mp_kg) + me * math.log(u.lp_m) + s * math.log(u.tp_s) + K * math.log(u.Tp_K)
    ctx.close(SI - unit, math.log(case['x']) - g * math.log(8 * math.pi), 1e-12, 1e-10,
              'log of a quantity with dimension kg^%d m^%d s^%d K^%d in reduced Planck units' % (kg, me, s, K))
    # in GeV: hbar = c = k_B = 1, so that masses are GeV, lengths and times 1/GeV
    L, T, W = math.log(1e9 * sc.e / (sc.hbar * sc.c)), math.log(1e9 * sc.e / sc.hbar), math.log(1e9 * sc.e)
    nat = SI + kg * (2 * math.log(sc.c) - W) + me * L + s * T + K * (math.log(sc.k) - W)
    pl = (kg + K) * math.log(u.mp_GeV) + me * math.log(u.lp_iGeV) + s * math.log(u.tp_iGeV)
    ctx.close(nat - pl, math.log(case['x']) - g * math.log(8 * math.pi), 1e-12, 1e-9, 'log of a quantity in GeV')
    # fixed relations
    for got, want, what in (
            (u.mp_kg, C.M_P, 'reduced Planck mass'), (u.lp_m, C.L_P, 'reduced Planck length'), (u.tp_s, C.T_P, 'reduced Planck time'),
            (u.Tp_K, C.TEMP_P, 'reduced Planck temperature'), (u.mp_GeV, C.GEV_P, 'reduced Planck mass in GeV'),
            (u.mp_GeV * u.lp_iGeV, 1, 'mass times length in GeV'), (u.tp_iGeV, u.lp_iGeV, 'time and length in GeV'),
            (u.mp_GeV / u.lp_iGeV**3, C.GEV_P**4, 'energy density in GeV^4'),
            (u.Mpc_m, C.MPC_M, 'megaparsec'), (u.a_B, 4 * sc.sigma / sc.c, 'radiation constant'),
            (u.a_B * u.Tp_K**4 * u.lp_m**3 / (u.mp_kg * sc.c**2), math.pi**2 / 15, 'radiation constant in reduced Planck units'),
            (u.c, sc.c, 'speed of light'), (u.hbar, sc.hbar, 'hbar'), (u.G, sc.G, 'G'), (u.k_B, sc.k, 'Boltzmann constant'), (u.e, sc.e, 'e'),
            (P.K_STAR, 0.05, 'pivot scale'), (P.K_STAR_lp, C.K_STAR_LP, 'pivot scale in Planck units'),
            (P.T_CMB_Tp * u.Tp_K, P.T_CMB_K, 'CMB temperature'), (P.T_CMB_Tp, C.T_CMB, 'CMB temperature in Planck units'),
            (P.T_nu_K / P.T_CMB_K, (4 / 11)**(1 / 3), 'neutrino temperature'), (P.T_nu_TCMB, (4 / 11)**(1 / 3), 'neutrino temperature'),
            (P.T_nu_Tp * u.Tp_K, P.T_nu_K, 'neutrino temperature in Planck units'), (P.N_eff, 3.044, 'effective number of neutrinos'),
            (P.g0, C.G0, 'relativistic degrees of freedom of the entropy'), (P.z_BBN, 1e9, 'redshift of nucleosynthesis'),
            (P.rho_gamma0_kg_im3, math.pi**2 / 15 * C.T_CMB**4 * C.M_P / C.L_P**3, 'photon density'),
            (P.rho_nu0_kg_im3, 7 / 8 * C.N_EFF * (4 / 11)**(4 / 3) * math.pi**2 / 15 * C.T_CMB**4 * C.M_P / C.L_P**3, 'neutrino density'),
            (P.rho_r0_kg_im3, P.rho_gamma0_kg_im3 + P.rho_nu0_kg_im3, 'radiation density'),
            (P.rho_r0_mp_ilp3, math.pi**2 / 15 * C.T_CMB**4 * (1 + 7 / 8 * C.N_EFF * (4 / 11)**(4 / 3)), 'radiation density in Planck units')):
        ctx.close(got, want, 1e-10, 0, what)
    ctx.label('gravitational' if g else 'without G', 'thermal' if k else 'without temperature')
    ctx.nt()


# ------------------------------------------------------------------ versions
KINDS = ['a', 'b', 'rc']
number = st.one_of(st.integers(0, 3), st.integers(0, 12), st.integers(8, 11), st.sampled_from([19, 20, 99, 100, 101]))


@st.composite
def version(draw):
    pre = draw(pick(None, None, 'a', 'b', 'rc'))
    return (draw(number), draw(number), draw(number), None if pre is None else (pre, draw(st.one_of(st.integers(0, 2), st.integers(8, 11)))))


def successors(v):
    M, m, u, pre = v
    if pre is None:
        bases = [(M, m, u + 1), (M, m + 1, 0), (M + 1, 0, 0)]
        return [b + (None,) for b in bases] + [b + ((k, 0),) for b in bases for k in KINDS]
    k, n = pre
    return [(M, m, u, (k, n + 1)), (M, m, u, None)] + [(M, m, u, (j, 0)) for j in KINDS[KINDS.index(k) + 1:]]


SPELL = {'a': ['a', 'alpha', '.a', '-alpha', 'A', '_a'], 'b': ['b', 'beta', '.b', '-b', 'B', '-beta.'], 'rc': ['rc', 'c', '-rc', '.rc.', 'RC', 'pre']}


def spell(v, how):
    M, m, u, pre = v
    s = '%d.%d.%d' % (M, m, u)
    if how == 4:
        s = 'v' + s
    if pre is None:
        return s
    return s + SPELL[pre[0]][how % 6] + str(pre[1])


@st.composite
def pair_case(draw):
    b = draw(version())
    how = draw(pick('successor', 'near', 'near', 'any', 'same', 'back'))
    a = b
    if how in ('successor', 'near', 'back'):
        a = draw(st.sampled_from(successors(b)))
    if how == 'near':
        i = draw(st.integers(0, 5))
        a = list(a)
        if i < 3:
            a[i] = max(0, a[i] + draw(pick(-1, 1, 1, 8, 9)))
        elif a[3] is not None:
            a[3] = draw(st.one_of(st.none(), st.tuples(st.sampled_from(KINDS), st.integers(0, 3))))
        else:
            a[3] = (draw(st.sampled_from(KINDS)), draw(st.integers(0, 2)))
        a = tuple(a)
    elif how == 'any':
        a = draw(version())
    if how == 'back':
        a, b = b, a
    return dict(a=a, b=b, sa=draw(pick(0, 0, 1, 2, 3, 4, 5)), sb=draw(pick(0, 0, 1, 2, 3, 4, 5)))


def tuplify(v):
    return tuple(v[:3]) + (None if v[3] is None else tuple(v[3]),)


_loaded = {}


def unit_incremented_functions():
    """The functions of that name in bin/utils.py and, without running the script around it, in the workflow."""
    if not _loaded:
        spec = importlib.util.spec_from_file_location('primpy_bin_utils', os.path.join(core.REPO, 'bin', 'utils.py'))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        _loaded['bin/utils.py'] = mod.unit_incremented
        p = os.path.join(core.REPO, '.github', 'workflows', 'check_version.py')
        if os.path.exists(p):
            import ast
            tree = ast.parse(open(p).read())
            keep = [n for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom, ast.FunctionDef))]
            ns = {}
            try:
                exec(compile(ast.Module(keep, []), p, 'exec'), ns)
                if 'unit_incremented' in ns:
                    _loaded['check_version.py'] = ns['unit_incremented']
            except Exception:
                pass
    return _loaded


def pair_body(case, ctx):
    a, b = tuplify(case['a']), tuplify(case['b'])
    want = a in successors(b)
    sa, sb = spell(a, case['sa']), spell(b, case['sb'])
    for name, fn in unit_incremented_functions().items():
        try:
            got = bool(fn(sa, sb))
        except NameError:
            if name == 'check_version.py':
                continue            # needs more of the script than its functions: decided by running it (gate)
            raise
        ctx.check(got == want, '%s: %s %s as a single step from %s' % (name, sa, 'not accepted' if want else 'accepted', sb))
    ctx.label('step' if want else 'no step', '%s after %s' % ('pre-release' if a[3] else 'release', 'pre-release' if b[3] else 'release'))
    ctx.nt()


# ------------------------------------------------------------------ bumping
@st.composite
def bump_case(draw):
    v = (draw(number), draw(number), draw(number), None)
    words = st.text('abcdefghij -_/:,()=+*[]&<>~', max_size=40)
    return dict(v=v, seq=draw(st.lists(pick('micro', 'minor', 'major', None), min_size=1, max_size=3)), more=draw(st.integers(0, 2)),
                lines=draw(st.lists(words, max_size=6)), sep=draw(pick(None, '-', '_', 'x', ' ', '/')))


def next_base(v, how):
    M, m, u = v
    return {'major': (M + 1, 0, 0), 'minor': (M, m + 1, 0)}.get(how, (M, m, u + 1))


def bump_body(case, ctx):
    d = tempfile.mkdtemp(prefix='verif-bump-')
    try:
        os.mkdir(os.path.join(d, 'primpy'))
        os.mkdir(os.path.join(d, 'bin'))
        for f in os.listdir(os.path.join(core.REPO, 'bin')):
            if f.endswith('.py'):
                shutil.copy(os.path.join(core.REPO, 'bin', f), os.path.join(d, 'bin', f))
        v = v0 = tuple(case['v'][:3])
        vf, rf = os.path.join(d, 'primpy', '__version__.py'), os.path.join(d, 'README.rst')

        def texts(v):
            s = '%d.%d.%d' % v
            head = '"""Version file for primpy."""\n\n__version__ = \'%s\'\n' % s
            lines = ['=====', 'primpy', '=====', ':primpy: cosmology', ':Version: ' + s, ':Homepage: somewhere'] + case['lines']
            lines += ['see version %s, or "v%s".' % (s, s)] * case['more']
            if case['sep']:       # numbers that are not the version
                lines += ['grid of %s points' % case['sep'].join(map(str, v0))]
            return head, '\n'.join(lines) + '\n'
        for f, t in zip((vf, rf), texts(v)):
            open(f, 'w').write(t)
        fns = unit_incremented_functions()
        for how in case['seq']:
            q = subprocess.run([sys.executable, os.path.join('bin', 'bump_version.py')] + ([how] if how else []), cwd=d, capture_output=True, text=True, timeout=60)
            ctx.check(q.returncode == 0, 'bump tool failed: %s' % q.stderr[-300:])
            w = next_base(v, how)
            for f, t in zip((vf, rf), texts(w)):
                got = open(f).read()
                ctx.check(got == t, '%s bump of %d.%d.%d: %s differs: %r' % ((how or 'default',) + v + (os.path.basename(f), next((x for x, y in zip(got.split('\n') + ['(end)'], t.split('\n') + ['']) if x != y), got[-60:]))))
            ctx.check(fns['bin/utils.py']('%d.%d.%d' % w, '%d.%d.%d' % v), 'bumped version not accepted as a single step')
            v = w
            ctx.label(how or 'default')
        left = sorted(os.listdir(d))
        ctx.check(left == ['README.rst', 'bin', 'primpy'] and sorted(x for x in os.listdir(os.path.join(d, 'primpy')) if x != '__pycache__') == ['__version__.py'],
                  'files left behind: %s' % left)
        ctx.nt()
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ release gate
@st.composite
def gate_case(draw):
    c = draw(pair_case())
    c['readme'] = draw(pick('same', 'same', 'same', 'other', 'old'))
    c['sr'] = draw(pick(0, 0, 1, 2, 3, 4, 5))
    c['more'] = draw(st.booleans())
    return c


def gate_body(case, ctx):
    """The script of the workflow in a scratch clone of a scratch repository."""
    script = os.path.join(core.REPO, '.github', 'workflows', 'check_version.py')
    if not os.path.exists(script) or shutil.which('git') is None:
        raise Inconclusive('no git or no script')
    a, b = tuplify(case['a']), tuplify(case['b'])
    readme = {'same': a, 'other': (a[0], a[1], a[2] + 1, a[3]), 'old': b}[case['readme']]
    d = tempfile.mkdtemp(prefix='verif-gate-')
    env = dict(PATH=os.environ['PATH'], HOME=d, GIT_CONFIG_NOSYSTEM='1', GIT_CONFIG_GLOBAL=os.devnull, GIT_CEILING_DIRECTORIES=d, GIT_TERMINAL_PROMPT='0',
               GIT_AUTHOR_NAME='x', GIT_AUTHOR_EMAIL='x@x', GIT_COMMITTER_NAME='x', GIT_COMMITTER_EMAIL='x@x', LC_ALL='C.UTF-8')

    def git(*args, cwd):
        q = subprocess.run(('git',) + args, cwd=cwd, env=env, capture_output=True, text=True, timeout=60)
        if q.returncode:
            raise Inconclusive('git: ' + q.stderr[-200:])
    try:
        o, w = os.path.join(d, 'origin'), os.path.join(d, 'work')

        def write(root, v, how, r, rhow):
            os.makedirs(os.path.join(root, 'primpy'), exist_ok=True)
            open(os.path.join(root, 'primpy', '__version__.py'), 'w').write('"""Version file for primpy."""\n\n__version__ = \'%s\'\n' % spell(v, how))
            t = ['=====', 'primpy', '=====', ':primpy: cosmology', ':Author: nobody', ':Version: ' + spell(r, rhow), ':Homepage: somewhere']
            open(os.path.join(root, 'README.rst'), 'w').write('\n'.join(t + (['see version 1.2.3'] if case['more'] else [])) + '\n')
        os.makedirs(o)
        write(o, b, case['sb'], b, 0)
        git('init', '-q', cwd=o)
        git('symbolic-ref', 'HEAD', 'refs/heads/master', cwd=o)
        git('add', '-A', cwd=o)
        git('commit', '-q', '-m', 'x', cwd=o)
        git('clone', '-q', o, w, cwd=d)
        write(w, a, case['sa'], readme, case['sr'])
        q = subprocess.run([sys.executable, script], cwd=w, env=env, capture_output=True, text=True, timeout=60)
        ctx.check('Traceback' not in q.stderr, 'release check failed: %s' % q.stderr[-300:])
        want = readme == a and a in successors(b)
        ctx.check((q.returncode == 0) == want, 'release check of %s after %s with %s in the README: exit %d' % (spell(a, case['sa']), spell(b, case['sb']), spell(readme, case['sr']), q.returncode))
        ctx.label('passes' if want else 'fails', 'README ' + case['readme'])
        ctx.nt()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def recorded_body(case, ctx):
    """The repository itself records one version."""
    ns = {}
    exec(open(os.path.join(core.REPO, 'primpy', '__version__.py')).read(), ns)
    v = ns['__version__']
    ctx.check(re.fullmatch(r'\d+\.\d+\.\d+((a|b|rc)\d+)?', v) is not None, 'version %r' % v)
    m = re.findall(r'^:Version:\s*(\S+)\s*$', open(os.path.join(core.REPO, 'README.rst')).read(), re.M)
    ctx.check(m == [v], 'README records %s, primpy/__version__.py %s' % (m, v))
    import primpy
    ctx.check(getattr(primpy, '__version__', v) in (v,) or hasattr(primpy.__version__, '__version__'), 'primpy.__version__')
    ctx.nt()


SUBS = [Sub('units', unit_case, unit_body, 2000, 40000, shards=(2, 8)),
        Sub('steps', pair_case, pair_body, 12000, 250000, shards=(4, 8)),
        Sub('bump', bump_case, bump_body, 150, 3000, shards=(4, 8)),
        Sub('gate', gate_case, gate_body, 120, 2000, shards=(4, 8)),
        Sub('recorded', lambda: st.just({}), recorded_body, 1, 1, shards=(1, 1))]
