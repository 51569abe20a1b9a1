"""C06: event tables and inflation start/end against the conditions evaluated independently along the trajectory."""
import re
import warnings
import numpy as np
from hypothesis import strategies as st
from core import Sub, Inconclusive
from gen import uni, pick, logu, unit
import pots
import setups as S

RULE = ('non-trivial: at least one generated event was expected on the trajectory or the beginning/end of inflation was '
        'determined by an event; distinct = distinct generated (background, formulation, set of events)')
ASSUMPTIONS = ['RK45; a crossing is expected between two consecutive solver steps when the condition changes sign between them '
               '(two crossings within one step are not resolved by scipy)', 'forward integration',
               'event conditions whose value at a step end is below 1e-9 of its scale are not decided at that step',
               'within 1e-6 (H^2 relative to the density) of a collapse only the Collapse event is decided',
               'collapse: condition H^2<0 on the trajectory that the solver produced']
KINDS = ['UntilT', 'UntilN', 'Inflation', 'Inflation', 'AfterInflationEnd', 'Collapse', 'Phi0', 'ModeExit']


@st.composite
def events_case(draw):
    ics = draw(pick(('SR', 'IS'), ('KD',)))
    c = draw(S.background(ics=ics, Nmin=3., Nmax=66., Ks=(0, 1, 1, -1), Ok=(1e-3, 0.8) if ics[0] != 'KD' else (1e-3, 0.6)))
    c['form'] = draw(pick('t', 'N'))
    if c['form'] == 'N':
        if c['ic'] == 'KD':
            c['q'] = min(c['q'], 30.)
        if c['K'] == 1:
            # the e-fold form is singular where dphidN^2 crosses 6
            c['Omega_Ki'] = max(c['Omega_Ki'], -0.3)
            if c['ic'] == 'KD':
                c['form'] = 't'
    c['track_time'] = draw(st.booleans())
    c['beyond'] = draw(pick(0., 0.3, 1., 1.6, 2.2, -0.5) if c['form'] == 't' else pick(0., 0.3, 0.7, 1., -0.5))
    c['verbose'] = draw(st.booleans())
    ev = []
    for d in (1, -1):
        if draw(pick(True, True, False)):
            ev.append({'kind': 'Inflation', 'dir': d, 'term': d == -1 and draw(st.booleans()), 'u': 0., 'default': False,
                       't_i': draw(pick(False, False, False, True))})
    if c['ic'] == 'KD' and c['K'] == 1 and draw(st.booleans()):
        ev.append({'kind': 'Collapse', 'dir': 0, 'term': True, 'u': 0., 'default': True, 't_i': False})
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(KINDS))
        ev.append({'kind': k, 'dir': draw(pick(-1, 0, 1) if k != 'Inflation' else pick(-1, 1, 0, -1, 1)),
                   'term': draw(pick(False, False, False, False, False, True)), 'u': draw(uni(-0.1, 1.1)),
                   'default': draw(pick(False, False, False, False, True)), 't_i': draw(pick(False, False, False, True)),
                   'shift': draw(pick(False, False, False, False, True))})
    c['events'] = ev
    return c


def expected_name(k, d, term, value):
    if k in ('UntilT', 'UntilN', 'Collapse'):
        return k
    if k == 'ModeExit':
        return 'ModeExit_dir%d_term%d_%e' % (d, term, value)
    return '%s_dir%d_term%d' % (k, d, term)


DEFAULTS = {'UntilT': (0, True), 'UntilN': (0, True), 'Inflation': (0, False), 'AfterInflationEnd': (1, True),
            'Collapse': (0, True), 'Phi0': (0, True), 'ModeExit': (0, True)}


class Traj:
    """Quantities along (x, y), by independent formulas."""

    def __init__(self, eq, K, pot, form, x, y):
        y = np.asarray(y)
        self.N = y[eq.idx['_N']] if form == 't' else np.asarray(x)
        self.phi = y[eq.idx['phi']]
        self.V = np.array([pot.V(f) for f in np.atleast_1d(self.phi)]).reshape(np.shape(self.phi))
        a2 = np.exp(-2 * self.N)
        if form == 't':
            self.d2 = y[eq.idx['dphidt']]**2
            self.H2 = self.d2 / 6 + self.V / 3 - K * a2
        else:
            q = y[eq.idx['dphidN']]**2
            self.H2 = (self.V / 3 - K * a2) / (1 - q / 6)
            self.d2 = self.H2 * q
        self.w = (self.d2 / 2 - self.V) / (self.d2 / 2 + self.V)
        self.t = np.asarray(x) if form == 't' else (y[eq.idx['t']] if 't' in eq.idx else None)
        self.rho = self.d2 / 2 + self.V

    def g(self, kind, value):
        """(condition, scale)"""
        if kind == 'UntilT':
            return self.t - value, np.abs(self.t) + abs(value)
        if kind == 'UntilN':
            return self.N - value, 1 + np.abs(self.N)
        if kind == 'Inflation':
            return self.V - self.d2 - value, self.V + self.d2
        if kind == 'AfterInflationEnd':
            return self.w - value, 1.
        if kind == 'Collapse':
            return self.H2 - value, self.rho
        if kind == 'Phi0':
            return self.phi - value, 1 + np.abs(self.phi)
        if kind == 'ModeExit':
            lg = np.log(np.abs(self.H2)) / 2
            return self.N + lg - np.log(value), 1 + np.abs(self.N) + np.abs(lg)


def body(case, ctx):
    import primpy.events as pe
    from primpy.exceptionhandling import CollapseWarning, InflationStartWarning, InflationEndWarning, PrimpyWarning
    from primpy.solver import solve
    form, K = case['form'], case['K']
    c = S.finish(case, form)
    pot = pots.build(c['spec'])
    ref = S.Reference(c, pot=pot)
    eternal = ref.N_end is None and not ref.collapsed
    if ref.N_end is not None:
        if case['beyond'] < 0:
            Nx = c['N_i'] + 0.6 * (ref.N_end - c['N_i'])
        else:
            Nx = ref.N_end + 0.02 + case['beyond']
            ref = S.Reference(c, pot=pot, until_end=False, N_end=Nx)
    elif eternal:
        Nx = c['N_i'] + 40.
    else:
        Nx = ref.N_last
    if form == 'N':
        x_end = Nx if not ref.collapsed else Nx + 1.
    else:
        tl = float(ref.at(min(Nx, ref.N_last))['t'])
        x_end = tl if not ref.collapsed else tl + (0.02 * (tl - c['t_i']) if any(e['kind'] == 'Collapse' for e in case['events']) else 0)
    kw = dict(pot=pot, x_end=x_end)
    if form == 'N':
        kw['track_time'] = case['track_time']
    eq0, ic0 = S.make(c, form, **kw)
    base = solve(ic0, dense_output=True)
    ctx.label('form ' + form, 'K=%d' % K, c['ic'], 'collapsed' if ref.collapsed else 'eternal' if eternal else 'ends')
    T = Traj(eq0, K, pot, form, base.x, base.y)
    if form == 'N' and np.any(np.abs(base.dphidN**2 - 6) < 1e-4):
        raise Inconclusive('e-fold form singular')
    # ---- concrete events
    eq, ic = S.make(c, form, verbose=case['verbose'], **kw)
    evs, info, names = [], [], []
    shifted = set()    # kinds with a threshold other than zero: not the beginning/end of inflation or a collapse
    ok = np.isfinite(T.H2) & (T.H2 > 1e-6 * T.rho)    # off the singular end of a collapse
    nmax = np.nonzero(ok)[0][-1] if np.any(ok) else 0
    for e in case['events']:
        k = e['kind']
        d, term = DEFAULTS[k] if e['default'] else (e['dir'], e['term'])
        if k == 'UntilT' and T.t is None:
            continue
        x = base.x[0] + e['u'] * (base.x[nmax] - base.x[0])
        xi = float(np.clip(x, base.x[0], base.x[nmax]))
        at = Traj(eq0, K, pot, form, xi, base.sol(xi))
        if k == 'UntilT':
            v = float(at.t + (0 if xi == x else 10 * (x - xi) if form == 't' else 1e3 / np.sqrt(at.H2) * np.sign(e['u'])))
        elif k == 'UntilN':
            v = float(at.N + (0 if xi == x else np.sign(e['u'] - 0.5) * 3))
        elif k == 'Phi0':
            v = float(at.phi) if abs(e['u'] - 0.5) < 0.45 else 0.
        elif k == 'ModeExit':
            v = float(np.exp(at.N) * np.sqrt(np.abs(at.H2)) * (1 if xi == x else 3.))
        elif k == 'AfterInflationEnd':
            v = 0 if e['default'] else float(np.round(-0.25 + 0.8 * abs(e['u']), 3))
        elif e.get('shift') and not e['default'] and not e['t_i']:
            # a threshold other than zero, met somewhere along the trajectory
            v = float(at.V - at.d2 if k == 'Inflation' else at.H2)
            ctx.label('threshold ' + k)
            shifted |= {k}
        else:
            v = 0
        args = {'value': v}
        if not e['default']:
            args.update(direction=d, terminal=term)
        elif k in ('Inflation', 'AfterInflationEnd', 'Collapse'):
            args = {}
        if k == 'Inflation' and e['t_i'] and c['ic'] == 'IS':
            args['t_i'] = ic.x_ini if c['ic'] == 'KD' else (c['t_i'] if form == 't' else c['N_i'])
        name = expected_name(k, d, term, v)
        if name in names:
            continue
        ev = getattr(pe, k + 'Event')(eq, **args)
        ctx.check(ev.name == name, 'name of event: %s, expected %s' % (ev.name, name))
        ctx.check(ev.direction == d and bool(ev.terminal) == term, 'direction or terminal flag of %s' % name)
        names.append(name)
        evs.append(ev)
        info.append((k, d, term, v, name, 't_i' in args))
        ctx.label('event ' + k)
    with warnings.catch_warnings(record=True) as wlist:
        warnings.simplefilter('always')
        sol = solve(ic, events=evs, dense_output=True)
    wl = [w for w in wlist if isinstance(w.message, PrimpyWarning)]
    n = len(sol.x)
    hit = sol.status == 1
    ctx.label('base solver failed' if base.status < 0 else 'base ok')
    ctx.check(np.array_equal(sol.x[:n - hit], base.x[:n - hit]) and np.array_equal(sol.y[:, :n - hit], base.y[:, :n - hit]),
              'tracking events changed the trajectory')
    if not hit:
        ctx.check(n == len(base.x), 'integration stopped early without event: %s' % sol.message)
    # ---- which crossings are due, step by step
    steps = n - 1   # step j: base.x[j] -> base.x[j+1]; the last one may be cut by a terminal event
    due, maybe = {}, {}
    for k, d, term, v, name, hack in info:
        g, sc = T.g(k, v)
        noise = 1e-9 * sc + np.zeros_like(g)
        if form == 'N':
            noise = noise * 6 / np.maximum(np.abs(6 - base.dphidN**2), 1e-6)
        due[name], maybe[name] = [], []
        for j in range(min(steps, len(base.x) - 1)):
            g0, g1 = g[j], g[j + 1]
            if not (np.isfinite(g0) and np.isfinite(g1)) or not (ok[j] and ok[j + 1]) and k != 'Collapse':
                maybe[name].append(j)
            elif abs(g0) < noise[j] or abs(g1) < noise[j + 1]:
                maybe[name].append(j)
            elif g0 < 0 < g1 and d >= 0 or g0 > 0 > g1 and d <= 0:
                due[name].append(j)
    xt = sol.x[-1] if hit else None
    fired_terminal = []
    nexp = 0
    for k, d, term, v, name, hack in info:
        xe, ye = sol.x_events[name], sol.y_events[name]
        got = []
        if hack and d:
            ctx.check(not np.any(np.asarray(xe) <= base.x[0] + 1e-6 * (base.x[1] - base.x[0])), '%s with t_i at the start recorded right there' % name)
            ctx.label('t_i')
        for x, y in zip(xe, ye):
            j = int(np.searchsorted(base.x, x, side='right') - 1)
            j = min(max(j, 0), len(base.x) - 2)
            cand = [jj for jj in (j - 1, j, j + 1) if 0 <= jj < len(base.x) - 1 and base.x[jj] <= x <= base.x[jj + 1]]
            ctx.check(any(jj in due[name] or jj in maybe[name] for jj in cand),
                      '%s recorded at x=%r (step %s), where its condition does not change sign in direction %d' % (name, x, cand, d))
            got += cand
            at = Traj(eq, K, pot, form, x, y)
            g, sc = at.g(k, v)
            gs, scs = T.g(k, v)
            jj = cand[0]
            jump = abs(gs[jj + 1] - gs[jj]) if np.isfinite(gs[jj + 1] - gs[jj]) else abs(sc)
            amp = 1 if form == 't' else 6 / max(abs(6 - y[eq.idx['dphidN']]**2), 1e-6)
            if k != 'Collapse' and not (ok[jj] and ok[jj + 1]):
                continue
            if not (hack and x == (c['t_i'] if form == 't' else c['N_i'])):
                ctx.check(abs(g) <= 1e-9 * abs(sc) * amp + 1e-6 * jump, '%s recorded where its condition is %s (scale %s)' % (name, g, sc))
            ctx.check(xt is None or x <= xt, '%s recorded after the end of integration' % name)
        for j in due[name]:
            if xt is not None and base.x[j + 1] > xt:
                # the step cut by a terminal event: due if its crossing comes first
                gi, _ = T.g(k, v)
                at = Traj(eq, K, pot, form, xt, sol.y[:, -1])
                gx, sx = at.g(k, v)
                if gi[j] * gx > 0 or abs(gx) < 1e-7 * sx:
                    continue
            nexp += 1
            ctx.check(j in got, '%s missed: its condition changes sign between x=%r and %r, recorded %s'
                      % (name, base.x[j], base.x[j + 1], xe))
        if term and len(xe):
            fired_terminal.append(name)
            ctx.check(hit and len(xe) == 1 and xe[0] == xt, 'terminal event %s did not end the integration there' % name)
        ctx.check(np.array_equal(sol._N_events[name], ye[:, eq.idx['_N']] if form == 't' and len(xe) else
                                 xe if form == 'N' else []), 'table of e-folds at %s' % name)
    if hit:
        ctx.check(fired_terminal, 'integration terminated without terminal event')
    if ref.collapsed:
        # whichever way it is noticed, the integration does not continue through a collapse
        T1 = Traj(eq, K, pot, form, sol.x, sol.y)
        ctx.check(hit or sol.status == -1 or form == 't', 'integration went on after collapse')
    if shifted:
        ctx.nt(nexp > 0)
        return
    # ---- beginning and end of inflation
    by = {i[4]: i for i in info}
    T0 = Traj(eq, K, pot, form, sol.x, sol.y)
    infl0 = (T0.V[0] - T0.d2[0]) / T0.V[0]
    clear = abs(infl0) > 1e-9
    starts = [nm for nm in ('Inflation_dir1_term0', 'Inflation_dir1_term1') if nm in by]
    start_x = sorted((sol.x_events[nm][0], nm) for nm in starts if len(sol.x_events[nm]))
    collapsed = 'Collapse' in by and len(sol.x_events['Collapse']) > 0
    names_w = [type(w.message).__name__ for w in wl]
    want = ()
    if collapsed:
        want = ('nan',)
        ctx.label('start: collapsed')
    elif clear and infl0 > 0:
        want = ('first',)
        ctx.label('start: inflating')
    elif start_x:
        want = ('event',) if clear else ('event', 'first')
        ctx.label('start: event')
    else:
        want = ('nan',) if clear else ('nan', 'first')
        ctx.label('start: none')
    msg = []
    for wch in want:
        if wch == 'nan':
            good = np.isnan([sol._N_beg, sol.H_beg, sol._logaH_beg]).all()
        else:
            x, y = (sol.x[0], sol.y[:, 0]) if wch == 'first' else (start_x[0][0], sol.y_events[start_x[0][1]][0])
            at = Traj(eq, K, pot, form, x, y)
            H = np.sqrt(at.H2)
            amp = 1 if form == 't' else 6 / max(abs(6 - y[eq.idx['dphidN']]**2), 1e-6)
            good = (abs(sol._N_beg - at.N) <= 1e-11 * (1 + abs(at.N)) and abs(sol.H_beg / H - 1) < 1e-9 * amp and
                    abs(sol._logaH_beg - at.N - np.log(H)) < 1e-9 * (amp + abs(at.N)))
        msg.append(good)
    ctx.check(any(msg), 'beginning of inflation: _N_beg=%s, H_beg=%s, _logaH_beg=%s, expected: %s (first point N=%s, events %s)'
              % (sol._N_beg, sol.H_beg, sol._logaH_beg, want, sol._N[0], start_x))
    ends = [nm for nm in ('Inflation_dir-1_term1', 'Inflation_dir-1_term0') if nm in by and len(sol.x_events[nm])]
    if ends:
        x, nm = min((sol.x_events[nm][0], nm) for nm in ends)
        at = Traj(eq, K, pot, form, x, sol.y_events[nm][0])
        H = np.sqrt(at.H2)
        amp = 1 if form == 't' else 6 / max(abs(6 - sol.y_events[nm][0][eq.idx['dphidN']]**2), 1e-6)
        ctx.close([sol._N_end, sol.phi_end], [at.N, at.phi], 1e-11, 1e-11, 'end of inflation: e-folds, field')
        ctx.close([sol.H_end, sol.V_end, np.exp(sol._logaH_end - at.N)], [H, at.V, H], 1e-8 * amp, 0, 'end of inflation: H, V, aH')
        ctx.label('end: event')
        nexp += 1
    else:
        ctx.check(np.isnan([sol._N_end, sol.phi_end, sol.H_end, sol.V_end, sol._logaH_end]).all(),
                  'end of inflation reported without event: %s' % sol._N_end)
        ctx.label('end: none')
    ctx.close(sol.N_tot, sol._N_end - sol._N_beg, 1e-14, 0, 'N_tot')
    if np.isfinite(sol.N_tot):
        ctx.check(np.array_equal(sol.inflation_mask, (sol._N > sol._N_beg) & (sol._N < sol._N_end)), 'inflation mask')
    # ---- warnings
    if not case['verbose']:
        ctx.check(not wl, 'warning although not verbose: %s' % [str(w.message)[:80] for w in wl])
    else:
        exp = []
        if collapsed:
            exp.append('CollapseWarning')
        elif np.isnan(sol._N_beg):
            exp.append('InflationStartWarning')
        if np.isnan(sol._N_end):
            exp.append('InflationEndWarning')
        ctx.check(sorted(names_w) == sorted(exp), 'warnings %s, expected %s' % (names_w, exp))
        for w in wl:
            m = str(w.message)
            tracked = {'InflationStartWarning': bool(starts), 'InflationEndWarning': any(
                nm.startswith('Inflation_dir-1_') for nm in by)}.get(type(w.message).__name__)
            if tracked is not None:
                ctx.check(('Not tracking' in m) == (not tracked), '%s although the event is %stracked: %s'
                          % ('"Not tracking"' if 'Not tracking' in m else 'no hint', '' if tracked else 'not ', m[:150]))
            if type(w.message) is InflationEndWarning:
                for num, val in zip(re.findall(r'(?:N|phi|w)\[-1\]=([-+.\deE]+)', m), (T0.N[-1], T0.phi[-1], T0.w[-1])):
                    ctx.close(float(num.rstrip('.')), val, 1e-5, 1e-5, 'number in the end warning')
            if type(w.message) is InflationEndWarning and tracked and abs(T0.w[-1] + 1 / 3) > 1e-9:
                ctx.check(('Still inflating' in m) == (T0.w[-1] < -1 / 3), 'end warning with w=%s says: %s' % (T0.w[-1], m[:150]))
            if type(w.message) is CollapseWarning:
                ctx.check('collapsed' in m, 'collapse warning says: %s' % m)
    ctx.nt(nexp > 0 or bool(start_x))


SUBS = [Sub('events', events_case, body, 400, 16000, shards=(8, 8), case_timeout=8)]
