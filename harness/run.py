"""Run the check of one property: run.py ID [--replay FILE] [--sub NAME] (VERIF_SEED, VERIF_TIER from env)."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core  # noqa: E402

JOBS = int(os.environ.get('VERIF_JOBS', '8'))


def load(pid):
    core.bootstrap()
    return importlib.import_module('checks.' + pid.lower())


def worker(args):
    """One shard of one sub-check; result as JSON in args.out."""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)  # die with the parent
    except Exception:
        pass
    mod = load(args.id)
    sub = {s.name: s for s in mod.SUBS}[args.sub]
    r = core.Runner(args.id, sub)
    tier = args.tier
    shards = sub.shards[tier]
    n = -(-sub.cases[tier] // shards)
    seed = args.seed * 1000 + args.shard
    out = {'sub': sub.name, 'shard': args.shard}
    saved = [time.time()]

    def result():
        return dict(out, evals=r.evals, nt=sorted(r.nt), labels=r.labels, worst=r.worst, samples=[x for _, x in r.samples],
                    compared=r.compared, slow=r.slow, inconclusive=r.inconclusive, skipped=r.skipped, known=r.known_hits)

    def save(d):
        with open(args.out + '.tmp', 'w') as f:
            json.dump(d, f, default=str)
        os.replace(args.out + '.tmp', args.out)

    def checkpoint():
        if time.time() - saved[0] > 5:
            saved[0] = time.time()
            d = result()
            if r.last_fail is not None:
                d['fail'] = {'case': r.last_fail[0], 'msg': r.last_fail[1]}
            save(dict(d, partial=True))
    r.checkpoint = checkpoint
    try:
        r.search(n, seed, sub.budget[tier], shrink_budget=60 if tier == 'quick' else 240)
        if r.last_fail is not None:
            # confirm: the minimal case must fail again on its own
            case, msg = r.last_fail
            v = core.Runner(args.id, sub).run_case(json.loads(core.canon(case)))
            if v is None:
                v = core.Runner(args.id, sub).run_case(case)
            if v is None:
                out['flaky'] = {'case': case, 'msg': msg}
            else:
                out['fail'] = {'case': case, 'msg': str(v)}
    except BaseException:
        out['error'] = traceback.format_exc()[-3000:]
    save(result())


def replay(args):
    with open(args.replay) as f:
        rep = json.load(f)
    mod = load(rep['property'])
    sub = {s.name: s for s in mod.SUBS}[rep['sub']]
    v = core.Runner(rep['property'], sub).run_case(rep['case'])
    if v is None:
        print('replay: property=%s sub=%s holds on this case' % (rep['property'], rep['sub']))
        return 0
    print('replay: %s' % v)
    print('VIOLATION property=%s replay=%s' % (rep['property'], args.replay))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--replay')
    ap.add_argument('--sub', action='append')
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--out')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    args = ap.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    if args.replay:
        return replay(args)
    if args.worker:
        args.sub = args.sub[0]
        worker(args)
        return 0

    t0 = time.time()
    import tempfile
    mod = load(args.id)
    subs = [s for s in mod.SUBS if not args.sub or s.name in args.sub]
    results, errors = [], []
    with tempfile.TemporaryDirectory(prefix='verif-%s-' % args.id) as tmp:
        jobs = []
        for s in subs:
            for k in range(s.shards[args.tier]):
                jobs.append((s, k, os.path.join(tmp, '%s-%d.json' % (s.name, k))))
        # long ones first
        jobs.sort(key=lambda j: -j[0].budget[args.tier])
        env = dict(os.environ)
        running = []
        queue = list(jobs)
        failed = False
        while queue or running:
            while queue and len(running) < JOBS:
                s, k, out = queue.pop(0)
                log = open(out + '.log', 'w')
                p = subprocess.Popen([sys.executable, os.path.abspath(__file__), args.id, '--worker', '--sub', s.name,
                                      '--shard', str(k), '--out', out, '--tier', args.tier, '--seed', str(args.seed)],
                                     env=getattr(mod, 'worker_env', lambda e: e)(env), stdout=log,
                                     stderr=subprocess.STDOUT, cwd=tmp, start_new_session=True)
                running.append((p, s, k, out, time.time(), log))
            time.sleep(0.02)
            for item in list(running):
                p, s, k, out, st, log = item
                if p.poll() is None:
                    if time.time() - st > s.timeout[args.tier]:
                        try:
                            os.killpg(p.pid, 9)
                        except OSError:
                            p.kill()
                        p.wait()
                        results.append({'sub': s.name, 'shard': k, 'timeout': True})
                        running.remove(item)
                    continue
                running.remove(item)
                log.close()
                try:
                    with open(out) as f:
                        res = json.load(f)
                except (OSError, ValueError):
                    with open(out + '.log') as f:
                        txt = f.read()[-2000:]
                    if txt.lstrip().startswith('Timeout (') or '\nTimeout (' in txt:
                        res = {'sub': s.name, 'shard': k, 'timeout': True}
                    else:
                        res = {'sub': s.name, 'shard': k, 'error': 'worker died (rc=%s): %s' % (p.returncode, txt)}
                if res.get('partial'):
                    res['stuck'] = True
                results.append(res)
                if res.get('fail') and not failed:
                    failed = True
                    # the verdict is known; let what runs finish, start nothing new
                    queue = []
    # ---- merge
    viol, flaky, timeouts = [], [], []
    nt, labels, worst, samples, known, slow = set(), {}, {}, [], {}, []
    evals = compared = inconclusive = skipped = 0
    for r in results:
        if r.get('timeout'):
            timeouts.append('%s-%s' % (r['sub'], r['shard']))
            continue
        if r.get('stuck'):
            timeouts.append('%s-%s (stuck after %d cases)' % (r['sub'], r['shard'], r.get('evals', 0)))
        if r.get('error'):
            errors.append('%s-%s: %s' % (r['sub'], r['shard'], r['error']))
        evals += r.get('evals', 0)
        compared += r.get('compared', 0)
        inconclusive += r.get('inconclusive', 0)
        skipped += r.get('skipped', 0)
        nt |= {r['sub'] + ':' + h for h in r.get('nt', [])}
        for k, v in r.get('labels', {}).items():
            labels[r['sub'] + ':' + k] = labels.get(r['sub'] + ':' + k, 0) + v
        for k, v in r.get('worst', {}).items():
            worst[r['sub'] + ':' + k] = max(worst.get(r['sub'] + ':' + k, 0), v)
        for k, v in r.get('known', {}).items():
            known[k] = known.get(k, 0) + v
        samples += r.get('samples', [])[:2]
        slow += r.get('slow', [])
        if r.get('fail'):
            viol.append(r)
        if r.get('flaky'):
            flaky.append(r)
    per_sub = {}
    for r in results:
        d = per_sub.setdefault(r['sub'], {'evaluations': 0, 'distinct_nontrivial': set()})
        d['evaluations'] += r.get('evals', 0)
        d['distinct_nontrivial'] |= set(r.get('nt', []))
    per_sub = {k: {'evaluations': v['evaluations'], 'distinct_nontrivial': len(v['distinct_nontrivial'])}
               for k, v in per_sub.items()}

    lines = []
    seen = set()
    for r in viol:
        if r['sub'] in seen:
            continue
        seen.add(r['sub'])
        rep = os.path.join(core.VERIF, 'replays', '%s-%s.json' % (args.id, r['sub']))
        body = {'property': args.id, 'sub': r['sub'], 'message': r['fail']['msg'], 'case': r['fail']['case'],
                'seed': args.seed, 'tier': args.tier}
        try:
            os.makedirs(os.path.dirname(rep), exist_ok=True)
            with open(rep, 'w') as f:
                json.dump(body, f, indent=1, default=str)
        except OSError as e:
            print('cannot write replay: %s' % e)
        print('%s/%s: %s' % (args.id, r['sub'], r['fail']['msg']))
        print('   case: %s' % core.canon(r['fail']['case'])[:1500])
        lines.append('VIOLATION property=%s replay=%s' % (args.id, rep))
    kf = core.load_known()
    for e in kf.get('findings', []):
        if e['property'] == args.id:
            print('KNOWN-FINDING: property=%s %s' % (args.id, e['what']))
    for r in flaky:
        print('note: %s/%s: a failing case did not fail again: %s' % (args.id, r['sub'], r['flaky']['msg']))
    for e in errors:
        print('HARNESS-ERROR %s' % e)
    if timeouts:
        print('note: inconclusive (time limit): %s' % timeouts)
    wall = time.time() - t0
    cov = {'evaluations': evals, 'distinct_nontrivial': len(nt),
           'rule': getattr(mod, 'RULE', ''), 'samples': samples[:12], 'values_compared': compared,
           'per_sub_check': per_sub, 'labels': dict(sorted(labels.items())),
           'worst_error_over_tolerance': {k: float('%.3g' % v) for k, v in sorted(worst.items(), key=lambda t: -t[1])[:25]},
           'inconclusive_cases': inconclusive, 'cases_skipped_for_time': skipped,
           'shards_timed_out': timeouts, 'slow_cases': slow[:5], 'known_finding_hits': known, 'unreproduced_failures': len(flaky)}
    ev = {'property': args.id, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(lines)}
    if not args.sub:
        os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(core.VERIF, 'evidence', args.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %d values compared, %d violations, %.1fs'
          % (args.id, args.tier, args.seed, evals, len(nt), compared, len(lines), wall))
    if lines:
        print('\n'.join(lines))
        return 1
    if errors or (timeouts and evals == 0):
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
