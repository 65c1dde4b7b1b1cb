#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--replay FILE] [--scale X]
Decides one property: builds its harness from /repo's working tree, explores generated cases in parallel shards,
shrinks and replays a failure, writes evidence/ID.json.  Exit 0 / exit 1 with a VIOLATION line."""
import json, os, subprocess, sys, time, tempfile, shutil, array, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from checks import CHECKS
VERIF = B.VERIF

def known(pid):
    """open findings of this property: [(signature, what)]"""
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                sig, what = l.split(' ', 2)[2].split(' ', 1)
                r.append((sig.split('=', 1)[1], what))
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay'); ap.add_argument('--scale', type=float, default=1.0); ap.add_argument('--prop'); ap.add_argument('--variant'); ap.add_argument('--nostop', action='store_true')
    a = ap.parse_args()
    pid = a.id
    cfg = CHECKS[pid]
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    mix = dict(cfg.get('mix', {'plain': 6, 'asan': 2}))
    if a.variant: mix = {a.variant: 8}
    exes = {v: B.build(v, cfg['harness']) for v in mix if mix[v]}
    tb = time.time() - t0
    kn = known(pid)
    kargs = [x for s, _ in kn for x in ('--known', s)]
    if a.replay:
        rp = json.load(open(a.replay)); os.environ['VF_CPUMASK'] = rp.get('cpumask') or ''
        v = rp.get('variant') or 'plain'
        exe = exes.get(v) or B.build(v, cfg['harness'])
        if rp.get('tape') is None:
            r = subprocess.run([exe] + rp['args']); bad = r.returncode != 0
        else:
            tp = tempfile.mktemp(); open(tp, 'w').write(rp['prop'] + '\n' + '\n'.join(map(str, rp['tape'])) + '\n')
            r = subprocess.run([exe, '--replay', tp, '--tier', tier] + kargs); os.unlink(tp); bad = r.returncode == 1
        if bad: print('VIOLATION property=%s replay=%s' % (pid, a.replay))
        return 1 if bad else 0
    work = tempfile.mkdtemp(prefix='vf-%s-' % pid)
    try:
        return explore(pid, cfg, tier, seed, mix, exes, kn, kargs, work, t0, tb, a)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def explore(pid, cfg, tier, seed, mix, exes, kn, kargs, work, t0, tb, a):
    maxsec = cfg.get('maxsec', {'quick': 240, 'thorough': 3600})[tier]
    shards = sum(mix.values())
    procs = []
    k = 0
    env0 = dict(os.environ, TMPDIR=work, VF_SCRATCH=work); env = {}
    for v, n in mix.items():
        for _ in range(n):
            out = os.path.join(work, 'o%d.json' % k)
            # the address-sanitizer shards run the same case stream, thinned to their speed
            args = ['--shard', str(k), '--shards', str(shards), '--seed', str(seed), '--tier', tier, '--out', out, '--maxsec', str(maxsec), '--scale', str(a.scale * (cfg.get('sanscale', 0.4) if v != 'plain' else 1.0) )] + kargs + (['--prop', a.prop] if a.prop else []) + (['--nostop'] if a.nostop else [])
            log = open(os.path.join(work, 'l%d' % k), 'wb')
            masks = cfg.get('cpumasks', [''])
            env[k] = dict(env0, VF_CPUMASK=masks[k % len(masks)])
            procs.append((k, v, out, args, subprocess.Popen([exes[v]] + args, stdout=log, stderr=log, env=env[k], cwd=work)))
            k += 1
    pending = {p[0]: p for p in procs}
    failed = None
    results = {}
    while pending and not failed:
        time.sleep(0.05)
        for kk, (kx, v, out, args, pr) in list(pending.items()):
            rc = pr.poll()
            if rc is None: continue
            del pending[kk]
            if a.nostop: sys.stderr.write(open(os.path.join(work, 'l%d' % kx), errors='replace').read())
            if os.path.exists(out):
                results[kx] = json.load(open(out))
                if rc != 0 and results[kx]['fail']:
                    failed = (kx, v, out, args, rc); break
            else:
                failed = (kx, v, out, args, rc); break
    for p in procs:
        if p[4].poll() is None:
            p[4].kill(); p[4].wait()
    violation = None
    if failed:
        violation = diagnose(pid, failed, exes, tier, seed, kargs, work, results, env[failed[0]])
    write_evidence(pid, cfg, tier, seed, results, work, procs, kn, violation, t0, tb)
    for s, w in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    if violation:
        print(violation['message'][:2000])
        print('case: ' + violation.get('case', '')[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, violation['path']))
        return 1
    return 0

def diagnose(pid, failed, exes, tier, seed, kargs, work, results, env):
    kx, v, out, args, rc = failed
    exe = exes[v]
    log = open(os.path.join(work, 'l%d' % kx), errors='replace').read()
    props = [l.split()[0] for l in subprocess.run([exe, '--list'], stdout=subprocess.PIPE).stdout.decode().split('\n') if l]
    log = open(os.path.join(work, 'l%d' % kx), errors='replace').read()
    tape = out + '.tape'
    msg = ''
    case = ''
    if kx in results and results[kx]['fail']:
        f = results[kx]['fail']; msg = f['message']; case = f['case']; prop = f['prop']
    else:
        h = array.array('Q')
        if os.path.exists(out + '.heart'): h.frombytes(open(out + '.heart', 'rb').read())
        if len(h) < 2 or h[0] >= len(props):
            # before the first case (static initialisers) or between cases: the code under test did it, there is no tape to shrink
            path = os.path.join(VERIF, 'evidence', 'replay', pid + '.json'); os.makedirs(os.path.dirname(path), exist_ok=True)
            msg = 'process died outside a case (rc %s): %s' % (rc, log[:3000])
            json.dump(dict(property=pid, variant=v, tape=None, args=args, prop=None, message=msg, cpumask=env['VF_CPUMASK']), open(path, 'w'), indent=1)
            again = subprocess.run([exe, '--list'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env).returncode
            if again == 0: print(msg); raise SystemExit(4)
            return dict(message=msg, case='start of the process', path=path)
        prop = props[h[0]]
        msg = 'process died (rc %s) in %s case %d: %s' % (rc, prop, h[1], log[-3000:])
        subprocess.run([exe, '--tape', prop, '--from', str(h[1]), '--seed', str(seed), '--tier', tier, '--out', tape], env=env)
    rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, pid + '.json')
    so = out + '.shrunk'
    subprocess.run([exe, '--shrink', tape, '--out', so, '--tier', tier] + kargs, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
    s = json.load(open(so)) if os.path.exists(so) else None
    if s and s['fails']:
        tp = out + '.min'; open(tp, 'w').write(s['prop'] + '\n' + '\n'.join(map(str, s['tape'])) + '\n')
        n = sum(subprocess.run([exe, '--replay', tp, '--tier', tier], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env).returncode == 1 for _ in range(3))
        if n:
            extra = ''
            if 'sanitizer' in s['message'] or 'signal' in s['message']:
                r = subprocess.run([exe, '--replay', tp, '--tier', tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(env, VF_VERBOSE='1'))
                extra = '\n' + r.stdout.decode('utf8', 'replace')[:3000]
            s.update(property=pid, variant=v, cpumask=env['VF_CPUMASK'], seed=seed, tier=tier, original=msg, replays_failed=n, message='%s: %s%s' % (s['prop'], s['message'], extra))
            json.dump(s, open(path, 'w'), indent=1)
            return dict(message=s['message'], case=s['case'], path=path)
    # the case alone does not fail in a fresh process: does the history of this shard?
    args2 = [x for x in args]
    args2[args2.index('--out') + 1] = out + '.again'
    n = 0
    for _ in range(2):
        try: os.unlink(out + '.again')
        except OSError: pass
        r = subprocess.run([exe] + args2, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
        again = json.load(open(out + '.again')) if os.path.exists(out + '.again') else None
        if again is None or again['fail']: n += 1
    if n == 0:
        print('NOTE: a failure did not reproduce in 3+2 replays and is not reported: ' + msg[:1500])
        return None
    json.dump(dict(property=pid, variant=v, tape=None, args=args2, prop=prop, message=msg, cpumask=env['VF_CPUMASK'], note='fails only after the preceding cases of this shard'), open(path, 'w'), indent=1)
    return dict(message='%s: %s (fails only in the history of its shard)' % (prop, msg), case=case, path=path)

def write_evidence(pid, cfg, tier, seed, results, work, procs, kn, violation, t0, tb):
    tot = dict(evals=0, disc=0, non=0); props = {}; samples = []
    hs = set()
    for kx, v, out, args, pr in procs:
        hp = out + '.hashes'
        if os.path.exists(hp):
            h = array.array('Q'); h.frombytes(open(hp, 'rb').read()); hs.update(h)
        r = results.get(kx)
        if not r: continue
        for p in r['props']:
            q = props.setdefault(p['name'], dict(cases=0, discarded=0, nontrivial=0, cpu_s=0.0, known_findings_hit=0, classes={}, by_build={}))
            q['cases'] += p['evals']; q['discarded'] += p['discarded']; q['nontrivial'] += p['nontrivial']; q['cpu_s'] = round(q['cpu_s'] + p['secs'], 2); q['known_findings_hit'] += p['known']
            q['by_build'][v] = q['by_build'].get(v, 0) + p['evals']
            for t, n in p['tags'].items(): q['classes'][t] = q['classes'].get(t, 0) + n
            tot['evals'] += p['evals']
            if len([s for s in samples if s['sub_property'] == p['name']]) < 2:
                samples += [dict(sub_property=p['name'], case=s) for s in p['samples'][:1]]
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 2), violations=1 if violation else 0,
              coverage=dict(evaluations=tot['evals'], distinct_nontrivial=len(hs), rule=cfg['rule'], samples=samples[:40], sub_properties=props,
                            build_s=round(tb, 1), stopped_by_time_cap=any(r.get('capped') for r in results.values())),
              assumptions=cfg.get('assumptions', []) + ["native clang build of /repo/CEX with a stand-in Windows API (compat/); AVX-512 and OpenMP paths are not compiled here, as in the project's own build"])
    if kn: ev['coverage']['known_findings'] = [w for _, w in kn]
    if violation: ev['coverage']['violation'] = violation
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))

if __name__ == '__main__':
    sys.exit(main())
