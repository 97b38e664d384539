#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   or   check.py --replay <file>

Builds the harness of a property from /repo's working tree, enumerates its
execution space, writes /verif/evidence/<id>.json, and exits 0 (held) or
1 (VIOLATION lines printed); any other exit is an error of the check itself.
"""
import json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import VERIF
from registry import CHECKS

def load_known():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return json.load(f)['findings']

def env_for(tier):
    e = dict(os.environ)
    e['VERIF_TIER'] = tier
    e.setdefault('VERIF_SEED', '1')
    e['MALLOC_PERTURB_'] = '85'
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_odr_violation=0:handle_abort=0:print_summary=1:new_delete_type_mismatch=1'
    e['MKL_NUM_THREADS'] = '1'
    e['OMP_NUM_THREADS'] = '1'
    e['LC_ALL'] = 'C'
    return e

def run_harness(spec, tier, scratch, case=None, only=None):
    env = env_for(tier)
    if spec.get('python'):
        env['PYTHONPATH'] = vbuild.build_python(spec.get('variant', 'plain')) + ':' + os.path.join(VERIF, 'harness')
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        exe = [sys.executable, os.path.join(VERIF, 'harness', spec['python'])]
    else:
        exe = [vbuild.build(spec['harness'], spec.get('variant', 'plain'), spec.get('extra', ()))]
    args = exe + ['--out', os.path.join(scratch, 'result.json'), '--dir', scratch]
    for k, v in spec.get('env', {}).items():
        env[k] = v
    if spec.get('programs'):
        for var, main in spec['programs'].items():
            env[var] = vbuild.build(None, spec.get('variant', 'plain'), spec.get('extra', ()), with_main=main)
    env['MC_SCRATCH'] = scratch
    env['MC_REPO'] = vbuild.REPO
    if case:
        args += ['--case', case]
        return subprocess.run(args, cwd=scratch, env=env, capture_output=True, text=True, errors='replace', timeout=300)
    if only:
        args += ['--only', only]
    log = os.path.join(scratch, 'log.txt')
    with open(log, 'w') as lf:
        r = subprocess.run(args, cwd=scratch, env=env, stdout=lf, stderr=subprocess.STDOUT)
    return r

def log_tail(scratch):
    try:
        with open(os.path.join(scratch, 'log.txt'), errors='replace') as f:
            return f.read()[-6000:]
    except OSError:
        return ''

def main():
    t0 = time.time()
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        rec = json.load(open(sys.argv[2]))
        pid = rec['property']
        spec = CHECKS[pid]['harnesses'][rec['harness_no']]
        scratch = tempfile.mkdtemp(prefix='nla3d-replay-')
        try:
            r = run_harness(spec, rec['tier'], scratch, case='%s:%d' % (rec['family'], rec['idx']))
            sys.stdout.write(r.stdout[-8000:])
            sys.stderr.write(r.stderr[-8000:])
            print('replay exit status', r.returncode)
            return 1 if r.returncode else 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    chk = CHECKS[pid]
    known = [k for k in load_known() if k['property'] == pid]
    tot = dict(executions=0, transitions=0, states=0)
    fams, samples, viol, capped = [], [], [], False
    known_hit = {}
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(rdir, f))
    for hn, spec in enumerate(chk['harnesses']):
        scratch = tempfile.mkdtemp(prefix='nla3d-check-')
        try:
            try:
                r = run_harness(spec, tier, scratch, only=only)
            except vbuild.BuildError as e:
                print('BUILD ERROR (no verdict):', e)
                return 2
            rp = os.path.join(scratch, 'result.json')
            if r.returncode != 0 or not os.path.exists(rp):
                # the driver itself died before enumerating: static initialisation of the code under test
                print('HARNESS ERROR (no verdict): exit', r.returncode)
                print(log_tail(scratch))
                return 2
            res = json.load(open(rp))
            for k in tot:
                tot[k] += res[k]
            for f in res['families']:
                fams.append(f)
            samples += res['samples']
            capped = capped or res['capped']
            for f in res['failures']:
                m = None
                for k in known:
                    if k['family'] == f['family'] and k['key'] == f['key'] and ('idx' not in k or f['idx'] in k['idx']):
                        m = k
                        break
                if m:
                    known_hit[m['id']] = m
                    continue
                f['harness_no'] = hn
                viol.append(f)
            if viol and any(v['crash'] for v in viol):
                print('--- output of the code under test (tail)')
                print(log_tail(scratch)[-2500:])
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    for k in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    seen = {}
    for v in viol:
        kk = (v['family'], v['key'])
        seen.setdefault(kk, []).append(v)
    for kk, vs in seen.items():
        v = vs[0]
        rp = os.path.join(rdir, '%s-%s-%s-%d.json' % (pid, v['family'].replace('/', '_'), ''.join(c if c.isalnum() else '_' for c in v['key'])[:40], v['idx']))
        v['property'] = pid
        v['tier'] = tier
        v['how'] = 'python3 %s/bin/check.py --replay %s' % (VERIF, rp)
        json.dump(v, open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('  family=%s idx=%d key=%s (%d recorded)\n  %s\n  trace: %s' % (v['family'], v['idx'], v['key'], len(vs), v['msg'][:1500], v['trace'][:1500]))
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': chk.get('level', 'model_checking'),
        'coverage': {
            'states': tot['states'], 'transitions': tot['transitions'], 'traces_validated_against_impl': tot['executions'],
            'evaluations': tot['executions'],
            'samples': samples[:12] or ['(none)'],
            'rule': 'every index of every family is decoded into one execution, run on the real code built from /repo, and compared with the reference model; states are distinct canonical observations',
            'exhaustive': not capped,
            'families': fams,
            'bounds': chk.get('bounds', ''),
        },
        'assumptions': chk.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(seen),
    }
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: executions=%d transitions=%d states=%d families=%d violations=%d known=%d capped=%s wall=%.1fs' % (
        pid, tier, tot['executions'], tot['transitions'], tot['states'], len(fams), len(seen), len(known_hit), capped, time.time() - t0))
    return 1 if seen else 0

if __name__ == '__main__':
    sys.exit(main())
