#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on /repo's working tree
   check.py replay <file>                 re-run a replay file
   check.py build                         build every harness (setup)"""
import json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from build import Builder, VERIF, REPO, BUILD

# quick runs with more cases than the targets name, where those take little time
QUICK = {'P01': 2, 'P02': 2, 'P03': 3, 'P04': 4, 'P05': 2, 'P06': 3, 'P07': 2, 'P08': 2, 'P09': 2, 'P10': 3, 'P11': 3, 'P12': 2, 'P13': 2,
         'P14': 4, 'P17': 3, 'P18': 1.5, 'P19': 2, 'P20': 3, 'P21': 1.5, 'P22': 2, 'P23': 1.5, 'P27': 2}

# property -> [(harness, variant)]; tools: executables of /repo/tools the harness runs
CFG = {
    'P01': dict(h=[('p01', 'ubsan')]),
    'P02': dict(h=[('p02', 'ubsan')]),
    'P03': dict(h=[('p03', 'ubsan')]),
    'P04': dict(h=[('p04', 'ubsan')]),
    'P05': dict(h=[('p05s', 'asan'), ('p05', 'asan')], x={'p05s': ['detsched.cc']}),
    'P06': dict(h=[('p06', 'asan')], x={'p06': ['detsched.cc']}),
    'P07': dict(h=[('p07', 'asan')], x={'p07': ['detsched.cc']}),
    'P08': dict(h=[('p08', 'asan')], tools=['converter', 'concat', 'split', 'shuffle']),
    'P09': dict(h=[('p09', 'asan')], tools=['analyze']),
    'P10': dict(h=[('p10', 'asan')]),
    'P11': dict(h=[('p11', 'asan')]),
    'P12': dict(h=[('p12', 'asan')]),
    'P13': dict(h=[('p13', 'asan')]),
    'P14': dict(h=[('p14', 'asan')]),
    'P15': dict(h=[('p15', 'asan')]),
    'P16': dict(h=[('p16', 'asan')]),
    'P17': dict(h=[('p17', 'asan')]),
    'P18': dict(h=[('p18', 'asan')]),
    'P19': dict(h=[('p19', 'asan')]),
    'P20': dict(h=[('p20', 'asan')]),
    'P21': dict(h=[('p21', 'ubsan')]),
    'P22': dict(h=[('p22', 'asan')]),
    'P23': dict(h=[('p23', 'plain')], tools=['sol_train', 'sol_test', 'lsol_c']),
    'P24': dict(h=[('p24', 'asan')]),
    'P25': dict(h=[('p25', 'pyasan')]),
    'P26': dict(h=[('p26', 'py')]),
    'P27': dict(h=[('p27', 'asan')]),
}
LEVEL = {'P04': 'fault_enumeration', 'P16': 'fault_enumeration'}
ASSUME = {
    'asan': 'library compiled with g++ -O1 -fsanitize=address, pthread back end',
    'ubsan': 'library compiled with g++ -O1 -fsanitize=address + signed overflow, '
             'shift, bounds, null, divide checks',
    'pyasan': 'library and python/pysol.pyx compiled with -fsanitize=address for Python 3 with Python 2 string '
              'semantics, numpy 1.26, a stand-in for scipy.sparse.csr_matrix',
    'py': 'Python 2 scripts run by Python 3 through a source transformation (print, integer division, lists)',
    'plain': 'library compiled with g++ -O1, pthread back end',
}

def known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    with open(p) as f:
        return [x for x in json.load(f)['findings']
                if x['property'] == pid and x['status'] == 'known']

def build(pid):
    cfg = CFG[pid]
    b = Builder()
    exes = []
    env = dict(os.environ)
    for name, variant in cfg['h']:
        if variant in ('py', 'pyasan'):
            path = [os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'harness', 'pystub')]
            if variant == 'pyasan':
                path.append(b.pyext(variant))
                lib = subprocess.run(['g++', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
                std = subprocess.run(['g++', '-print-file-name=libstdc++.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
                env['VERIF_PRELOAD'] = lib + ':' + std
                env['PYTHONMALLOC'] = 'malloc'
            env['PYTHONPATH'] = ':'.join(path)
            env['PYTHONDONTWRITEBYTECODE'] = '1'
            env['VERIF_REPO'] = REPO
            exes.append((name, variant, os.path.join(VERIF, 'harness', name + '.py')))
            continue
        exes.append((name, variant, b.harness([name], variant,
                     ['pbt.cc'] + cfg.get('x', {}).get(name, []))[name]))
    if cfg.get('tools'):
        for n, e in b.tools(cfg['tools']).items():
            env['VERIF_TOOL_' + n.upper()] = e
    env['ASAN_OPTIONS'] = ('detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:'
                           'handle_abort=0:max_allocation_size_mb=4096:detect_stack_use_after_return=0')
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:abort_on_error=1'
    env['LC_ALL'] = 'C'
    return exes, env

def launch(exe, variant, env):
    if variant not in ('py', 'pyasan'): return [exe]
    pre = env.get('VERIF_PRELOAD') if variant == 'pyasan' else None
    return (['env', 'LD_PRELOAD=' + pre] if pre else []) + ['/usr/bin/python3', exe]

def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    exes, env = build(pid)
    t1 = time.time()
    rdir = os.path.join(VERIF, 'replays', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    kn = known(pid)
    violation = None
    targets = []
    for name, variant, exe in exes:
        out = os.path.join(rdir, name)
        os.makedirs(out)
        cmd = launch(exe, variant, env) + ['run', '--seed', str(seed), '--tier', tier,
               '--workers', str(os.cpu_count() or 4), '--out', out]
        if kn: cmd += ['--known', ','.join(x['key'] for x in kn)]
        scale = os.environ.get('VERIF_SCALE') or (str(QUICK.get(pid, 1)) if tier == 'quick' else '1')
        if scale != '1': cmd += ['--scale', scale]
        if os.environ.get('VERIF_TARGET'): cmd += ['--target', os.environ['VERIF_TARGET']]
        r = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL,
                           stderr=None if os.environ.get('VERIF_VERBOSE') else subprocess.DEVNULL)
        try:
            with open(os.path.join(out, 'result.json')) as f:
                res = json.load(f)
        except (OSError, ValueError) as e:
            print('check error: harness %s gave no result (rc %s): %s' % (name, r.returncode, e))
            return 2
        for t in res['targets']:
            t['harness'] = name
            t['variant'] = variant
            targets.append(t)
        if res.get('violation') and not violation:
            violation = res['violation']
            rp = violation['replay']
            with open(rp) as f: body = f.read()
            with open(rp, 'w') as f:
                f.write('property: %s\nharness: %s\nvariant: %s\nseed: %d\n' % (pid, name, variant, seed) + body)
            break
    ev = sum(t['evaluations'] for t in targets)
    nt = sum(t['distinct_nontrivial'] for t in targets)
    samples = []
    for t in targets:
        samples += [{'target': t['name'], 'case': s} for s in t['samples'][:3]]
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': LEVEL.get(pid, 'exploration'),
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': nt,
            'rule': ' | '.join('%s: %s' % (t['name'], t['rule']) for t in targets),
            'samples': samples,
            'targets': [{k: t[k] for k in ('name', 'harness', 'variant', 'evaluations', 'discarded',
                         'nontrivial', 'distinct_nontrivial', 'labels', 'stopped_early',
                         'known_failures', 'unreproduced', 'wall_s')} for t in targets],
            'build_s': round(t1 - t0, 2),
        },
        'assumptions': sorted({ASSUME[v] for _, v, _ in exes}),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for x in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, x['what']))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs' %
          (pid, tier, seed, ev, nt, t1 - t0, time.time() - t0))
    for t in targets:
        print('  %-28s %7d cases %7d non-trivial %6.1fs %s' % (t['name'], t['evaluations'],
              t['distinct_nontrivial'], t['wall_s'], 'STOPPED EARLY' if t['stopped_early'] else ''))
    if violation:
        print('failing case of target %s [%s]:\n%s\n%s' % (violation['target'], violation['key'],
              violation['case'][:3000], violation['message'][:3000]))
        print('VIOLATION property=%s replay=%s' % (pid, violation['replay']))
        return 1
    return 0

def replay(path):
    head = {}
    with open(path) as f:
        for line in f:
            if ': ' in line:
                k, v = line.rstrip('\n').split(': ', 1)
                head.setdefault(k, v)
    exes, env = build(head['property'])
    for name, variant, exe in exes:
        if name == head['harness']:
            return subprocess.run(launch(exe, variant, env) + ['replay', path, '--verbose', '1'], env=env).returncode
    return 2

def main():
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    if sys.argv[1] == 'setup':  # nothing to prepare: every check builds what it needs
        subprocess.run(['g++', '--version'], check=True, stdout=subprocess.DEVNULL)
        return 0
    if sys.argv[1] == 'build':
        for pid in CFG: build(pid)
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    return run(sys.argv[1], tier)

if __name__ == '__main__':
    try:
        rc = main()
    except RuntimeError as e:
        print('check error:', e)
        rc = 2
    sys.exit(rc)
