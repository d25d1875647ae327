#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]  builds the library from /repo and runs one check."""
import os, re, sys, time, subprocess
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import build as B
from checks import CHECKS

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    extra = []
    args = sys.argv[2:]
    rep = None
    while args:
        a = args.pop(0)
        if a == '--tier': tier = args.pop(0)
        elif a == '--replay': rep = args.pop(0)
        else: extra.append(a)
    c = CHECKS[prop]
    t = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    try:
        exe, ldir = B.build(c.get('flavour', 'plain'), c['sources'], prop.lower())
    except B.BuildError as e:
        print('BUILD ERROR: %s' % e)
        return 2
    tb = time.time() - t
    env = dict(os.environ)
    env['LC_ALL'] = 'C.UTF-8'
    env['TZ'] = 'UTC'
    env.setdefault('HOME', '/root')
    env['ASAN_OPTIONS'] = c.get('asan', 'detect_leaks=0:malloc_context_size=2:quarantine_size_mb=32:abort_on_error=1:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0')
    cmd = [exe, '--tier', tier, '--libdir', ldir, '--seed', os.environ.get('VERIF_SEED', '1'), '--known', os.path.join(VERIF, 'known_findings.txt'),
           '--replay-dir', os.path.join(VERIF, 'build', 'replays')]
    os.makedirs(os.path.join(VERIF, 'build', 'replays'), exist_ok=True)
    if rep:
        txt = open(rep).read()
        cmd += ['--case', re.search(r'^space: (\d+)', txt, re.M).group(1), re.search(r'^case: (\d+)', txt, re.M).group(1)]
    elif '--only' in extra or '--list' in extra or '--case' in extra:
        cmd += extra
    else:
        cmd += ['--evidence', os.path.join(VERIF, 'evidence', prop + '.json'), '--cap', str(max(60, 780 - tb) if tier == 'quick' else 6 * 3600)] + extra
    if tier == 'quick' and not rep:
        f = os.path.join(VERIF, 'evidence', prop + '.json')
        if '--evidence' in cmd and os.path.exists(f): os.remove(f)
    r = subprocess.run(cmd, env=env)
    print('build %.1f s, run %.1f s' % (tb, time.time() - t - tb), flush=True)
    if r.returncode not in (0, 1):
        return 2
    return r.returncode

sys.exit(main())
