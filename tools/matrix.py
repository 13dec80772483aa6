#!/usr/bin/env python3
"""Which checks catch which planted bugs: python3 tools/matrix.py [--all] [--jobs N] [--dir DIR] [BUG ...]

Every bug is tried on copies of /repo and /verif, which stand in their places (bind mounts in a mount
namespace of its own), with the check of its property (with --all: every check). Results are appended to
out/matrix.txt; the copies are removed at the end.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')


def main():
    args = sys.argv[1:]
    jobs = 3
    if '--jobs' in args:
        k = args.index('--jobs')
        jobs = int(args[k + 1])
        del args[k:k + 2]
    every = '--all' in args
    seeded = SEEDED
    if '--dir' in args:   # other changes, each in DIR/ID/patch.diff
        k = args.index('--dir')
        seeded = args[k + 1]
        del args[k:k + 2]
    ids = [x for x in args if not x.startswith('--')] or sorted(os.listdir(seeded))
    base = tempfile.mkdtemp(prefix='matrix-')
    local, free = threading.local(), list(range(jobs))

    def work(b):
        if not hasattr(local, 'k'):
            local.k = free.pop()
            local.r, local.v = os.path.join(base, 'repo%d' % local.k), os.path.join(base, 'verif%d' % local.k)
            subprocess.run(['cp', '-a', '/repo', local.r], check=True)
            subprocess.run(['git', '-C', local.r, 'checkout', '-q', '--', '.'], check=True)
            shutil.copytree(VERIF, local.v, ignore=shutil.ignore_patterns('seeded', '.git', 'target', 'out', 'evidence'))
        d = os.path.join(seeded, b)
        prop = json.load(open(d + '/meta.json'))['property']
        props = ['C%02d' % k for k in range(1, 29)] if every else [prop]
        a = subprocess.run(['git', '-C', local.r, 'apply', d + '/patch.diff'], capture_output=True, text=True)
        res = []
        if a.returncode:
            res.append((prop, 'NOT APPLIED', 0, a.stderr))
        else:
            for p in props:
                t = time.time()
                r = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && mount --bind %s /verif && cd /verif && exec ./check.py %s' % (local.r, local.v, p)], capture_output=True, text=True)
                v = 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout else {0: 'missed', 1: 'odd'}.get(r.returncode, 'ERROR')
                res.append((p, v, time.time() - t, r.stdout + (r.stderr[-500:] if v in ('odd', 'ERROR') else '')))
        subprocess.run(['git', '-C', local.r, 'checkout', '-q', '--', '.'], check=True)
        if every:
            return '%s %s caught by %s; errors %s' % (b, prop, ' '.join(p for p, v, _, _ in res if v == 'CAUGHT'), ' '.join(p for p, v, _, _ in res if v not in ('CAUGHT', 'missed')))
        p, v, t, out = res[0]
        why = [x for x in out.splitlines() if x.startswith(p + ':') or 'error' in x.lower()]
        return '%-34s %s %s %3ds %s' % (b, p, v, t, (why[0][:220] if why else ''))

    try:
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for f in concurrent.futures.as_completed([ex.submit(work, b) for b in ids]):
                print(f.result(), flush=True)
    finally:
        subprocess.run(['rm', '-rf', '--', base])


main()
