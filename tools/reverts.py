"""Takes back one repair of /repo at a time (in a scratch copy bound on /repo in a mount namespace of its own) and runs the check of its property: each has to be reported again."""
import json
import os
import shutil
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/rev'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh('cp', '-a', '/repo', W + '/repo')
    shutil.copytree(ROOT, W + '/verif', ignore=shutil.ignore_patterns('seeded', '.git', '__pycache__'))
    env = dict(os.environ, MC_FAST='1', VERIF_TIER='quick')
    for f in json.load(open(ROOT + '/known_findings.json'))['findings']:
        if f.get('status') != 'fixed' or len(sys.argv) > 1 and not f['commit'].startswith(tuple(sys.argv[1:])):
            continue
        c = f['commit']
        sh('git', 'checkout', '-q', '--', '.', cwd=W + '/repo')
        r = sh('git', 'revert', '--no-commit', c, cwd=W + '/repo')
        if r.returncode:
            sh('git', 'revert', '--abort', cwd=W + '/repo')
            sh('git', 'reset', '-q', '--hard', cwd=W + '/repo')
            print(c[:7], f['property'], 'CONFLICT', f['what'][:90], flush=True)
            continue
        x = sh('unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo && exec bash %s/verif/check.sh %s' % (W, W, f['property']), env=env)
        print(c[:7], f['property'], {0: 'NOT REPORTED', 1: 'reported'}.get(x.returncode, 'rc %d' % x.returncode), f['what'][:90], flush=True)
        sh('git', 'reset', '-q', '--hard', cwd=W + '/repo')
    shutil.rmtree(W, ignore_errors=True)


if __name__ == '__main__':
    main()
