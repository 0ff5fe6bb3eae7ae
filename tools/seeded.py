"""Applies every planted bug of seeded/ to /repo in turn, runs checks, and undoes it.  python3 tools/seeded.py [--all] [ids]   (--all: every check, else only the check of its property)"""
import json
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(*a):
    return subprocess.run(a, capture_output=True, text=True)


def original_lines(patch):
    """does the patch remove or change a line which the pinned commit already had?"""
    base = sh('git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD').stdout.split()[0]
    f, n, hits, ctx = None, 0, 0, 0
    for l in open(patch):
        if l.startswith('--- '):
            f = l[6:].strip()
        elif l.startswith('@@'):
            n = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-') or l.startswith(' '):
            if l.startswith('-') or True:
                b = sh('git', '-C', '/repo', 'blame', '-l', '-s', '-L', '%d,%d' % (n, n), '--', f).stdout
                if l.startswith('-') and b.lstrip('^').startswith(base[:30]):
                    hits += 1
            n += 1
    return hits


def main():
    args = sys.argv[1:]
    full = '--all' in args
    ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    props = [c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
    if sh('git', '-C', '/repo', 'status', '--short').stdout.strip():
        sys.exit('/repo is not clean')
    for i in ids:
        d = os.path.join(ROOT, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        if sh('git', '-C', '/repo', 'apply', d + '/patch.diff').returncode:
            print(i, 'DOES NOT APPLY')
            continue
        try:
            got = []
            for p in ([meta['property']] if not full else props):
                r = sh('bash', os.path.join(ROOT, 'check.sh'), p)
                if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout:
                    got.append(p)
                elif r.returncode:
                    got.append('%s!%d' % (p, r.returncode))
        finally:
            sh('git', '-C', '/repo', 'checkout', '--', '.')
        print(i, meta['property'], 'caught by' if got else 'MISSED', ' '.join(got), 'original lines removed:', original_lines(d + '/patch.diff'), flush=True)


if __name__ == '__main__':
    main()
