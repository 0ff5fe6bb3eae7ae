"""Writes the table of seeded bugs into DESIGN.md (between the two marker comments) from seeded/*/meta.json."""
import glob
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED_FIRST = {  # what was added because a bug went unnoticed at first
    'b40-earlydefault': 'missed at first: C14 got schemas that use one name for several things', 'b44-enumtpl': 'missed at first: C15 got the pairs of schemas',
    'b73-zerolen': 'missed at first: the model abstained on zero-octet integers (the library itself accepted two kinds of them, repaired)',
}


def main():
    rows = ['| bug | property = check that reports it | needs | note |', '|---|---|---|---|']
    for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*'))):
        m = json.load(open(os.path.join(d, 'meta.json')))
        i = os.path.basename(d)
        note = next((v for k, v in MISSED_FIRST.items() if k.split('-')[0] == i.split('-')[0]), '')
        rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), note))
    p = os.path.join(ROOT, 'DESIGN.md')
    s = open(p).read()
    s = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)', lambda x: x.group(1) + '\n'.join(rows) + '\n' + x.group(2), s, flags=re.S)
    open(p, 'w').write(s)


if __name__ == '__main__':
    main()
