"""Lists seeded/ for DESIGN.md (between the SEEDED marks)."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set('''c10-bag-is-the-answer c16-opener-installed c01-flags-on-algorithm
c10-selected-texts-kept c16-default-timeout-set c19-policies-by-version
c20-debug-skips-the-rest c12-last-part-of-address c14-category-of-empty-subject
c13-empty-set-replaced c10-first-subject-moves'''.split())
rows = ['| planted bug | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(R + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s%s |' % (
        d, m['needs'].replace('|', '/'), m['property'],
        ' (missed at first)' if d in MISSED else ''))
text = open(R + '/DESIGN.md').read()
text = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)',
              lambda x: x.group(1) + '\n'.join(rows) + '\n' + x.group(2),
              text, flags=re.S)
open(R + '/DESIGN.md', 'w').write(text)
