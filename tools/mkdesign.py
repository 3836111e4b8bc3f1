"""Development aid: writes DESIGN.md from tools/design.md (hand written), the registry and seeded/."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'sa'), os.path.join(V, 'tools')]
from registry import CHECKS            # noqa: E402
from props import PROPS, NOT_APPLICABLE, DESIGN    # noqa: E402


def main():
    out = open(os.path.join(V, 'tools', 'design.md')).read()
    rows = []
    for p in sorted(PROPS, key=lambda x: x['id']):
        c = CHECKS.get(p['id'])
        if c is None:
            continue
        spec = c.get('spec')
        rows.append('### %s %s\n\n%s' % (p['id'], p['title'], c['rules']))
        rows.append('*Oracle:* %s' % (
            'the reference definitions in `sa/specs/%s` (text, never executed).' % spec
            if spec else DESIGN['oracle'].get(p['id'], 'the rule itself.')))
        t = DESIGN['notes'].get(p['id'])
        if t:
            rows.append(t)
    out = out.replace('@@PROPERTIES@@', '\n\n'.join(rows))
    na = '\n'.join('- **%s** %s' % kv for kv in sorted(NOT_APPLICABLE.items()))
    out = out.replace('@@NA@@', na or '(none)')
    seeded = os.path.join(V, 'seeded')
    t = ['| planted change | property | needs | caught by |', '|---|---|---|---|']
    for i in sorted(os.listdir(seeded)):
        m = json.load(open(os.path.join(seeded, i, 'meta.json')))
        t.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'],
                                           DESIGN['missed'].get(i, m['property'])))
    out = out.replace('@@SEEDED@@', '\n'.join(t))
    fixed = [l[7:].strip() for l in open(os.path.join(V, 'known_findings.txt'))
             if l.startswith('fixed:')]
    out = out.replace('@@FIXED@@', '\n'.join('- ' + x for x in fixed if 'property=<' not in x))
    open(os.path.join(V, 'DESIGN.md'), 'w').write(out)


main()
