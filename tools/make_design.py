"""appends the per-property part to DESIGN.md from the modules (between markers)"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
p = HERE + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- properties -->', '<!-- end -->'
out = ['', '## Per property', '']
for l in open(HERE + '/properties.jsonl'):
    q = json.loads(l)
    i = q['id']
    out.append('### %s %s' % (i, q['title']))
    try:
        m = importlib.import_module('mirv.props.' + i.lower())
        out.append('* proved: ' + m.PROVED)
        out.append('* bounded stand-in: ' + m.BOUNDED)
        for x in getattr(m, 'ASSUMPTIONS', []):
            out.append('* assumes: ' + x)
        d = (m.__doc__ or '').strip()
        if d:
            out.append('* how: ' + ' '.join(d.split()))
    except ModuleNotFoundError:
        out.append('* not claimed (see MANIFEST.json)')
    out.append('')
body = a + '\n'.join(out) + b
if a in s:
    s = s[:s.index(a)] + body + s[s.index(b) + len(b):]
else:
    s += '\n' + body + '\n'
open(p, 'w').write(s)
