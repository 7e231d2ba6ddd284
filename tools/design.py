"""rewrites the generated part of DESIGN.md: per property harnesses and bounds, planted bugs, fixes"""
import ast, glob, json, os
V = '/verif/'
MARK = '<!-- generated by tools/design.py -->\n'
s = open(V + 'DESIGN.md').read()
head = s[:s.index(MARK)] if MARK in s else s.rstrip('\n') + '\n\n'
props = [json.loads(l) for l in open(V + 'properties.jsonl')]
caught = json.load(open(V + 'tools/caught.json')) if os.path.exists(V + 'tools/caught.json') else {}
hs = {}
for f in sorted(glob.glob(V + 'checks/*.py')):
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'harness':
                    p = ast.literal_eval(d.args[0])
                    b = [k.value for k in d.keywords if k.arg == 'bounds']
                    try:
                        b = ast.literal_eval(b[0]) if b else ''
                    except ValueError:
                        b = ''
                    hs.setdefault(p, []).append((n.name, (ast.get_docstring(n) or '').splitlines()[:1], b, os.path.basename(f)))
out = [MARK, '## Properties: how each one is decided\n\n',
       'Each harness is one bounded statement; "bounds" is what its symbolic inputs range over (any values within). All run the functions of /repo listed in `functions_encoded` of the evidence.\n\n']
ev = {}
for p in props:
    i = p['id']
    out.append('### %s %s\n\n' % (i, p['title']))
    e = None
    if os.path.exists(V + 'evidence/%s.json' % i):
        e = json.load(open(V + 'evidence/%s.json' % i))
    if i in hs:
        out.append('`checks/%s`\n\n' % hs[i][0][3])
    for n, d, b, _ in hs.get(i, []):
        out.append('* `%s`: %s%s\n' % (n, d[0] if d else '', ' [%s]' % b if b else ''))
    c = [k for k, v in caught.items() if v[0] == i]
    if c:
        out.append('\nPlanted: ' + '; '.join('%s (%s)' % (k, 'caught by ' + ', '.join(caught[k][1]) if caught[k][1] else 'MISSED') for k in sorted(c)) + '\n')
    out.append('\n')
k = json.load(open(V + 'known_findings.json'))
out.append('## Defects of the repository found by the checks\n\nRepaired, each by its own "fix:" commit (property, commit, what failed):\n\n')
for f in k['fixed']:
    out.append('* %s\n' % f.replace('fixed: property=', ''))
out.append('\nRecorded, not repaired: %s\n' % ('none' if not k['findings'] else ''))
for f in k['findings']:
    out.append('* %s\n' % json.dumps(f))
open(V + 'DESIGN.md', 'w').write(head + ''.join(out))
