"""addp(text of dict(...) entries): inserts in order of id"""
import re
def addp(new):
    p = '/verif/tools/props.py'
    s = open(p).read()
    head, body = s.split('PROPS = [\n')
    body = body[:body.rindex(']')]
    ents = re.split(r"(?=^dict\(id=')", body + new, flags=re.M)
    d = {}
    for e in ents:
        m = re.match(r"dict\(id='(P\d+)'", e)
        if m:
            d[m.group(1)] = e if e.endswith('\n') else e + '\n'
    open(p, 'w').write(head + 'PROPS = [\n' + ''.join(d[k] for k in sorted(d)) + ']\n')
