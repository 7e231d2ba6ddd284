"""seed(id, prop, edits, demo, needs, what): makes and confirms a planted bug.  edits: [(path, old, new)] (unique old)"""
import os, json, subprocess, shutil, sys, tempfile
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
def run_tests(copy):
    out = copy + '.json'
    env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    subprocess.call('rm -rf ./tests/data_out/*; mkdir -p ./tests/data_out/ark ./tests/data_out/h5; timeout 840 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 '
                    '--continue-on-collection-errors -W ignore --tb=short -o junit_family=xunit2 --junitxml=%s.xml ./tests >/dev/null 2>&1; /usr/bin/python3 /opt/vp/results.py %s junit:%s.xml >/dev/null'
                    % (copy, out, copy), shell=True, cwd=copy, env=env)
    r = json.load(open(out))
    os.remove(out); os.remove(copy + '.xml')
    return sorted(BASE - set(r['passed']))

def record(id, prop, out):
    f = '/verif/tools/caught.json'
    r = json.load(open(f)) if os.path.exists(f) else {}
    r[id] = [prop, sorted(set(x.split('=', 1)[1] for x in (out or '').split() if x.startswith('harness=')))]
    json.dump(r, open(f, 'w'), indent=0, sort_keys=True)


def seed(id, prop, edits, demo, needs, what, tests=True, check=True):
    d = '/verif/seeded/' + id
    copy = tempfile.mkdtemp(prefix='seed.')
    try:
        subprocess.check_call(['cp', '-a', '/repo/.', copy])
        for path, old, new in edits:
            p = os.path.join(copy, path)
            s = open(p).read()
            assert s.count(old) == 1, (id, path, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.check_output(['git', 'diff', '--', 'hyperion'], cwd=copy).decode()
        base = {}
        for l in patch.splitlines():
            if l.startswith('--- a/'):
                base = set(subprocess.check_output(['git', 'show', 'b7be6b6:' + l[6:]], cwd='/repo').decode('utf8', 'replace').splitlines())
            elif l.startswith('-') and l[1:].strip() and l[1:] not in base:
                print(id, 'NOTE: edits a line of a fix:', l)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(demo)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
        a = subprocess.run([d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run([d + '/demo.sh'], cwd=copy, capture_output=True, text=True)
        msg = '%s: demo clean=%d bug=%d' % (id, a.returncode, b.returncode)
        ok = a.returncode == 0 and b.returncode != 0
        if not ok:
            msg += ' BAD DEMO\n' + a.stderr[-600:] + b.stderr[-600:]
        else:
            msg += ' [' + (b.stderr.strip().splitlines() or [''])[-1][:90] + ']'
        if tests:
            t = run_tests(copy)
            if t:
                ok = False
                msg += ' TESTS FAIL %s' % t[:3]
        if check:
            c = subprocess.run(['/verif/run.sh', 'check', prop, '-j', '4'], cwd='/verif', env=dict(os.environ, VERIF_REPO=copy), capture_output=True, text=True)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            msg += ' | check exit %d %s' % (c.returncode, 'CAUGHT ' + ' '.join(sorted(set(x for x in c.stdout.split() if x.startswith('harness='))))[:80] if c.returncode == 1 and v else 'MISSED ' + c.stdout[-300:])
            if ok:
                record(id, prop, c.stdout if c.returncode == 1 and v else None)
        if not ok:
            shutil.rmtree(d)
        print(msg, flush=True)
        return ok
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def recheck(id):
    """runs the check of the property of a kept seed against it and records the result"""
    d = '/verif/seeded/' + id
    prop = json.load(open(d + '/meta.json'))['property']
    copy = tempfile.mkdtemp(prefix='seed.')
    try:
        subprocess.check_call(['cp', '-a', '/repo/.', copy])
        a = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=copy)
        if a.returncode:
            print(id, 'DOES NOT APPLY')
            return
        c = subprocess.run(['/verif/run.sh', 'check', prop, '-j', '4'], cwd='/verif', env=dict(os.environ, VERIF_REPO=copy, SYMX_EVIDENCE=tempfile.mkdtemp(prefix='seedev.', dir=copy)), capture_output=True, text=True)
        v = c.returncode == 1 and 'VIOLATION property=' + prop in c.stdout
        record(id, prop, c.stdout if v else None)
        print(id, prop, 'CAUGHT' if v else 'MISSED ' + c.stdout[-300:], flush=True)
    finally:
        shutil.rmtree(copy)


if __name__ == '__main__':
    for i in sys.argv[1:] or sorted(os.listdir('/verif/seeded')):
        recheck(i)
