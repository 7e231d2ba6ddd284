import sys,subprocess,json,os
REPO=os.environ.get('FXREPO','/tmp/wr')
def fix(path, pairs=None, msg=None, prop=None, what=None):
    """path may be a list of (path, pairs)"""
    todo = [(path, pairs)] if isinstance(path, str) else path
    for path, pairs in todo:
        p=REPO+'/'+path
        s=open(p).read()
        for a,b in pairs:
            n = s.count(a)
            assert n==1, (path, n, a)
            s=s.replace(a,b)
        open(p,'w').write(s)
    subprocess.check_call(['git','-C',REPO,'commit','-qam','fix: '+msg])
    h = subprocess.check_output(['git','-C',REPO,'log','--format=%h','-1']).decode().strip()
    k='/verif/known_findings.json'
    d=json.load(open(k)); d['fixed'].append('fixed: property=%s %s %s'%(prop,h,what))
    open(k,'w').write('{"findings": '+json.dumps(d['findings'],indent=1)+',\n "fixed": [\n'+',\n'.join(json.dumps(x) for x in d['fixed'])+'\n]}\n')
    print(h, msg)
