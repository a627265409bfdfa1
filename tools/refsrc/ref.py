import sys,os,subprocess,re,json,importlib.util
R='/tmp/r2'; os.environ['VP_REPO']=R
sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(20000)
def sh(c,cwd=R): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
spec=importlib.util.spec_from_file_location('m',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
props=os.environ.get('PROPS','C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15').split()
for name,edits in m.REF:
    if len(sys.argv)>2 and not re.search(sys.argv[2],name): continue
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    for f,o,n in edits:
        s=open(R+'/'+f).read(); assert s.count(o)>=1,(name,f,s.count(o),o); open(R+'/'+f,'w').write(s.replace(o,n,1))
    out=[]
    b=sh('cargo test --offline 2>&1 | grep -E "^error|test result|warning: unused" | sort | uniq -c | head -5; true') if '-t' in sys.argv else None
    if b and ('error' in b.stdout or 'FAILED' in b.stdout): print(name,'BUILD/TEST',b.stdout)
    for p in props:
        r=sh('python3 sa/check.py %s'%p,'/verif')
        if r.returncode!=0: out.append((p,r.returncode,[l[:220] for l in r.stdout.splitlines() if 'rule' in l or 'key' in l or 'error' in l.lower() or 'construct' in l][:6]))
        d=json.load(open('/verif/evidence/%s.json'%p))['coverage']
        u=d.get('undecided',0)
        if u: out.append((p,'undecided',u,d.get('undecided_samples',[])[:2] if '-v' in sys.argv else ''))
        if d.get('analysis_errors'): out.append((p,d['analysis_errors'][:3]))
    print(name,'OK' if not out else '',flush=True)
    for o in out: print('    ',o,flush=True)
sh('git checkout -q -- .')
