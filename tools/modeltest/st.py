import sys,os,re,subprocess,json
R='/tmp/r3'; os.environ['VP_REPO']=R
sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(20000)
subprocess.run('git checkout -q -- . ; rm -f butte-build/src/selftest.rs',shell=True,cwd=R)
s=open('/tmp/st/selftest.rs').read()
ns=re.findall(r'^fn (t_\w+)\(\)',s,re.M)
s=s.replace('[CASES].iter() { f() }','[%s].iter() { f() }'%', '.join(n+' as fn()' for n in ns))
open(R+'/butte-build/src/selftest.rs','w').write('#![allow(warnings)]\n'+s)
p=R+'/butte-build/src/lib.rs'; t=open(p).read(); open(p,'w').write(t+'\nmod selftest;\n#[test] fn native() { selftest::selftests() }\n')
p=R+'/butte-build/src/compile.rs'; t=open(p).read(); open(p,'w').write(t.replace('let mut schema_text = String::new();','if ugly { crate::selftest::selftests(); }\n let mut schema_text = String::new();',1))
if '-n' in sys.argv:
    r=subprocess.run('cargo test --offline -p butte-build --lib native 2>&1 | grep -v warning | tail -30',shell=True,cwd=R,stdout=subprocess.PIPE,text=True); print(r.stdout[-3000:])
import pipeline,comp,compmodels as cm,comprun
from comp import *
d=pipeline.export_build(); prog=Program(os.path.join(d,'butte_build.debug.json'))
def go():
    for n in ns:
        if len(sys.argv)>1 and not sys.argv[1].startswith('-') and sys.argv[1]!=n: continue
        k=[k for k in prog.bodies if prog.bodies[k].get('def','').endswith('::'+n)]
        I=Interp(prog,cm,{'schema':Text()}); I.rpcs=[];I.paths=[];I.idents=[];I.fed=Text()
        import time; I.deadline=time.time()+60
        try: I.run_body(k[0],[]); print(n,'ok')
        except Panic as e: print(n,'PANIC',e.msg,e.span,e.stack[-2:])
        except Exception as e: print(n,type(e).__name__,str(e)[:200],getattr(e,'where',[])[-2:])
comp.big_stack(go)
