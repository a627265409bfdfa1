import subprocess,sys,os,json,shutil,importlib.util,re
R='/repo'
def sh(c,cwd=R,t=900):
    return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
DEMO='''#!/bin/bash
# builds and runs main.rs against the butte crate of the current directory
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
butte = { path = "$repo/butte" }
%(deps)s
[workspace]
EOF
cd "$d" && cargo run --offline --quiet %(flags)s
'''
DEMO2='''#!/bin/bash
# compiles and runs main.rs against the crates of the current directory%(extra)s
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here"/*.rs "$d/src/"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
%(build)s
[dependencies]
butte = { path = "$repo/butte" }
%(deps)s
[workspace]
EOF
cp "$here"/*.fbs "$d/" 2>/dev/null
cd "$d" && cargo run --offline --quiet
'''
GENRS='''use std::io::Write; use std::sync::{Arc,Mutex};
#[derive(Clone)] struct Out(Arc<Mutex<Vec<u8>>>);
impl Write for Out { fn write(&mut self, b:&[u8])->std::io::Result<usize>{ self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) } fn flush(&mut self)->std::io::Result<()> { Ok(()) } }
#[allow(dead_code)]
pub fn gen(schema:&str)->Result<String,String>{ let o=Out(Arc::new(Mutex::new(vec![]))); butte_build::compile_fbs_generic(true,None,Box::new(std::io::Cursor::new(schema.to_string().into_bytes())),Box::new(o.clone())).map_err(|e|e.to_string())?; let v=o.0.lock().unwrap().clone(); Ok(String::from_utf8(v).unwrap()) }
'''
BUILDRS='''fn main(){ let out=std::env::var("OUT_DIR").unwrap(); for e in std::fs::read_dir(".").unwrap() { let p=e.unwrap().path(); if p.extension().map_or(false,|x|x=="fbs") { let f=std::fs::File::open(&p).unwrap(); let o=std::path::Path::new(&out).join(p.with_extension("rs").file_name().unwrap()); butte_build::compile_fbs_generic(true,None,Box::new(f),Box::new(std::fs::File::create(o).unwrap())).unwrap(); } } }
'''
def demo2(dir,b):
    use='schema' in b
    bb='butte-build = { path = "$repo/butte-build" }'
    open(dir+'/demo.sh','w').write(DEMO2%dict(extra=' and the code generated for schema.fbs' if use else '',build='build = "src/gen_build.rs"\n[build-dependencies]\n'+bb if use else '',deps='' if use else bb+'\nproc-macro2 = "1"\nquote = "1"' if b.get('rpc') else bb if not use else ''))
    if use:
        open(dir+'/gen_build.rs','w').write(BUILDRS)
        open(dir+'/schema.fbs','w').write(b['schema'])
        open(dir+'/main.rs','w').write('#[allow(warnings)] mod g { include!(concat!(env!("OUT_DIR"),"/schema.rs")); }\n'+b['main'])
    else:
        open(dir+'/main.rs','w').write(GENRS+b['main'])
def demo_files(dir,b):
    os.makedirs(dir,exist_ok=True)
    if 'schema' in b or b.get('gen'): demo2(dir,b)
    elif 'demo' in b:
        open(dir+'/demo.sh','w').write(b['demo'])
    else:
        deps=b.get('deps','')
        open(dir+'/demo.sh','w').write(DEMO%dict(deps=deps,flags=b.get('flags','')))
        open(dir+'/main.rs','w').write(b['main'])
    for n,c in b.get('files',{}).items(): open(dir+'/'+n,'w').write(c)
    os.chmod(dir+'/demo.sh',0o755)
def run(b,props=None):
    id=b['id']; dir='/verif/seeded/'+id
    assert not sh('git status --short').stdout.strip(), 'dirty'
    try:
        for f,o,n in b['edits']:
            s=open(R+'/'+f).read(); assert s.count(o)==1,(id,f,s.count(o),o); open(R+'/'+f,'w').write(s.replace(o,n))
        patch=sh('git diff').stdout
        mine=[]
        for f in {x[0] for x in b['edits']}:
            base=sh('git show 1802147:'+f).stdout.splitlines(); base={x.strip() for x in base}
            d=sh('git diff -U0 -- '+f).stdout.splitlines()
            mine+=[x for x in d if x.startswith('-') and not x.startswith('---') and x[1:].strip() not in base]
        if mine: print(id,'NOT ORIGINAL LINES',mine[:4])
        r=sh('bash /opt/vp/build.sh')
        if r.returncode: print(id,'BUILD FAILED',r.stdout[-1500:]); return
        sh('bash /opt/vp/test.sh /tmp/seed/out.json'); d=json.load(open('/tmp/seed/out.json'))
        if len(d['failed']) or len(d['passed'])<213: print(id,'TESTS FAIL',d['failed'][:5]); return
        demo_files('/tmp/seed/demo',b)
        r1=sh('timeout 280 bash /tmp/seed/demo/demo.sh')
        ps=props or [b['property']]+b.get('also',[])
        res=[]
        for p in ps:
            c=sh('python3 sa/check.py %s'%p,'/verif'); res.append((p,c.returncode,c.stdout))
    finally: sh('git checkout -- .')
    r0=sh('bash /opt/vp/build.sh; timeout 280 bash /tmp/seed/demo/demo.sh')
    ok=r1.returncode!=0 and r0.returncode==0
    print(id,b['property'],'demo bug=%d clean=%d'%(r1.returncode,r0.returncode),'OK' if ok else 'DEMO BAD '+r1.stdout[-400:]+'|'+r0.stdout[-800:],[(p,'CAUGHT' if c==1 and 'VIOLATION property='+p in o else 'missed' if c==0 else 'ERR%d'%c) for p,c,o in res],flush=True)
    for p,c,o in res:
        if '-v' in sys.argv or c not in(0,1): print('\n'.join(x[:250] for x in o.splitlines()[-25:]))
    if ok:
        shutil.rmtree(dir,ignore_errors=True); shutil.copytree('/tmp/seed/demo',dir); open(dir+'/patch.diff','w').write(patch)
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(dir+'/meta.json','w'),indent=1)
    shutil.rmtree('/tmp/seed/demo',ignore_errors=True)
if __name__=='__main__':
    spec=importlib.util.spec_from_file_location('bugs',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    sel=[x for x in sys.argv[2:] if not x.startswith('-')]
    for b in m.BUGS:
        if sel and b['id'] not in sel: continue
        run(b)
