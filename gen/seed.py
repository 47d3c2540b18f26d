#!/usr/bin/env python3
"""Plants a bug: reads a description file, makes the patch against /repo's HEAD,
checks that it builds, passes the stable tests, and that the demonstration
tells it from the unchanged tree; stores it under /verif/seeded/<id>/.

usage: seed.py FILE...   (description: see the END of each section marker)
#id, #property, #needs, #breaks one per line; then blocks
#edit FILE / old / ==== / new ; #demo ; go test source up to the end
"""
import sys, os, subprocess, re, shutil, json
REPO='/repo'
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def run(path):
    txt=open(path).read()
    meta={}; edits=[]; demo=None
    parts=re.split(r'^#(id|property|needs|breaks|edit|demo)[ \n]', txt, flags=re.M)
    it=iter(parts[1:])
    for k in it:
        v=next(it)
        if k=='edit':
            f,rest=v.split('\n',1); old,new=rest.split('\n====\n'); edits.append((f.strip(),old.strip('\n'),new.strip('\n')))
        elif k=='demo': demo=v
        else: meta[k]=v.strip()
    assert sh('git -C /repo status --porcelain').stdout.strip()=='' , 'repo dirty'
    d='/verif/seeded/'+meta['id']
    os.makedirs(d,exist_ok=True)
    open(d+'/demo.go.txt','w').write(demo)
    shutil.copy('/verif/gen/demo.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":meta['property'],"needs":meta['needs'],"what_it_breaks":meta['breaks']},open(d+'/meta.json','w'),indent=1)
    ok=True
    r=sh(d+'/demo.sh',cwd=REPO)
    if r.returncode!=0: print(meta['id'],'DEMO FAILS ON CLEAN',r.stdout[-1500:],r.stderr[-800:]); return False
    try:
        for f,o,n in edits:
            p=os.path.join(REPO,f); s=open(p).read()
            assert s.count(o)==1,(meta['id'],f,s.count(o),o)
            open(p,'w').write(s.replace(o,n))
        diff=sh('git -C /repo diff').stdout
        open(d+'/patch.diff','w').write(diff)
        r=sh('bash /opt/vp/build.sh')
        if r.returncode!=0: print(meta['id'],'BUILD FAILS',r.stderr); ok=False
        if ok:
            for k in range(2):
                sh('bash /opt/vp/test.sh /tmp/so.json')
                r=sh('python3 /tmp/stable.py /tmp/so.json')
                if r.returncode!=0: print(meta['id'],'TESTS FAIL',r.stdout); ok=False
        if ok:
            r=sh(d+'/demo.sh',cwd=REPO)
            if r.returncode==0: print(meta['id'],'DEMO PASSES WITH BUG'); ok=False
            elif 'build failed' in r.stdout: print(meta['id'],'DEMO DOES NOT BUILD',r.stdout,r.stderr); ok=False
            else: print(meta['id'],'ok:',[l for l in r.stdout.split('\n') if 'verif_demo' in l][:2])
    finally:
        sh('git -C /repo checkout -- .')
    if not ok: print('  (left in',d,')')
    return ok
for p in sys.argv[1:]: run(p)
