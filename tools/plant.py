import sys,os,subprocess,json,importlib.util,shutil
WT='/tmp/wt'
def sh(cmd,**k): return subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main(modfile, only):
    spec=importlib.util.spec_from_file_location('b',modfile); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for b in m.BUGS:
        if only and b['id'] not in only: continue
        sh(f'git -C {WT} checkout -q -- . && git -C {WT} clean -fdq')
        ok=True
        for f,old,new in b['edits']:
            p=f'{WT}/{f}'; s=open(p).read()
            if s.count(old)!=1:
                print(b['id'],'EDIT COUNT',f,s.count(old)); ok=False; break
            open(p,'w').write(s.replace(old,new))
        if not ok: continue
        diff=sh(f'git -C {WT} diff').stdout
        base={}
        removed=[]; cur=None
        for l in diff.splitlines():
            if l.startswith('--- a/'): cur=l[6:]
            elif l.startswith('-') : removed.append((cur,l[1:]))
        orig=0
        for f,l in removed:
            if f not in base: base[f]=sh(f'git -C /repo show c7a906d:{f}').stdout.splitlines()
            orig+= l in base[f]
        env=dict(os.environ,PYTHONPATH=WT,PYTHONHASHSEED='0',PYTHONDONTWRITEBYTECODE='1',MPLBACKEND='Agg',TZ='UTC')
        t=sh(f'cd {WT} && /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -4; git checkout -q -- tests; rm -f out.nc',env=env).stdout
        passed='973 passed' in t and 'failed' not in t
        d=f'/tmp/plant/out/{b["id"]}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.py','w').write(b['demo'].lstrip('\n'))
        open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        e1=dict(env,PYTHONPATH='/repo'); 
        c=sh(f'cd /repo && timeout 200 bash {d}/demo.sh',env=e1); q=sh(f'cd {WT} && timeout 200 bash {d}/demo.sh',env=env)
        good=passed and c.returncode==0 and q.returncode!=0 and orig>0
        print(b['id'],'OK' if good else 'BAD','tests' if passed else 'TESTFAIL '+t[-300:],'clean',c.returncode,'patched',q.returncode,'orig',orig,len(removed))
        if c.returncode: print(c.stdout[-600:])
        print('   ',q.stdout.strip().splitlines()[-1:] )
        if good:
            if os.environ.get('NOCOPY'): continue
            shutil.rmtree(f'/verif/seeded/{b["id"]}',ignore_errors=True); shutil.copytree(d,f'/verif/seeded/{b["id"]}')
    sh(f'git -C {WT} checkout -q -- .')
main(sys.argv[1],sys.argv[2:])
