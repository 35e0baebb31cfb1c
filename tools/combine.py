#!/usr/bin/env python3
"""combine.py N FILE.muts...: runs all checks on N trees that together hold all
the behaviour-preserving edits of the files, several per tree. None may report."""
import sys, os, subprocess, tempfile, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mut
def main():
    n=int(sys.argv[1]); ms=[m for f in sys.argv[2:] for m in mut.parse(f) if m['exp'].startswith('ok')]
    genv=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off')
    trees=[]; left=[]
    for _ in range(n):
        d=tempfile.mkdtemp(prefix='comb'); trees.append((d,[]))
        subprocess.run(['cp','-a']+[os.path.join(mut.SRC,x) for x in ('MAPL_engine','go.mod','go.sum')]+[d],check=True)
        os.makedirs(os.path.join(d,'v','evidence'))
    try:
        for k,m in enumerate(ms):
            for i in range(n):
                d,names=trees[(k+i)%n]
                saved={f:open(os.path.join(d,f)).read() for f,_,_ in m['edits']}
                ok=True
                for f,o,w in m['edits']:
                    p=os.path.join(d,f); s=open(p).read()
                    if s.count(o)<1: ok=False; break
                    open(p,'w').write(s.replace(o,w,1))
                if ok: ok=subprocess.run(['go','build','./MAPL_engine'],cwd=d,env=genv,capture_output=True).returncode==0
                if ok: names.append(m['name']); break
                for f,s in saved.items(): open(os.path.join(d,f),'w').write(s)
            else: left.append(m['name'])
        print('not placed:',left); sys.stdout.flush()
        props=os.environ.get('PROPS','').split() or subprocess.run([mut.BIN,'list'],capture_output=True,text=True).stdout.split()
        def one(x):
            i,p=x; d=trees[i][0]
            try:
                r=subprocess.run([mut.BIN,'check',p],env=dict(os.environ,MAPL_REPO=d,MAPL_VERIF=os.path.join(d,'v')),capture_output=True,text=True,errors='replace',timeout=900)
                return i,p,r.returncode,r.stdout
            except subprocess.TimeoutExpired: return i,p,99,'timeout'
        with cf.ThreadPoolExecutor(int(os.environ.get('J','5'))) as ex:
            for i,p,rc,out in ex.map(one,[(i,p) for i in range(n) for p in props]):
                if rc: print('tree',i,p,rc,'\n'.join(l[:260] for l in out.split('\n')[:4])); sys.stdout.flush()
        for i,(d,names) in enumerate(trees): print('tree',i,len(names),names)
    finally:
        for d,_ in trees: shutil.rmtree(d)
main()
