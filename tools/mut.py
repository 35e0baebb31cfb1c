#!/usr/bin/env python3
"""Apply small source edits to a scratch copy of the repository and run checks on it.

usage: mut.py FILE.muts [-k substring] [-p PROPS] [-t]
A .muts file holds blocks:
  === name | expect
  file: MAPL_engine/check.go
  <<<
  old text
  >>>
  new text
  ---
expect is a comma-separated list of properties that must report a violation,
or "ok" (no check may report anything), optionally with "(notest)".
"""
import sys, os, re, subprocess, shutil, tempfile, concurrent.futures as cf
SRC = os.environ.get('MUT_REPO', '/repo')
BIN = os.environ.get('MAPL_BIN', '/verif/bin/mapl-static')
def parse(path):
    cur=None; out=[]
    lines=open(path).read().split('\n'); i=0
    while i<len(lines):
        l=lines[i]
        if l.startswith('=== '):
            name,_,exp=l[4:].partition('|')
            cur={'name':name.strip(),'exp':exp.strip(),'edits':[]}; out.append(cur); f=None
        elif l.startswith('file: '): f=l[6:].strip()
        elif l=='<<<':
            j=i+1; old=[]
            while lines[j]!='>>>': old.append(lines[j]); j+=1
            k=j+1; new=[]
            while lines[k]!='---': new.append(lines[k]); k+=1
            cur['edits'].append((f,'\n'.join(old),'\n'.join(new))); i=k
        i+=1
    return out
def run(m, props, test):
    d=tempfile.mkdtemp(prefix='mut')
    try:
        subprocess.run(['cp','-a']+[os.path.join(SRC,x) for x in ('MAPL_engine','go.mod','go.sum')]+[d],check=True)
        for f,o,n in m['edits']:
            p=os.path.join(d,f); s=open(p).read()
            if s.count(o)<1: return m,'NOMATCH '+o[:60],{}
            s=s.replace(o,n,1); open(p,'w').write(s)
        env=dict(os.environ,MAPL_REPO=d,MAPL_VERIF=os.path.join(d,'v'))
        os.makedirs(os.path.join(d,'v')); 
        if os.path.exists('/verif/known-findings.txt'): shutil.copy('/verif/known-findings.txt',os.path.join(d,'v'))
        genv=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off')
        b=subprocess.run(['go','build','./MAPL_engine'],cwd=d,env=genv,capture_output=True,text=True)
        if b.returncode: return m,'NOBUILD '+b.stderr[:300],{}
        t=''
        if test:
            p=os.path.join(d,'MAPL_engine/check_test.go'); s=open(p).read(); open(p,'w').write(s.replace('NumberOfChecks = 10000','NumberOfChecks = 1'))
            tr=subprocess.run(['go','test','-vet=off','-count=1','-v','./MAPL_engine'],cwd=d,env=genv,capture_output=True,text=True)
            fails=[x for x in re.findall(r'^\s*--- FAIL: (\S+)',tr.stdout,re.M) if x!='TestJsonUnmarhshal']
            t='TESTFAIL '+','.join(fails) if fails else 'tests-pass'
            if 'panic' in tr.stdout and not fails: t='TESTPANIC'
        res={}
        for pid in props:
            r=subprocess.run([BIN,'check',pid],env=env,capture_output=True,text=True,errors='replace',timeout=900)
            res[pid]=(r.returncode,r.stdout+r.stderr)
        return m,t,res
    finally:
        shutil.rmtree(d)
def main():
    a=sys.argv[1:]; files=[]; key=None; props=None; test=False; verbose=False; dis=False
    while a:
        x=a.pop(0)
        if x=='-k': key=a.pop(0)
        elif x=='-p': props=a.pop(0).split(',')
        elif x=='-t': test=True
        elif x=='-v': verbose=True
        else: files.append(x)
    if props is None:
        props=subprocess.run([BIN,'list'],capture_output=True,text=True).stdout.split()
    ms=[m for f in files for m in parse(f) if not key or key in m['name']]
    bad=0
    with cf.ThreadPoolExecutor(6) as ex:
        for m,t,res in ex.map(lambda m: run(m,props,test),ms):
            hit=[p for p in res if res[p][0]==1]; err=[p for p in res if res[p][0] not in (0,1)]
            exp=m['exp']
            if exp.startswith('ok'): good=not hit and not err and bool(res)
            else: good=any(p in hit for p in exp.split(','))
            if not good: bad+=1
            print(('ok  ' if good else 'BAD ')+m['name'],'expect',exp,'hit',','.join(hit),('ERR '+','.join(err)) if err else '',t,flush=True)
            if verbose or (not good and exp.startswith('ok')):
                for p in hit+err: print('     ',p,'\n       '.join(l[:300] for l in res[p][1].split('\n')[:4]))
    print(len(ms),'edits,',bad,'unexpected')
if __name__ == "__main__": main()
