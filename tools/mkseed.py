#!/usr/bin/env python3
"""mkseed.py FILE.seeds [-k id]: writes and confirms planted bugs under /verif/seeded.

A block is
  === id | property
  needs: text
  breaks: text
  file: path
  <<<
  old
  >>>
  new
  ---
  test:
  go test file (package MAPL_engine, func TestDemo)
  endtest
Confirms in a scratch copy: builds, fast tests pass, demo exits 0 without and nonzero with the change.
"""
import sys, os, re, subprocess, shutil, tempfile, json, concurrent.futures as cf
DEMO='''#!/bin/bash
# Runs demo_test.go inside the package, in a scratch copy of the working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
d=$(mktemp -d /tmp/demoXXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
cp -a MAPL_engine go.mod go.sum files "$d/" || exit 2
cp "$here/demo_test.go.txt" "$d/MAPL_engine/zz_demo_test.go" || exit 2
cd "$d" && go test -vet=off -count=1 -run '^TestDemo$' ./MAPL_engine
'''
def parse(path):
    cur=None; out=[]; f=None
    lines=open(path).read().split('\n'); i=0
    while i<len(lines):
        l=lines[i]
        if l.startswith('=== '):
            n,_,p=l[4:].partition('|'); cur={'id':n.strip(),'prop':p.strip(),'edits':[],'test':''}; out.append(cur)
        elif l.startswith('needs: '): cur['needs']=l[7:]
        elif l.startswith('breaks: '): cur['breaks']=l[8:]
        elif l.startswith('file: '): f=l[6:].strip()
        elif l=='<<<':
            j=i+1; old=[]
            while lines[j]!='>>>': old.append(lines[j]); j+=1
            k=j+1; new=[]
            while lines[k]!='---': new.append(lines[k]); k+=1
            cur['edits'].append((f,'\n'.join(old),'\n'.join(new))); i=k
        elif l=='test:':
            j=i+1; t=[]
            while lines[j]!='endtest': t.append(lines[j]); j+=1
            cur['test']='\n'.join(t)+'\n'; i=j
        i+=1
    return out
def do(s):
    d=tempfile.mkdtemp(prefix='seed',dir='/tmp')
    try:
        subprocess.run(['git','clone','-q','/repo',d+'/r'],check=True); r=d+'/r'
        sd=d+'/s'; os.makedirs(sd)
        open(sd+'/demo.sh','w').write(DEMO); os.chmod(sd+'/demo.sh',0o755)
        open(sd+'/demo_test.go.txt','w').write(s['test'])
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(sd+'/meta.json','w'),indent=1)
        a=subprocess.run(['bash',sd+'/demo.sh'],cwd=r,capture_output=True,text=True,errors='replace')
        if a.returncode: return s,'DEMO FAILS UNCHANGED '+a.stdout[-1500:]+a.stderr[-500:]
        for f,o,n in s['edits']:
            p=os.path.join(r,f); t=open(p).read()
            if o not in t: return s,'NOMATCH '+o[:80]
            open(p,'w').write(t.replace(o,n,1))
        env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off')
        b=subprocess.run(['go','build','./MAPL_engine'],cwd=r,env=env,capture_output=True,text=True)
        if b.returncode: return s,'NOBUILD '+b.stderr[:400]
        open(sd+'/patch.diff','w').write(subprocess.run(['git','diff'],cwd=r,capture_output=True,text=True).stdout)
        b=subprocess.run(['bash',sd+'/demo.sh'],cwd=r,capture_output=True,text=True,errors='replace')
        if b.returncode==0: return s,'DEMO DOES NOT FAIL'
        dem=[l for l in b.stdout.split('\n') if 'demo_test' in l or 'panic:' in l][:2]
        if 'build failed' in b.stdout: return s,'DEMO BUILD '+b.stdout
        p=r+'/MAPL_engine/check_test.go'; t=open(p).read(); open(p,'w').write(t.replace('NumberOfChecks = 10000','NumberOfChecks = 1'))
        tr=subprocess.run(['go','test','-vet=off','-count=1','-v','./MAPL_engine'],cwd=r,env=env,capture_output=True,text=True,errors='replace')
        fails=[x for x in re.findall(r'^\s*--- FAIL: (\S+)',tr.stdout,re.M) if x!='TestJsonUnmarhshal']
        if fails or tr.stdout.count('--- PASS')<29: return s,'TESTFAIL '+','.join(fails)+tr.stdout[-300:]
        dst='/verif/seeded/'+s['id']
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(sd,dst)
        return s,'ok '+' / '.join(dem)
    finally: shutil.rmtree(d)
def main():
    a=sys.argv[1:]; key=None
    if '-k' in a: i=a.index('-k'); key=a[i+1]; del a[i:i+2]
    ss=[s for f in a for s in parse(f) if not key or key in s['id']]
    with cf.ThreadPoolExecutor(4) as ex:
        for s,m in ex.map(do,ss): print(s['id'],s['prop'],m,flush=True)
main()
