#!/usr/bin/env python3
"""Author and verify planted bugs (development tool, no check uses it).
  plant.py make SPEC.py          SPEC defines SEEDS=[dict(id,prop,edits=[(file,old,new)],demo=C++ text | sh=script text,needs,breaks)]
  plant.py verify [ID...]        build, test, demo with and without the patch, in a scratch copy
  plant.py check [ID...]         run the property's quick check against the patched scratch copy
  plant.py quiet ID              comment line + no-op variants are left to vcheck"""
import glob, json, os, re, shutil, subprocess, sys, hashlib
V='/verif'; SCR='/tmp/plant'
DEMO_SH='''#!/bin/bash
# exit 0: the property holds; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 9
trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -O0 -w -DSPVGENTWO_ENABLE_OPERANDVALIDATION=1 -DSPVGENTWO_LOGGING=1 -DSPVGENTWO_REPLACE_PLACEMENTNEW=1 -DSPVGENTWO_REPLACE_TRAITS=1 \\
  -I"$PWD/lib/include" -I"$PWD/common/include" "$here/demo.cpp" "$PWD/_build/libSpvGenTwoCommon.a" "$PWD/_build/libSpvGenTwoLib.a" -o "$w/demo" || exit 9
cd "$w" && timeout 120 ./demo
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
def scratch(name):
    d=f'{SCR}/{name}/repo'
    if os.path.exists(f'{SCR}/base/repo') and name!='base':
        shutil.rmtree(f'{SCR}/{name}',ignore_errors=True); os.makedirs(f'{SCR}/{name}')
    else: shutil.rmtree(f'{SCR}/{name}',ignore_errors=True); os.makedirs(f'{SCR}/{name}')
    sh(f'git clone -q /repo {d}')
    for s in ('build.sh','test.sh'):
        t=open(f'/opt/vp/{s}').read().replace('/repo',d).replace(f'bash /opt/vp/build.sh',f'bash {SCR}/{name}/build.sh')
        open(f'{SCR}/{name}/{s}','w').write(t)
    return d
def rd(p): return open(p,newline='').read()
def base():
    head=sh('git -C /repo rev-parse HEAD').stdout.strip(); st=f'{SCR}/base/stamp'
    if os.path.exists(st) and open(st).read()==head: return f'{SCR}/base/repo'
    d=scratch('base'); r=sh(f'bash {SCR}/base/build.sh')
    assert r.returncode==0,r.stdout[-3000:]
    open(st,'w').write(head); return d
def make(spec):
    ns={}; exec(open(spec).read(),ns)
    for s in ns['SEEDS']:
        i=s['id']; d=scratch(i); ok=True
        for f,o,n in s['edits']:
            t=rd(f'{d}/{f}'); crlf='\r\n' in t
            if crlf: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
            if t.count(o)!=1: print(i,f'edit matches {t.count(o)} times in {f}:',o[:80]); ok=False; continue
            open(f'{d}/{f}','w',newline='').write(t.replace(o,n))
        if not ok: continue
        out=f'{V}/seeded/{i}'; os.makedirs(out,exist_ok=True)
        p=subprocess.run(['git','-C',d,'diff','--binary'],stdout=subprocess.PIPE).stdout; open(out+'/patch.diff','wb').write(p)
        if 'sh' in s: open(out+'/demo.sh','w').write(s['sh'])
        else: open(out+'/demo.sh','w').write(DEMO_SH)
        if 'demo' in s: open(out+'/demo.cpp','w').write(s['demo'])
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(out+'/meta.json','w'),indent=1)
        verify(i,keep=True)
        if s.get('check',True): check(i)
        shutil.rmtree(f'{SCR}/{i}',ignore_errors=True)
def verify(i,keep=False):
    b=base(); src=f'{V}/seeded/{i}'
    d=f'{SCR}/{i}/repo'
    d=scratch(i); r=sh(f'git -C {d} apply {src}/patch.diff')
    if r.returncode: print(i,'PATCH DOES NOT APPLY',r.stdout); return
    dm=f'{SCR}/{i}/demo'; shutil.copytree(src,dm,ignore=shutil.ignore_patterns('*.diff','meta.json'))
    r=sh(f'bash {SCR}/{i}/test.sh {SCR}/{i}/o.json')
    try: o=json.load(open(f'{SCR}/{i}/o.json'))
    except Exception: o={'passed':[]}
    bl=json.load(open('/opt/vp/BASELINE.json')); stable=bl['stable']
    miss=[t for t in stable if t not in o['passed']]
    r0=sh(f'bash {dm}/demo.sh',cwd=b); r1=sh(f'bash {dm}/demo.sh',cwd=d)
    good=not miss and r0.returncode==0 and r1.returncode not in (0,9)
    print(i,'OK' if good else 'BAD',f'tests missing: {miss[:4]} demo base {r0.returncode} patched {r1.returncode}')
    if not good: print(r.stdout[-1500:] if miss else '', r0.stdout[-1500:], r1.stdout[-1500:])
    if not keep: shutil.rmtree(f'{SCR}/{i}',ignore_errors=True)
def check(i,tier='quick'):
    src=f'{V}/seeded/{i}'; prop=json.load(open(src+'/meta.json'))['property']
    d=f'{SCR}/{i}/repo'
    if not os.path.exists(d): d=scratch(i); sh(f'git -C {d} apply {src}/patch.diff')
    r=sh(f'python3 {V}/check.py {prop} {tier}',env=dict(os.environ,SPVGENTWO_REPO=d))
    hit=f'VIOLATION property={prop}' in r.stdout and r.returncode==1
    print(i,prop,'CAUGHT' if hit else f'MISSED rc={r.returncode}', (re.search(r'signature: (.*)',r.stdout) or [0,''])[1] if hit else r.stdout[-800:])
    return hit
if __name__=='__main__':
    a=sys.argv
    if a[1]=='make': make(a[2])
    else:
        ids=a[2:] or sorted(os.listdir(V+'/seeded'))
        for i in ids:
            if a[1]=='verify': verify(i)
            else:
                check(i); shutil.rmtree(f'{SCR}/{i}',ignore_errors=True)
