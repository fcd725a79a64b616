#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes /verif/seeded/<id>/ from records B(id, prop, file, edits, pkg, test, needs, breaks) and confirms each in a scratch copy.

The scratch copy is /tmp/seedcopy (a git worktree-like clone of /repo HEAD, made anew)."""
import sys, os, subprocess, json
S='/tmp/seedcopy'
V='/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
sh('rm -r -f /tmp/seedcopy; git clone -q /repo /tmp/seedcopy')
only=set(sys.argv[2:])
DEMO='''#!/bin/bash
# Runs demo_test.go.txt as a test of package %(pkg)s (put there with an overlay; nothing is written in the repository).
D=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp)
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$D/demo_test.go.txt" > "$O"
timeout 250 go test -vet=off -count=1 -timeout 60s -overlay "$O" -run '^TestSeededDemo$' ./%(pkg)s
r=$?
unlink "$O"
exit $r
'''
def origin(S):
    '''Which removed lines are of the original repository.'''
    import re
    d=sh('git diff -U0',cwd=S).stdout
    f=None; good=bad=0
    for l in d.splitlines():
        if l.startswith('--- a/'): f=l[6:].strip()
        m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
        if m:
            a,n=int(m.group(1)),int(m.group(2) or 1)
            if n:
                for b in sh(f'git blame -s -L {a},{a+n-1} HEAD -- {f}',cwd=S).stdout.splitlines():
                    if b.startswith('^99d1e3a') or b.startswith('99d1e3a'): good+=1
                    else: bad+=1
    return good,bad
def B(id, prop, file, edits, pkg, test, needs, breaks):
    if only and id not in only: return
    d=f'{V}/{id}'
    os.makedirs(d, exist_ok=True)
    sh('git checkout -q -- .', cwd=S)
    files = file if isinstance(file, list) else [file]
    for (f, old, new) in [(e if len(e)==3 else (files[0],)+tuple(e)) for e in edits]:
        p=f'{S}/{f}'
        s=open(p,encoding='utf-8',errors='surrogateescape',newline='').read()
        crlf='\r\n' in s
        if crlf: s=s.replace('\r\n','\n')
        if s.count(old)!=1: print(id,'EDIT COUNT',s.count(old),repr(old)); return
        s=s.replace(old,new)
        if crlf: s=s.replace('\n','\r\n')
        open(p,'w',encoding='utf-8',errors='surrogateescape',newline='').write(s)
    diff=subprocess.run('git diff --binary',shell=True,cwd=S,stdout=subprocess.PIPE).stdout
    open(d+'/patch.diff','wb').write(diff)
    orig=origin(S)
    name=pkg.split('/')[-1]
    if not test.lstrip().startswith('package'):
        test='package %s\n\n%s'%(name,test)
    open(d+'/demo_test.go.txt','w').write(test.strip()+'\n')
    open(d+'/demo.sh','w').write(DEMO%dict(pkg=pkg)); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    r=sh('go build ./... && go vet ./core >/dev/null 2>&1; go test ./sip/parser ./core 2>&1 | tail -3; go test -json ./... > /tmp/seed_out.json',cwd=S)
    ok=set()
    for l in open('/tmp/seed_out.json'):
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Action')=='pass' and 'Test' in e: ok.add(e['Package']+'.'+e['Test']); ok.add(e['Package']+'/'+e['Test']); ok.add(e['Test'])
    base=json.load(open('/opt/vp/BASELINE.json'))['stable']
    miss=[t for t in base if t not in ok and t.split('::')[-1] not in ok and t.split('/')[-1] not in ok and t.split('.')[-1] not in ok]
    bd=sh('go build ./...',cwd=S)
    a=sh(d+'/demo.sh',cwd=S)
    sh('git checkout -q -- .',cwd=S)
    b=sh(d+'/demo.sh',cwd=S)
    good = bd.returncode==0 and not miss and a.returncode!=0 and b.returncode==0 and 'build failed' not in a.stdout
    print(id, 'OK' if good and orig[0] and not orig[1] else 'BAD', 'original lines',orig, 'build',bd.returncode,'missing',len(miss),'with patch',a.returncode,'without',b.returncode)
    if not good: print(bd.stdout[-500:], a.stdout[-600:], '----', b.stdout[-1500:], miss[:3])
exec(open(sys.argv[1]).read())
