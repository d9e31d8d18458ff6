#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/<id>.py descriptions and confirms
each in a scratch copy of /repo: builds, stable tests pass, demo 0 before / != 0 after.

  seed.py [ids...]        (re)build and confirm
  seed.py --check [ids..] also run the property's check against the patched /repo
"""
import json, os, subprocess, sys, glob, shutil, difflib
V='/verif'; R='/repo'
DEMO='''#!/bin/bash
# Runs the test beside this script in the package of the repository in the
# current directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<J
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$here/demo_test.go"}}
J
DEMO_DIR="$tmp" go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' %(flags)s "./%(pkg)s"
'''
LOOP='''#!/bin/bash
# Runs the test beside this script in the package of the repository in the
# current directory, with a WebRTC stack that also uses the loopback interface.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r "$(go list -m -f '{{.Dir}}' github.com/pion/ice/v2)" "$tmp/ice"
chmod -R u+w "$tmp/ice"
sed -i 's/includeLoopback: config.IncludeLoopback,/includeLoopback: true,/' "$tmp/ice/agent.go"
cp go.mod go.sum "$tmp/"
go mod edit -replace "github.com/pion/ice/v2=$tmp/ice" "$tmp/go.mod"
cat > "$tmp/overlay.json" <<J
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$here/demo_test.go"}}
J
DEMO_DIR="$tmp" go test -mod=mod -modfile "$tmp/go.mod" -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' %(flags)s "./%(pkg)s"
'''
def load(i):
    ns={}
    ns['CLIENT']=open(f'{V}/tools/seedlib/client.go').read()
    exec(open(f'{V}/tools/seeds/{i}.py').read(),ns)
    return ns
def sh(cmd,**k): return subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main():
    args=sys.argv[1:]; check='--check' in args; args=[a for a in args if a!='--check']
    ids=args or sorted(os.path.basename(f)[:-3] for f in glob.glob(f'{V}/tools/seeds/*.py'))
    W='/tmp/seedwork'
    for i in ids:
        ns=load(i); d=f'{V}/seeded/{i}'; os.makedirs(d,exist_ok=True)
        diff=''
        new={}
        for f,reps in ns['edits'].items():
            s=open(f'{R}/{f}').read(); t=s
            for a,b in reps:
                if t.count(a)!=1: sys.exit(f'{i}: {t.count(a)} matches for {a!r}')
                t=t.replace(a,b)
            new[f]=t
            diff+=''.join(difflib.unified_diff(s.splitlines(1),t.splitlines(1),'a/'+f,'b/'+f))
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo_test.go','w').write(ns['demo'].lstrip())
        open(d+'/demo.sh','w').write((LOOP if ns.get('loopback') else DEMO)%dict(pkg=ns['pkg'],flags=ns.get('flags','')))
        os.chmod(d+'/demo.sh',0o755)
        json.dump(dict(property=ns['property'],needs=ns['needs'],what_it_breaks=ns['breaks']),open(d+'/meta.json','w'),indent=1)
        sh(f'rm -rf {W}; cp -a {R} {W}')
        r0=sh(f'bash {d}/demo.sh',cwd=W)
        a=sh(f'git apply {d}/patch.diff',cwd=W)
        b=sh('. /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files"',cwd=W)
        r1=sh(f'bash {d}/demo.sh',cwd=W)
        ok=r0.returncode==0 and a.returncode==0 and b.returncode==0 and 'FAIL' not in b.stdout and r1.returncode!=0
        line=f"{i} [{ns['property']}] {'OK' if ok else 'BAD'} demo {r0.returncode}->{r1.returncode}"
        if not ok: line+='\n'+'\n'.join(x.stdout[-1500:] for x in (r0,a,b,r1))
        elif 'build failed' in r1.stdout: line+=' DEMO BUILD FAILED\n'+r1.stdout[-800:]
        if check and ok:
            for p in [ns['property']]+ns.get('also',[]):
                c=sh(f'{V}/bin/gosym check -id {p} -repo {W}',cwd=V)
                v=[l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                line+=f"  {p}: rc={c.returncode} {v[0][:150] if v else 'MISSED'}"
        print(line,flush=True)
    sh(f'rm -rf {W}')
main()
