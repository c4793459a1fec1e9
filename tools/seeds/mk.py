#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from the seed descriptions in seeds*.py: applies the edit to a scratch copy of /repo,
checks that it builds, passes the stable tests, and that the demo fails with it and passes without it."""
import sys,os,subprocess,json,shutil,tempfile,glob
HERE=os.path.dirname(os.path.abspath(__file__))
ns={}
for f in sorted(glob.glob(HERE+'/seeds*.py')): exec(open(f).read(),ns)
SEEDS=ns['SEEDS']
sel=sys.argv[1:]
imports='''package mkckks_test

import (
	"math/big"
	"math/cmplx"
	"testing"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

var _ = cmplx.Abs
var _ = big.NewInt
var _ = ckks.NewEncoder
var _ = ring.NewPoly
var _ = rlwe.NewPlaintext
var _ = mkckks.NewEvaluator
var _ = mkrlwe.NewIDSet

'''
def sh(cmd,cwd=None,timeout=600):
    return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout)
def build_one(s):
    d='/verif/seeded/'+s['id']
    os.makedirs(d,exist_ok=True)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['what']},open(d+'/meta.json','w'),indent=1)
    if 'sh' in s:
        open(d+'/demo.sh','w').write(s['sh'])
        for n,t in s.get('files',{}).items(): open(d+'/'+n,'w').write(t)
    else:
        shutil.copy(HERE+'/demo.sh.txt',d+'/demo.sh')
        shutil.copy(HERE+'/common_demo.go.txt',d+'/common_demo.go.txt')
        open(d+'/demo_test.go.txt','w').write(imports+s['demo'])
    os.chmod(d+'/demo.sh',0o755)
    w='/tmp/seedwt'
    shutil.rmtree(w,ignore_errors=True)
    sh('git clone -q /repo '+w)
    r=sh('bash '+d+'/demo.sh',cwd=w)
    if r.returncode!=0: return 'DEMO FAILS ON CLEAN: '+(r.stdout+r.stderr)[-1500:]
    for (f,old,new) in s['edits']:
        p=w+'/'+f; t=open(p).read()
        n=s.get('count',1)
        if t.count(old)<1: return 'EDIT NOT FOUND '+f+': '+old
        if t.count(old)>1 and 'nth' not in s: return 'EDIT AMBIGUOUS %d '%t.count(old)+f+': '+old
        if 'nth' in s and t.count(old)>1:
            parts=t.split(old); k=s['nth']
            t=old.join(parts[:k+1])+new+old.join(parts[k+1:])
        else: t=t.replace(old,new)
        open(p,'w').write(t)
    open(d+'/patch.diff','w').write(sh('git diff',cwd=w).stdout)
    r=sh('. /opt/vp/env.sh; export GOFLAGS=-mod=mod; gofmt -l mkckks mkrlwe lr; go build ./mkckks ./mkrlwe && for f in lr/*.go; do go build -o /dev/null $f || exit 1; done',cwd=w)
    if r.returncode!=0: return 'BUILD: '+r.stdout+r.stderr
    r=sh('bash '+d+'/demo.sh',cwd=w)
    if r.returncode==0: return 'DEMO PASSES WITH BUG'
    out=(r.stdout+r.stderr)[:300].replace('\n',' | ')
    if 'build failed' in out: return 'DEMO BUILD: '+(r.stdout+r.stderr)[-800:]
    r=sh('. /opt/vp/env.sh; export GOFLAGS=-mod=mod; go test -vet=off -count=1 ./mkckks ./mkrlwe',cwd=w)
    if r.returncode!=0: return 'TESTS FAIL: '+(r.stdout+r.stderr)[-1200:]
    return 'ok  demo: '+out
for s in SEEDS:
    if sel and s['id'] not in sel: continue
    print(s['id'],build_one(s),flush=True)
shutil.rmtree('/tmp/seedwt',ignore_errors=True)
