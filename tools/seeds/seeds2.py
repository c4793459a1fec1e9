LRDEMO='''#!/bin/bash
# runs the functions of one training program in a package of its own
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/p"
cp "$repo/lr/PROG.go" "$d/p/main.go"
cp "$here/demo_test.go.txt" "$d/p/demo_test.go"
sed 's#^module .*#module demo#' "$repo/go.mod" > "$d/go.mod"
printf '\\nrequire mk-lr v0.0.0\\nreplace mk-lr => %s\\n' "$repo" >> "$d/go.mod"
cp "$repo/go.sum" "$d/go.sum"
cd "$d/p" && go test -vet=off -count=1 -run TestZZDemo .
'''
LRTEST='''package main

import (
	"math/cmplx"
	"testing"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

func TestZZDemo(t *testing.T) {
	logN, cols := LOGN, COLS
	cp, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: logN, LogSlots: logN - 1,
		LogQ: []int{55, 40, 40}, LogP: []int{55, 55}, Scale: 1 << 40, Sigma: rlwe.DefaultSigma})
	if err != nil {
		t.Fatal(err)
	}
	params := mkckks.NewParameters(cp)
	ids := mkrlwe.NewIDSet()
	ids.Add("company0")
	tc, err := genTestParams(params, ids)
	if err != nil {
		t.Fatal(err)
	}
	n := params.Slots()
	rows := n / cols
	msg, mask := mkckks.NewMessage(params), mkckks.NewMessage(params)
	for i := range msg.Value {
		msg.Value[i] = complex(float64(i%7)-3, float64(i%5)) / 100
		if i%cols == 0 {
			mask.Value[i] = 1
		}
	}
	ct := tc.encryptor.EncryptMsgNew(msg, tc.pkSet.GetPublicKey("company0"))
	pt := tc.encryptor.EncodeMsgNew(mask)
	r := tc.decryptor.Decrypt(SumRowVec(tc.evaluator, tc.rtkSet, ct, rows, cols), tc.skSet).Value
	c := tc.decryptor.Decrypt(SumColVec(tc.evaluator, tc.rlkSet, tc.rtkSet, ct, pt, rows, cols), tc.skSet).Value
	for i := 0; i < n; i++ {
		var wr, wc complex128
		for k := 0; k < rows; k++ {
			wr += msg.Value[k*cols+i%cols]
		}
		for k := 0; k < cols; k++ {
			wc += msg.Value[i-i%cols+k]
		}
		if cmplx.Abs(r[i]-wr) > 1e-2 || cmplx.Abs(c[i]-wc) > 1e-2 {
			t.Fatalf("slot %d: row sum %v, want %v; column sum %v, want %v", i, r[i], wr, c[i], wc)
		}
	}
}
'''
S(id='lr-wide-shortcut', prop='C15', needs='a matrix with at least as many columns as rows (and more than one row)',
  what='the column sum of lr_minibatch_toy skips masking and spreading for wide matrices, so slots get window sums that run into the next row',
  edits=[('lr/lr_minibatch_toy.go','	ctOut = eval.MulPtxtNew(ctOut, mask)\n','	if numCol >= numRow {\n		return\n	}\n	ctOut = eval.MulPtxtNew(ctOut, mask)\n')],
  sh=LRDEMO.replace('PROG','lr_minibatch_toy'), files={'demo_test.go.txt':LRTEST.replace('LOGN','6').replace('COLS','16')})
S(id='lr-top-rotation-key', prop='C15', needs='the ring degree of the programs and a row sum that needs the largest power-of-two rotation',
  what='genTestParams of lr_minibatch generates rotation keys for the powers of two below a quarter of the ring degree only, so row sums over all rows cannot be computed',
  edits=[('lr/lr_minibatch.go','	for i := 0; i < testContext.params.LogN()-1; i++ {','	for i := 0; 1<<i < testContext.params.Slots()/2; i++ {')],
  sh=LRDEMO.replace('PROG','lr_minibatch'), files={'demo_test.go.txt':LRTEST.replace('LOGN','7').replace('COLS','4')})
