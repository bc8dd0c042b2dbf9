package main

import (
	"bytes"
	"math/big"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/secp256k1zkp"
	"github.com/yoss22/bulletproofs"
	"golang.org/x/crypto/blake2b"
)

func init() { commands["body"] = cmdBody }

func b2(x ...[]byte) []byte {
	h := blake2b.Sum256(bytes.Join(x, nil))
	return h[:]
}

func inputBytes(i consensus.Input) []byte {
	return append([]byte{byte(i.Features)}, i.Commit...)
}
func outputHead(o consensus.Output) []byte {
	return append([]byte{byte(o.Features)}, o.Commit.Bytes()...)
}
func kernelBytes(k consensus.TxKernel) []byte {
	return bytes.Join([][]byte{{byte(k.Features)}, be(k.Fee, k.LockHeight), k.Excess.Bytes(), k.ExcessSig[:]}, nil)
}

// coin is a commitment with a valid range proof
type coin struct {
	commit *bulletproofs.Point
	proof  []byte
}

func scalar() *big.Int {
	b := make([]byte, 31)
	rng.Read(b)
	return new(big.Int).SetBytes(b)
}

func coins(k int) []coin {
	res := make([]coin, k)
	prover := bulletproofs.NewProver(64)
	var wg sync.WaitGroup
	for i := range res {
		v, g := new(big.Int).SetUint64(rng.Uint64()>>uint(rng.Intn(64))), scalar()
		var nonce [32]byte
		rng.Read(nonce[:])
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			c := secp256k1zkp.CommitValue(g, v)
			p, err := prover.CreateRangeProof(c, v, g, nonce, [16]byte{})
			fail(err)
			res[i] = coin{c, p.Bytes()}
		}(i)
	}
	wg.Wait()
	return res
}

func proofOf(b []byte) (p bulletproofs.BulletProof) {
	fail(p.Read(bytes.NewReader(b)))
	return
}

func (c coin) output(features byte) consensus.Output {
	p := *c.commit
	return consensus.Output{Features: consensus.OutputFeatures(features), Commit: &p, RangeProof: proofOf(c.proof)}
}

// breakProof makes the range proof invalid for its commitment
func breakProof(o *consensus.Output, pool []coin) string {
	switch rng.Intn(4) {
	case 0:
		for {
			c := pool[rng.Intn(len(pool))]
			if !bytes.Equal(c.commit.Bytes(), o.Commit.Bytes()) {
				o.RangeProof = proofOf(c.proof)
				return "proof of another output"
			}
		}
	default:
		b := o.RangeProof.Bytes()
		for {
			i := rng.Intn(len(b))
			if i != 64 && i != 353 && i != 354 { // bytes with unused bits
				b[i] ^= 1 << uint(rng.Intn(8))
				break
			}
		}
		o.RangeProof = proofOf(b)
		return "bit of the proof"
	}
}

func newKernel(features byte) (consensus.TxKernel, *big.Int) {
	x := scalar()
	k := consensus.TxKernel{Features: consensus.KernelFeatures(features), Fee: rng.Uint64() >> uint(rng.Intn(64)), LockHeight: rng.Uint64() >> uint(rng.Intn(64))}
	k.Excess = *bulletproofs.ScalarMulPoint(&secp256k1zkp.G, x)
	k.ExcessSig = secp256k1zkp.SignMessage(k.Excess, *x, secp256k1zkp.ComputeMessage(k.Fee, k.LockHeight)).Bytes()
	return k, x
}

// breakKernel makes the signature invalid for the kernel
func breakKernel(k *consensus.TxKernel) string {
	switch rng.Intn(6) {
	case 0:
		k.Fee ^= 1 << uint(rng.Intn(64))
		return "fee"
	case 1:
		k.LockHeight ^= 1 << uint(rng.Intn(64))
		return "lock height"
	case 2:
		o, _ := newKernel(0)
		k.Excess = o.Excess
		return "excess of another kernel"
	case 3:
		s := new(big.Int).SetBytes(k.ExcessSig[32:])
		s.Sub(btcec.S256().N, s)
		b := bulletproofs.GetB32(s)
		copy(k.ExcessSig[32:], b[:])
		return "negated s"
	case 4:
		o, _ := newKernel(0)
		k.ExcessSig = o.ExcessSig
		return "signature of another kernel"
	default:
		k.ExcessSig[rng.Intn(64)] ^= 1 << uint(rng.Intn(8))
		return "bit of the signature"
	}
}

type shape struct{ Ins, Outs, Kers [][3]interface{} }

func rank(e [3]interface{}) int { return int(e[0].(float64)) }

// realise picks elements whose hashes are in the wanted order
func realise(l [][3]interface{}, pick func(cb, ok bool) (interface{}, []byte)) ([]interface{}, [][]byte) {
	top := 0
	for _, e := range l {
		if rank(e) > top {
			top = rank(e)
		}
	}
retry:
	es, hs := make([]interface{}, top), make([][]byte, top)
	for r := 1; r <= top; r++ {
		cb, ok := false, true // a rank nobody has
		for _, e := range l {
			if rank(e) == r {
				cb, ok = e[1].(bool), e[2].(bool)
				break
			}
		}
		es[r-1], hs[r-1] = pick(cb, ok)
		for top > 3 && int(hs[r-1][0])*top/256 != r-1 {
			es[r-1], hs[r-1] = pick(cb, ok)
		}
		if r > 1 && bytes.Compare(hs[r-2], hs[r-1]) >= 0 {
			goto retry
		}
	}
	var a []interface{}
	var h [][]byte
	for _, e := range l {
		a, h = append(a, es[rank(e)-1]), append(h, hs[rank(e)-1])
	}
	return a, h
}

func feature(cb bool) byte {
	f := byte(0)
	if rng.Intn(6) == 0 {
		f = byte(rng.Intn(128)) << 1
	}
	if cb {
		f |= 1
	}
	return f
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func elems(l [][3]interface{}, hs [][]byte) []m {
	r := []m{}
	for i, e := range l {
		r = append(r, m{"hash": ints(hs[i]), "cb": e[1], "ok": e[2]})
	}
	return r
}

type bodyMaker struct {
	pool []coin
	good []*hdr
	bad  []*hdr
}

func newBodyMaker() *bodyMaker {
	g, b := goodHeaders()
	return &bodyMaker{coins(n(12, 24)), g, b}
}

// make builds a block of the wanted shape and says what TLC has to know of it
func (bm *bodyMaker) build(s shape, h *hdr) (*consensus.Block, m, []string) {
	b := &consensus.Block{Header: h.real()}
	notes := []string{}
	is, ih := realise(s.Ins, func(cb, ok bool) (interface{}, []byte) {
		c := make([]byte, 33)
		rng.Read(c)
		i := consensus.Input{Features: consensus.OutputFeatures(feature(rng.Intn(2) == 0)), Commit: c}
		return i, b2(inputBytes(i))
	})
	for _, x := range is {
		b.Inputs = append(b.Inputs, x.(consensus.Input))
	}
	os, oh := realise(s.Outs, func(cb, ok bool) (interface{}, []byte) {
		o := consensus.Output{Features: consensus.OutputFeatures(feature(cb))}
		c := bm.pool[rng.Intn(len(bm.pool))]
		o.Commit = c.commit
		return [2]interface{}{c, o.Features}, b2(outputHead(o))
	})
	for i, x := range os {
		p := x.([2]interface{})
		o := p[0].(coin).output(byte(p[1].(consensus.OutputFeatures)))
		if !s.Outs[i][2].(bool) {
			notes = append(notes, breakProof(&o, bm.pool))
		}
		b.Outputs = append(b.Outputs, o)
	}
	ks, kh := realise(s.Kers, func(cb, ok bool) (interface{}, []byte) {
		k, _ := newKernel(feature(cb))
		note := ""
		if !ok {
			note = breakKernel(&k)
		}
		return [2]interface{}{k, note}, b2(kernelBytes(k))
	})
	for _, x := range ks {
		p := x.([2]interface{})
		b.Kernels = append(b.Kernels, p[0].(consensus.TxKernel))
		if p[1].(string) != "" {
			notes = append(notes, p[1].(string))
		}
	}
	f := h.facts(time.Now())
	ok := f["cycle"].(bool) && isGood(h, bm.good)
	return b, m{"hdr": ok, "ins": elems(s.Ins, ih), "outs": elems(s.Outs, oh), "kers": elems(s.Kers, kh)}, notes
}

func isGood(h *hdr, good []*hdr) bool {
	for _, g := range good {
		if bytes.Equal(g.bytes(), h.bytes()) {
			return true
		}
	}
	return false
}

func cmdBody() {
	var shapes []shape
	read(&shapes)
	bm := newBodyMaker()
	type job struct {
		b *consensus.Block
		r m
	}
	var jobs []job
	add := func(s shape, h *hdr) {
		b, facts, notes := bm.build(s, h)
		jobs = append(jobs, job{b, m{"b": facts, "notes": notes, "header": h.name}})
	}
	for _, s := range shapes {
		for r := 0; r < n(2, 3); r++ {
			add(s, bm.good[rng.Intn(len(bm.good))])
		}
		if rng.Intn(n(6, 3)) == 0 {
			h := bm.good[rng.Intn(len(bm.good))].change([]string{"version", "nonce", "previous", "height"}[rng.Intn(4)], "inc")
			if len(bm.bad) > 0 && rng.Intn(2) == 0 {
				h = bm.bad[rng.Intn(len(bm.bad))]
			}
			add(s, h)
		}
	}
	// the real block
	rb := func() *consensus.Block {
		b := &consensus.Block{}
		fail(b.Read(bytes.NewReader(realBlock())))
		return b
	}
	facts := func(b *consensus.Block, okOut, okKer map[int]bool) m {
		f := m{"hdr": true}
		ins, outs, kers := []m{}, []m{}, []m{}
		for _, x := range b.Inputs {
			ins = append(ins, m{"hash": ints(b2(inputBytes(x))), "cb": false, "ok": true})
		}
		for i, x := range b.Outputs {
			outs = append(outs, m{"hash": ints(b2(outputHead(x))), "cb": x.Features&1 == 1, "ok": !okOut[i]})
		}
		for i, x := range b.Kernels {
			kers = append(kers, m{"hash": ints(b2(kernelBytes(x))), "cb": x.Features&1 == 1, "ok": !okKer[i]})
		}
		f["ins"], f["outs"], f["kers"] = ins, outs, kers
		return f
	}
	jobs = append(jobs, job{rb(), m{"b": facts(rb(), nil, nil), "notes": []string{"real block"}, "header": "real"}})
	for i := 0; i < n(20, 200); i++ {
		b := rb()
		if i%2 == 0 {
			j := rng.Intn(len(b.Outputs))
			note := breakProof(&b.Outputs[j], bm.pool)
			jobs = append(jobs, job{b, m{"b": facts(b, map[int]bool{j: true}, nil), "notes": []string{"real block", note}, "header": "real"}})
		} else {
			j := rng.Intn(len(b.Kernels))
			note := breakKernel(&b.Kernels[j])
			jobs = append(jobs, job{b, m{"b": facts(b, nil, map[int]bool{j: true}), "notes": []string{"real block", note}, "header": "real"}})
		}
	}
	recs := make([]m, len(jobs))
	parallel(len(jobs), func(i int) {
		ok := false
		crash := catchFor(2*time.Minute, func() { ok = jobs[i].b.Validate() == nil })
		jobs[i].r["ok"], jobs[i].r["crash"] = ok, crash
		recs[i] = jobs[i].r
	})
	for i, r := range recs {
		b := jobs[i].b
		if rng.Intn(n(4, 2)) == 0 {
			later(r, func() interface{} { return b.Validate() == nil })
		} else {
			r["later"] = []interface{}{}
		}
	}
	askAgain()
	write(recs)
}

func parallel(count int, f func(int)) {
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				f(i)
			}
		}()
	}
	for i := 0; i < count; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
}
