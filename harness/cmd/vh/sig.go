package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"math/big"
	"os"

	"github.com/btcsuite/btcd/btcec"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/secp256k1zkp"
	"github.com/yoss22/bulletproofs"
)

func init() { commands["sig"] = cmdSig }

// signed is a signature and what it was made for
type signed struct {
	x         *big.Int
	p         bulletproofs.Point
	fee, lock uint64
	sig       secp256k1zkp.Signature
	bytes     [64]byte
}

var curveN = btcec.S256().N
var curveP = btcec.S256().P

func base(k *big.Int) bulletproofs.Point {
	x, y := btcec.S256().ScalarBaseMult(new(big.Int).Mod(k, curveN).Bytes())
	return bulletproofs.Point{X: x, Y: y}
}

func plus(a, b bulletproofs.Point) bulletproofs.Point {
	x, y := btcec.S256().Add(a.X, a.Y, b.X, b.Y)
	return bulletproofs.Point{X: x, Y: y}
}

func minus(a bulletproofs.Point) bulletproofs.Point {
	return bulletproofs.Point{X: new(big.Int).Set(a.X), Y: new(big.Int).Sub(curveP, a.Y)}
}

func num32(x *big.Int) []byte {
	b := make([]byte, 32)
	new(big.Int).Mod(x, new(big.Int).Lsh(big.NewInt(1), 256)).FillBytes(b)
	return b
}

func pointBytes(p bulletproofs.Point) []byte { return append(num32(p.X), num32(p.Y)...) }

func challenge(rx []byte, p bulletproofs.Point, fee, lock uint64) *big.Int {
	h := sha256.New()
	h.Write(rx)
	h.Write([]byte{2 + byte(p.Y.Bit(0))})
	h.Write(num32(p.X))
	h.Write(make([]byte, 16))
	h.Write(be(fee, lock))
	return new(big.Int).SetBytes(h.Sum(nil))
}

func edgeWord() uint64 {
	switch rng.Intn(6) {
	case 0:
		return 0
	case 1:
		return 1<<64 - 1
	case 2:
		return 1 << uint(rng.Intn(64))
	}
	return rng.Uint64() >> uint(rng.Intn(64))
}

// secret is private key number i, and what it is to sign for
func secret(i int) signed {
	one := big.NewInt(1)
	x := scalar()
	switch i {
	case 0:
		x = one
	case 1:
		x = new(big.Int).Sub(curveN, one)
	case 2:
		x = big.NewInt(2)
	case 3:
		x = new(big.Int).Sub(curveN, big.NewInt(2))
	case 5, 6, 7: // short x coordinates
		for num32(base(x).X)[0] != 0 {
			x = scalar()
		}
	}
	s := signed{x: x, p: base(x), fee: edgeWord(), lock: edgeWord()}
	if i == 4 {
		s.lock = s.fee
	}
	return s
}

func (s *signed) sign() {
	s.sig = secp256k1zkp.SignMessage(s.p, *s.x, secp256k1zkp.ComputeMessage(s.fee, s.lock))
	s.bytes = [64]byte{}
	copy(s.bytes[:], append(num32(s.sig.R.X), num32(&s.sig.S)...))
}

type sigOp struct {
	What, How string
	N         int
}

// ask is what is put to the verifier
type ask struct {
	p         bulletproofs.Point
	fee, lock uint64
	sig       [64]byte
	mem       *secp256k1zkp.Signature // instead of the bytes
}

func (s signed) apply(op sigOp, o signed) (a ask, ok bool) {
	a = ask{p: s.p, fee: s.fee, lock: s.lock, sig: s.bytes}
	r, sc := new(big.Int).SetBytes(s.bytes[:32]), new(big.Int).SetBytes(s.bytes[32:])
	one := big.NewInt(1)
	ok = true
	put := func(v *big.Int, at int) {
		if v.Sign() < 0 || v.BitLen() > 256 {
			ok = false
			return
		}
		v.FillBytes(a.sig[at : at+32])
	}
	half := func(v *big.Int, at int) {
		m := curveN
		if at == 0 {
			m = curveP
		}
		w := new(big.Int).Set(v)
		switch op.How {
		case "bit":
			w.SetBit(w, op.N, w.Bit(op.N)^1)
		case "neg":
			w.Sub(m, w)
		case "zero":
			w.SetInt64(0)
		case "one":
			w.SetInt64(1)
		case "n-1":
			w.Sub(curveN, one)
		case "n":
			w.Set(curveN)
		case "p":
			w.Set(curveP)
		case "max":
			w.Sub(w.Lsh(one, 256), one)
		case "inc":
			w.Mod(w.Add(w, one), m)
		case "dec":
			w.Mod(w.Sub(w, one), m)
		case "double":
			if at == 0 {
				d := plus(s.sig.R, s.sig.R)
				w.Set(d.X)
			} else {
				w.Mod(w.Lsh(w, 1), m)
			}
		case "half":
			w.Mod(w.Mul(w, new(big.Int).ModInverse(big.NewInt(2), m)), m)
		case "random":
			w.Set(scalar())
		case "other":
			w.SetBytes(o.bytes[at : at+32])
		case "generator":
			w.Set(btcec.S256().Gx)
		case "key":
			w.Set(s.p.X)
		default:
			panic("how " + op.How)
		}
		put(w, at)
	}
	word := func(v uint64) uint64 {
		switch op.How {
		case "bit":
			return v ^ 1<<uint(op.N)
		case "zero":
			return 0
		case "max":
			return 1<<64 - 1
		case "inc":
			return v + 1
		case "dec":
			return v - 1
		case "neg":
			return -v
		}
		panic("how " + op.How)
	}
	shift := func(by bulletproofs.Point, d *big.Int) { // R + D and s + d
		q := plus(s.sig.R, by)
		put(new(big.Int).Set(q.X), 0)
		put(new(big.Int).Mod(new(big.Int).Add(sc, d), curveN), 32)
	}
	switch op.What {
	case "none":
	case "s":
		half(sc, 32)
	case "r":
		half(r, 0)
	case "fee":
		a.fee = word(a.fee)
	case "lock":
		a.lock = word(a.lock)
	case "msg":
		switch op.How {
		case "swap":
			a.fee, a.lock = a.lock, a.fee
		case "move":
			a.fee, a.lock = a.fee+1, a.lock-1
		case "zero":
			a.fee, a.lock = 0, 0
		}
	case "sig":
		switch op.How {
		case "swap":
			copy(a.sig[:32], s.bytes[32:])
			copy(a.sig[32:], s.bytes[:32])
		case "reverse":
			for i := range a.sig {
				a.sig[i] = s.bytes[63-i]
			}
		case "endian":
			for i := range a.sig {
				a.sig[i] = s.bytes[i/32*32+31-i%32]
			}
		case "zero":
			a.sig = [64]byte{}
		case "max":
			copy(a.sig[:], bytes.Repeat([]byte{255}, 64))
		case "other":
			a.sig = o.bytes
		case "shiftNonce":
			shift(base(one), one)
		case "shiftNonceBack":
			shift(minus(base(one)), big.NewInt(-1))
		}
	case "key":
		e := challenge(s.bytes[:32], s.p, s.fee, s.lock)
		switch op.How {
		case "neg":
			a.p = minus(s.p)
		case "negAll": // and the scalar
			a.p = minus(s.p)
			put(new(big.Int).Sub(curveN, sc), 32)
		case "double":
			a.p = plus(s.p, s.p)
		case "other":
			a.p = o.p
		case "generator":
			a.p = base(one)
		case "inc":
			a.p = plus(s.p, base(one))
		case "shift": // as if the challenge did not cover the key
			a.p = plus(s.p, base(one))
			put(new(big.Int).Mod(new(big.Int).Add(sc, e), curveN), 32)
		case "shiftBack":
			a.p = plus(s.p, minus(base(one)))
			put(new(big.Int).Mod(new(big.Int).Sub(sc, e), curveN), 32)
		}
		if a.p.X.Sign() == 0 && a.p.Y.Sign() == 0 {
			ok = false
		}
	case "mem":
		m := secp256k1zkp.Signature{R: s.sig.R, S: *new(big.Int).Set(sc)}
		switch op.How {
		case "addN":
			m.S.Add(sc, curveN)
		case "add2N":
			m.S.Add(sc, new(big.Int).Lsh(curveN, 1))
		case "subN":
			m.S.Sub(sc, curveN)
		case "negS":
			m.S.Neg(sc)
		case "negR":
			m.R = minus(s.sig.R)
		case "negRS":
			m.R = minus(s.sig.R)
			m.S.Sub(curveN, sc)
		}
		a.mem = &m
	default:
		panic("what " + op.What)
	}
	return
}

func (s signed) judge(op sigOp, a ask, full bool) m {
	rec := m{"op": op.What + "-" + op.How, "n": op.N, "key": ints(pointBytes(s.p)), "fee": ints(be(s.fee)), "lock": ints(be(s.lock)), "sig": ints(s.bytes[:]),
		"askKey": ints(pointBytes(a.p)), "askFee": ints(be(a.fee)), "askLock": ints(be(a.lock)), "askSig": ints(a.sig[:]), "mem": a.mem != nil, "full": full && a.mem == nil}
	oks := []bool{}
	msg := secp256k1zkp.ComputeMessage(a.fee, a.lock)
	rec["msg"] = ints(msg[:])
	rec["crash"] = catch(func() {
		if a.mem != nil {
			oks = append(oks, secp256k1zkp.VerifySignature(a.p, msg, *a.mem))
			return
		}
		if op.What == "none" {
			oks = append(oks, secp256k1zkp.VerifySignature(s.p, msg, s.sig))
			oks = append(oks, s.sig.Bytes() == s.bytes)
		}
		oks = append(oks, secp256k1zkp.VerifySignature(a.p, msg, secp256k1zkp.DecodeSignature(a.sig)))
		again := secp256k1zkp.DecodeSignature(a.sig).Bytes()
		oks = append(oks, secp256k1zkp.VerifySignature(a.p, msg, secp256k1zkp.DecodeSignature(again)))
		k := consensus.TxKernel{Features: consensus.KernelFeatures(a.sig[5] & 1), Excess: a.p, ExcessSig: a.sig, Fee: a.fee, LockHeight: a.lock}
		oks = append(oks, k.Validate() == nil)
		// the kernel as it comes from the wire
		var k2 consensus.TxKernel
		if err := k2.Read(bytes.NewReader(kernelBytes(k))); err == nil {
			oks = append(oks, k2.Validate() == nil)
		}
	})
	rec["ok"] = oks
	return rec
}

func cmdSig() {
	b, err := os.ReadFile(*in)
	fail(err)
	var ops []sigOp
	fail(json.Unmarshal(b, &ops))
	type job struct {
		s    signed
		op   sigOp
		a    ask
		full bool
	}
	var jobs []job
	honest := n(600, 6000)
	all := n(6, 40)
	fulls := map[string]bool{}
	budget := n(24, 350)
	var pool []signed
	for i := 0; i < honest; i++ {
		pool = append(pool, secret(i))
	}
	parallel(honest, func(i int) {
		pool[i].sign()
		for k := 0; k < 5000; k++ { // short numbers in the signature
			if i%50 == 10 && pool[i].bytes[0] != 0 || i%50 == 11 && pool[i].bytes[32] != 0 {
				pool[i].sign()
			}
		}
	})
	none := sigOp{What: "none", How: "none"}
	for i, s := range pool {
		a, _ := s.apply(none, s)
		full := i < n(8, 80)
		jobs = append(jobs, job{s, none, a, full})
	}
	rest := append([]sigOp{}, ops...)
	rng.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	for i := 0; i < all; i++ {
		s, o := pool[rng.Intn(honest)], pool[rng.Intn(honest)]
		if i < 5 {
			s = pool[i]
		}
		for _, op := range rest {
			a, ok := s.apply(op, o)
			if !ok {
				continue
			}
			kind := op.What + op.How
			full := budget > 0 && a.mem == nil && op.What != "none" && (!fulls[kind] || rng.Intn(20) == 0) && rng.Intn(3) == 0
			if full {
				fulls[kind] = true
				budget--
			}
			jobs = append(jobs, job{s, op, a, full})
		}
	}
	res := make([]m, len(jobs))
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		res[i] = j.s.judge(j.op, j.a, j.full)
	})
	for i, r := range res {
		a := jobs[i].a
		later(r, func() interface{} {
			s := secp256k1zkp.DecodeSignature(a.sig)
			if a.mem != nil {
				s = *a.mem
			}
			return secp256k1zkp.VerifySignature(a.p, secp256k1zkp.ComputeMessage(a.fee, a.lock), s)
		})
	}
	askAgain()
	write(res)
}
