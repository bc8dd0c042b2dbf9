package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"io/ioutil"
	"math/big"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"golang.org/x/crypto/blake2b"
)

// hdr is the harness's own notion of a block header
type hdr struct {
	name                       string
	ver                        uint16
	height                     uint64
	ts                         int64
	prev, prevRoot             []byte
	utxo, rproof, kern, offset []byte
	outMmr, kernMmr, td        uint64
	scaling                    uint32
	nonce                      uint64
	eb                         uint8
	nonces                     []uint32
}

func be(v ...interface{}) []byte {
	b := new(bytes.Buffer)
	for _, x := range v {
		fail(binary.Write(b, binary.BigEndian, x))
	}
	return b.Bytes()
}

func (h *hdr) pre() []byte {
	return be(h.ver, h.height, h.ts, h.prev, h.prevRoot, h.utxo, h.rproof, h.kern, h.offset, h.outMmr, h.kernMmr, h.td, h.scaling, h.nonce)
}

func pack(eb uint8, nonces []uint32) []byte {
	b := make([]byte, (42*int(eb)+7)/8)
	for i, x := range nonces {
		for k := 0; k < int(eb) && k < 32; k++ {
			if o := i*int(eb) + k; x>>uint(k)&1 == 1 && o/8 < len(b) {
				b[o/8] |= 1 << uint(o%8)
			}
		}
	}
	return b
}

func (h *hdr) bytes() []byte { return append(append(h.pre(), h.eb), pack(h.eb, h.nonces)...) }

func (h *hdr) hash() []byte {
	x := blake2b.Sum256(pack(h.eb, h.nonces))
	return x[:]
}

// work of the proof: the maximal target over the first word of its hash
func (h *hdr) work() uint64 {
	x := blake2b.Sum256(append([]byte{h.eb}, pack(h.eb, h.nonces)...))
	return 0x0fffffffffffffff / binary.BigEndian.Uint64(x[:8])
}

// cycle tells whether the proof is one simple cycle (of whatever length)
func (h *hdr) cycle() bool { return powOK(keysOf(h.pre()), uint(h.eb), h.nonces) }

func (h *hdr) copy() *hdr {
	c := *h
	for _, f := range []*[]byte{&c.prev, &c.prevRoot, &c.utxo, &c.rproof, &c.kern, &c.offset} {
		*f = append([]byte{}, *f...)
	}
	c.nonces = append([]uint32{}, h.nonces...)
	return &c
}

func (h *hdr) real() consensus.BlockHeader {
	c := h.copy()
	return consensus.BlockHeader{
		Version: c.ver, Height: c.height, Timestamp: time.Unix(c.ts, 0).UTC(),
		Previous: c.prev, PreviousRoot: c.prevRoot, UTXORoot: c.utxo, RangeProofRoot: c.rproof, KernelRoot: c.kern,
		TotalKernelOffset: c.offset, OutputMmrSize: c.outMmr, KernelMmrSize: c.kernMmr,
		TotalDifficulty: consensus.Difficulty(c.td), ScalingDifficulty: c.scaling, Nonce: c.nonce,
		POW: consensus.Proof{EdgeBits: c.eb, Nonces: c.nonces},
	}
}

func parseHdr(b []byte) (*hdr, []byte) {
	r := bytes.NewReader(b)
	h := &hdr{}
	get := func(v interface{}) { fail(binary.Read(r, binary.BigEndian, v)) }
	get32 := func() []byte {
		x := make([]byte, 32)
		get(x)
		return x
	}
	get(&h.ver)
	get(&h.height)
	get(&h.ts)
	h.prev, h.prevRoot, h.utxo, h.rproof, h.kern, h.offset = get32(), get32(), get32(), get32(), get32(), get32()
	get(&h.outMmr)
	get(&h.kernMmr)
	get(&h.td)
	get(&h.scaling)
	get(&h.nonce)
	if r.Len() > 0 {
		get(&h.eb)
		p := make([]byte, (42*int(h.eb)+7)/8)
		get(p)
		n := new(big.Int)
		for i := range p { // least significant first
			n.Or(n, new(big.Int).Lsh(big.NewInt(int64(p[i])), uint(8*i)))
		}
		for i := 0; i < 42; i++ {
			x := new(big.Int).Rsh(n, uint(i)*uint(h.eb))
			h.nonces = append(h.nonces, uint32(x.Uint64()&(1<<h.eb-1)))
		}
	}
	return h, b[len(b)-r.Len():]
}

// headers loads the headers mined beforehand, and the real one the repository's tests know
func headers() map[string]*hdr {
	res := map[string]*hdr{}
	b, err := ioutil.ReadFile(filepath.Join(*fix, "headers.jsonl"))
	fail(err)
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		var j struct {
			Name, Pre string
			Eb        uint8
			Nonces    []uint32
		}
		fail(json.Unmarshal([]byte(l), &j))
		p, err := hex.DecodeString(j.Pre)
		fail(err)
		h, _ := parseHdr(p)
		h.name, h.eb, h.nonces = j.Name, j.Eb, j.Nonces
		res[j.Name] = h
	}
	h, _ := parseHdr(realBlock())
	h.name = "real65927"
	res[h.name] = h
	return res
}

func realBlock() []byte {
	b, err := ioutil.ReadFile(filepath.Join(*fix, "block65927.hex"))
	fail(err)
	x, err := hex.DecodeString(strings.TrimSpace(string(b)))
	fail(err)
	return x
}

// wholeHeaders are the ones with a proof of the size that has a place on the wire
func wholeHeaders() []*hdr {
	l := []*hdr{}
	for _, h := range headers() {
		if len(h.nonces) == 42 {
			l = append(l, h)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
	return l
}
