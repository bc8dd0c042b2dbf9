package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
)

func init() { commands["header"] = cmdHeader }

// aheadMs is how far ts lies ahead of now, kept within 32 bits
func aheadMs(ts int64, now time.Time) int {
	d := float64(ts) - float64(now.Unix())
	if d > 2e6 {
		return 2e9
	}
	if d < -2e6 {
		return -2e9
	}
	return int((ts-now.Unix())*1000) - now.Nanosecond()/1e6
}

func (h *hdr) facts(now time.Time) m {
	return m{"version": h.ver, "height": w64(h.height), "ahead": aheadMs(h.ts, now), "eb": h.eb,
		"scaling": w64(uint64(h.scaling)), "n": len(h.nonces), "cycle": h.cycle()}
}

func changeU(x uint64, bits uint, how string) uint64 {
	mask := uint64(1)<<bits - 1
	switch how {
	case "bit":
		x ^= 1 << uint(rng.Intn(int(bits)))
	case "inc":
		x++
	case "dec":
		x--
	case "zero":
		x = 0
	case "max":
		x = mask
	case "high":
		x ^= 1 << (bits - 1)
	}
	return x & mask
}

func changeB(b []byte, how string) {
	switch how {
	case "bit":
		b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
	case "inc":
		b[len(b)-1]++
	case "dec":
		b[0]--
	case "zero":
		copy(b, make([]byte, len(b)))
	case "max":
		copy(b, bytes.Repeat([]byte{255}, len(b)))
	case "high":
		b[rng.Intn(len(b))] ^= 0x80
	}
}

func (h *hdr) change(field, how string) *hdr {
	c := h.copy()
	switch field {
	case "version":
		c.ver = uint16(changeU(uint64(c.ver), 16, how))
	case "height":
		c.height = changeU(c.height, 64, how)
	case "timestamp":
		c.ts = int64(changeU(uint64(c.ts), 64, how))
	case "previous":
		changeB(c.prev, how)
	case "previousRoot":
		changeB(c.prevRoot, how)
	case "utxoRoot":
		changeB(c.utxo, how)
	case "rangeProofRoot":
		changeB(c.rproof, how)
	case "kernelRoot":
		changeB(c.kern, how)
	case "kernelOffset":
		changeB(c.offset, how)
	case "outputMmrSize":
		c.outMmr = changeU(c.outMmr, 64, how)
	case "kernelMmrSize":
		c.kernMmr = changeU(c.kernMmr, 64, how)
	case "totalDifficulty":
		c.td = changeU(c.td, 64, how)
	case "scaling":
		c.scaling = uint32(changeU(uint64(c.scaling), 32, how))
	case "nonce":
		c.nonce = changeU(c.nonce, 64, how)
	}
	return c
}

func (h *hdr) changeProof(how string) *hdr {
	c := h.copy()
	n := len(c.nonces)
	i := rng.Intn(n)
	switch how {
	case "drop":
		c.nonces = append(c.nonces[:i], c.nonces[i+1:]...)
	case "dropFirst":
		c.nonces = c.nonces[1:]
	case "append":
		c.nonces = append(c.nonces, c.nonces[n-1]+1+uint32(rng.Intn(100)))
	case "swap":
		j := (i + 1 + rng.Intn(n-1)) % n
		c.nonces[i], c.nonces[j] = c.nonces[j], c.nonces[i]
	case "dup":
		c.nonces = append(c.nonces, c.nonces[i])
		c.nonces = sorted(c.nonces)
	case "bump":
		c.nonces[i]++
	case "bumpLast":
		c.nonces[n-1]++
	case "highbit":
		c.nonces[i] ^= 1 << 31
	case "reverse":
		sort.Slice(c.nonces, func(i, j int) bool { return c.nonces[i] > c.nonces[j] })
	case "empty":
		c.nonces = nil
	case "ebUp":
		c.eb++
	case "ebDown":
		c.eb--
	case "eb0":
		c.eb = 0
	case "eb63":
		c.eb = 63
	case "eb64":
		c.eb = 64
	}
	return c
}

func goodHeaders() (good, bad []*hdr) {
	hs := headers()
	var names []string
	for k := range hs {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		h := hs[k]
		f := h.facts(time.Now())
		v := 0
		switch {
		case h.height < 95000:
			v = 1
		case h.height < 250000:
			v = 2
		case h.height < 500000:
			v = 3
		}
		if f["cycle"].(bool) && len(h.nonces) == 42 && int(h.ver) == v && (h.eb == 29 || h.eb > 29 && h.scaling == 1) && f["ahead"].(int) < 0 {
			good = append(good, h)
		} else {
			bad = append(bad, h)
		}
	}
	return
}

func cmdHeader() {
	var plan struct {
		Committed          [][2]string
		Proof, Uncommitted []string
		Lists              [][]bool
	}
	read(&plan)
	var recs, vers, lists []m
	validate := func(h *hdr, what string, tweak func(*consensus.BlockHeader)) {
		r := h.real()
		if tweak != nil {
			tweak(&r)
		}
		ok := false
		now := time.Now()
		crash := catch(func() { ok = r.Validate() == nil })
		rec := m{"name": h.name, "what": what, "h": h.facts(now), "ok": ok, "crash": crash, "bytes": fmt.Sprintf("%x", h.bytes())}
		recs = append(recs, rec)
		later(rec, func() interface{} { return r.Validate() == nil })
	}
	good, bad := goodHeaders()
	for _, h := range append(append([]*hdr{}, good...), bad...) {
		validate(h, "as mined", nil)
		reps := n(1, 6)
		for _, c := range plan.Committed {
			for i := 0; i < reps; i++ {
				validate(h.change(c[0], c[1]), c[0]+" "+c[1], nil)
			}
		}
		for _, c := range plan.Proof {
			for i := 0; i < reps; i++ {
				validate(h.changeProof(c), "proof "+c, nil)
			}
		}
		for _, c := range plan.Uncommitted {
			validate(h, "uncommitted "+c, func(r *consensus.BlockHeader) {
				switch c {
				case "difficulty":
					r.Difficulty = consensus.Difficulty(rng.Uint64())
				case "kernelSum":
					r.TotalKernelSum = make([]byte, 33)
				case "zone":
					r.Timestamp = r.Timestamp.In(time.FixedZone("x", 5*3600))
				case "nanos":
					r.Timestamp = r.Timestamp.Add(time.Duration(rng.Intn(1000000000)))
				}
			})
		}
		// read from its bytes instead of built
		var r consensus.BlockHeader
		if err := r.Read(bytes.NewReader(h.bytes())); err == nil {
			validate(h, "read", func(x *consensus.BlockHeader) { *x = r })
		}
	}
	// versions
	for _, base := range []uint64{0, 1, 95000, 250000, 500000, 750000, 1 << 31, 1 << 32, 1<<32 + 95000, 1<<32 + 250000, 1 << 63, math.MaxUint64} {
		for d := -3; d <= 3; d++ {
			vers = append(vers, version(base+uint64(d))...)
		}
	}
	for i := 0; i < n(200, 5000); i++ {
		vers = append(vers, version(rng.Uint64()>>uint(rng.Intn(64)))...)
		vers = append(vers, version(uint64(rng.Intn(600000)))...)
	}
	// lists
	ch := chain.New(&chain.Testnet4, nilStorage{})
	for _, l := range plan.Lists {
		for rep := 0; rep < n(1, 10); rep++ {
			var hs []consensus.BlockHeader
			fs := []m{}
			now := time.Now()
			var last *hdr
			for _, g := range l {
				h := good[rng.Intn(len(good))]
				if !g {
					if last != nil && rng.Intn(3) == 0 {
						// it names the one before it as its parent
						h = h.copy()
						h.prev = last.hash()
						if rng.Intn(2) == 0 {
							h.height = last.height + 1
						}
					} else if rng.Intn(3) == 0 && len(bad) > 0 {
						h = bad[rng.Intn(len(bad))]
					} else if c := plan.Committed[rng.Intn(len(plan.Committed))]; rng.Intn(2) == 0 {
						h = h.change(c[0], c[1])
					} else {
						h = h.changeProof(plan.Proof[rng.Intn(len(plan.Proof))])
					}
				}
				hs = append(hs, h.real())
				fs = append(fs, h.facts(now))
				last = h
			}
			ok := false
			crash := catch(func() { ok = ch.ProcessHeaders(hs) == nil })
			rec := m{"hs": fs, "ok": ok, "crash": crash, "wanted": l}
			lists = append(lists, rec)
			later(rec, func() interface{} { return ch.ProcessHeaders(hs) == nil })
		}
	}
	askAgain()
	acc := 0
	for _, r := range recs {
		if r["ok"].(bool) {
			acc++
		}
	}
	write(m{"headers": recs, "versions": vers, "lists": lists, "accepted": acc})
}

func version(height uint64) (r []m) {
	for _, v := range []uint16{0, 1, 2, 3, 4, 5, 255, 256, 257, 258, 259, 65535} {
		v := v
		ok := false
		crash := catch(func() { ok = consensus.ValidateBlockVersion(height, v) })
		r = append(r, m{"version": v, "height": w64(height), "ok": ok, "crash": crash})
	}
	return
}

// nilStorage knows no block
type nilStorage struct{}

func (nilStorage) AddBlock(*consensus.Block)                           {}
func (nilStorage) DelBlock(consensus.BlockID)                          {}
func (nilStorage) GetBlock(consensus.BlockID) *consensus.Block         { return nil }
func (nilStorage) GetLastBlock() *consensus.Block                      { return nil }
func (nilStorage) From(consensus.BlockID, int) (l consensus.BlockList) { return nil }
