package main

import (
	"encoding/binary"
	"sort"

	"golang.org/x/crypto/blake2b"
)

// Independent implementation of the edge generators, used to find interesting
// graphs and to label the edges of a proof. spec/SipHash.tla is checked against
// it (and against the real code) on samples.

type sip [4]uint64

func rotl(x uint64, n uint) uint64 { return x<<n | x>>(64-n) }

func (s *sip) round() {
	v0, v1, v2, v3 := s[0], s[1], s[2], s[3]
	v0 += v1
	v2 += v3
	v1 = rotl(v1, 13)
	v3 = rotl(v3, 16)
	v1 ^= v0
	v3 ^= v2
	v0 = rotl(v0, 32)
	v2 += v1
	v0 += v3
	v1 = rotl(v1, 17)
	v3 = rotl(v3, 21)
	v1 ^= v2
	v3 ^= v0
	v2 = rotl(v2, 32)
	s[0], s[1], s[2], s[3] = v0, v1, v2, v3
}

func (s *sip) absorb(n uint64) {
	s[3] ^= n
	s.round()
	s.round()
	s[0] ^= n
	s[2] ^= 0xff
	for i := 0; i < 4; i++ {
		s.round()
	}
}

func (s *sip) digest() uint64 { return s[0] ^ s[1] ^ s[2] ^ s[3] }

func sip24(k [4]uint64, n uint64) uint64 {
	s := sip(k)
	s.absorb(n)
	return s.digest()
}

func sipBlock(k [4]uint64, n uint64) uint64 {
	s := sip(k)
	start := n - n%64
	var h uint64
	for i := uint64(0); i < 64; i++ {
		s.absorb(start + i)
		if start+i == n {
			h = s.digest()
		}
	}
	if n%64 == 63 {
		return h
	}
	return h ^ s.digest()
}

func keysOf(b []byte) (k [4]uint64) {
	h := blake2b.Sum256(b)
	for i := range k {
		k[i] = binary.LittleEndian.Uint64(h[8*i:])
	}
	return
}

type edge struct{ u, v uint64 }

func rooEdge(k [4]uint64, n, mask uint64) edge {
	e := sipBlock(k, n)
	return edge{e & mask, e >> 32 & mask}
}

func kooEdge(k [4]uint64, n, mask uint64) edge {
	return edge{(sip24(k, 2*n) & mask) << 1, (sip24(k, 2*n+1)&mask)<<1 | 1}
}

// powOK tells whether the edges form one simple cycle over ascending numbers in range
func powOK(k [4]uint64, eb uint, nonces []uint32) bool {
	mask := uint64(1)<<eb - 1
	var es []edge
	for i, x := range nonces {
		if uint64(x) > mask || i > 0 && x <= nonces[i-1] {
			return false
		}
		es = append(es, rooEdge(k, uint64(x), mask))
	}
	return oneCycle(es)
}

func oneCycle(es []edge) bool {
	if len(es) == 0 {
		return false
	}
	us, vs := map[uint64][]int{}, map[uint64][]int{}
	for i, e := range es {
		us[e.u] = append(us[e.u], i)
		vs[e.v] = append(vs[e.v], i)
	}
	for _, l := range us {
		if len(l) != 2 {
			return false
		}
	}
	for _, l := range vs {
		if len(l) != 2 {
			return false
		}
	}
	seen := map[int]bool{0: true}
	for q := []int{0}; len(q) > 0; q = q[1:] {
		for _, j := range append(us[es[q[0]].u], vs[es[q[0]].v]...) {
			if !seen[j] {
				seen[j] = true
				q = append(q, j)
			}
		}
	}
	return len(seen) == len(es)
}

// labels renames the vertices of one side by order of first appearance
func labels(x []uint64) []int {
	id := map[uint64]int{}
	r := make([]int, len(x))
	for i, v := range x {
		if _, ok := id[v]; !ok {
			id[v] = len(id) + 1
		}
		r[i] = id[v]
	}
	return r
}

func sorted(x []uint32) []uint32 {
	y := append([]uint32{}, x...)
	sort.Slice(y, func(i, j int) bool { return y[i] < y[j] })
	return y
}
