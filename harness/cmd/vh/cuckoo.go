package main

import (
	"fmt"
	"time"

	"github.com/dblokhin/gringo/cuckoo"
)

func init() { commands["cuckoo"] = cmdCuckoo }

// graph is a real cuckoo/cuckaroo graph with a verifier of the code under test
type graph struct {
	kind  string
	limit uint64 // edge numbers below it are in range
	edge  func(uint32) edge
	ver   func([]uint32) bool
	fresh func([]uint32) bool // by a verifier of its own
}

func newGraph(kind string, bits uint) graph {
	switch kind {
	case "roo":
		k := [4]uint64{rng.Uint64(), rng.Uint64(), rng.Uint64(), rng.Uint64()}
		c := cuckoo.NewFromKeys(k)
		if rng.Intn(3) == 0 {
			b := make([]byte, rng.Intn(300))
			rng.Read(b)
			k, c = keysOf(b), cuckoo.NewCuckaroo(b)
		}
		mask := uint64(1)<<bits - 1
		return graph{kind, mask + 1, func(n uint32) edge { return rooEdge(k, uint64(n), mask) },
			func(p []uint32) bool { return c.Verify(p, uint8(bits)) },
			func(p []uint32) bool { return cuckoo.NewFromKeys(k).Verify(p, uint8(bits)) }}
	default:
		b := make([]byte, rng.Intn(200))
		rng.Read(b)
		k, c := keysOf(b), cuckoo.New(b, uint8(bits+1))
		ease := []uint64{50, 75, 100, 30, 99, 47, 63, 100, 200}[rng.Intn(9)]
		mask := uint64(1)<<bits - 1
		return graph{kind, ease * (mask + 1) * 2 / 100, func(n uint32) edge { return kooEdge(k, uint64(n), mask) },
			func(p []uint32) bool { return c.Verify(p, ease) },
			func(p []uint32) bool { return cuckoo.New(b, uint8(bits+1)).Verify(p, ease) }}
	}
}

type powRec struct {
	seen  map[string]bool
	cases []m
	acc   map[int]int // accepted proofs by length
}

func (r *powRec) try(g graph, p []uint32) {
	us, vs := make([]uint64, len(p)), make([]uint64, len(p))
	for i, x := range p {
		e := g.edge(x)
		us[i], vs[i] = e.u, e.v
	}
	u, v := labels(us), labels(vs)
	// order pattern and range pattern of the numbers
	cls := make([]int, len(p))
	for i, x := range p {
		if uint64(x) >= g.limit {
			cls[i] |= 1
		}
		if uint64(x)+1 == g.limit || uint64(x) == g.limit {
			cls[i] |= 2
		}
		if i > 0 && x == p[i-1] {
			cls[i] |= 4
		}
		if i > 0 && x < p[i-1] {
			cls[i] |= 8
		}
	}
	ok := false
	crash := catch(func() { ok = g.ver(append([]uint32{}, p...)) })
	key := fmt.Sprint(g.kind, u, v, cls, ok, crash)
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	if ok {
		r.acc[len(p)]++
	}
	rec := m{"kind": g.kind, "limit": g.limit, "nonces": append([]uint32{}, p...), "u": u, "v": v, "ok": ok, "crash": crash}
	r.cases = append(r.cases, rec)
	p = append([]uint32{}, p...)
	later(rec, func() interface{} { return g.fresh(append([]uint32{}, p...)) })
}

// trails looks for closed trails (edges joined alternately in u and v, none used twice)
func trails(g graph, top uint32, tries, maxLen int, f func([]uint32)) {
	us, vs := map[uint64][]uint32{}, map[uint64][]uint32{}
	es := make([]edge, top)
	for x := uint32(0); x < top; x++ {
		e := g.edge(x)
		es[x] = e
		us[e.u] = append(us[e.u], x)
		vs[e.v] = append(vs[e.v], x)
	}
	for t := 0; t < tries; t++ {
		start := uint32(rng.Intn(int(top)))
		path, used := []uint32{start}, map[uint32]bool{start: true}
		for len(path) < maxLen {
			cur := path[len(path)-1]
			var opts []uint32
			side := us[es[cur].u]
			if len(path)%2 == 0 {
				side = vs[es[cur].v]
			}
			for _, x := range side {
				if !used[x] {
					opts = append(opts, x)
				}
			}
			if len(opts) == 0 {
				break
			}
			nx := opts[rng.Intn(len(opts))]
			path = append(path, nx)
			used[nx] = true
			if len(path)%2 == 0 && es[nx].v == es[start].v {
				f(append([]uint32{}, path...))
			}
		}
	}
}

func (r *powRec) around(g graph, p []uint32, top uint32) {
	q := sorted(p)
	r.try(g, q)
	if rng.Intn(4) > 0 && len(q) > 8 {
		return
	}
	i := rng.Intn(len(q))
	without := append(append([]uint32{}, q[:i]...), q[i+1:]...)
	r.try(g, without)
	x := append([]uint32{}, without...)
	x = sorted(append(x, uint32(rng.Intn(int(top)))))
	r.try(g, x)
	r.try(g, sorted(append(append([]uint32{}, q...), uint32(rng.Intn(int(top))))))
	r.try(g, sorted(append(append([]uint32{}, q...), q[i])))
	y := append([]uint32{}, q...)
	j := rng.Intn(len(q))
	y[i], y[j] = y[j], y[i]
	r.try(g, y)
	if len(q) > 1 {
		k := rng.Intn(len(q) - 1)
		y = append([]uint32{}, q...)
		y[k], y[k+1] = y[k+1], y[k]
		r.try(g, y)
	}
	if len(q) > 2 { // ascending but for one far step back
		y = append(append([]uint32{}, q[1:]...), q[0])
		r.try(g, y)
	}
}

// realise looks for real proofs of every wanted shape (vertex labels of both sides)
func (r *powRec) realise(kind string, shapes [][2][]int, secs int) int {
	want := map[string]bool{}
	for _, s := range shapes {
		want[fmt.Sprint(s[0], s[1])] = true
	}
	total := len(want)
	for end := time.Now().Add(time.Duration(secs) * time.Second); len(want) > 0 && time.Now().Before(end); {
		g := newGraph(kind, uint(2+rng.Intn(2)))
		top := int(g.limit)
		es := make([]edge, top)
		for x := range es {
			es[x] = g.edge(uint32(x))
		}
		for t := 0; t < 400; t++ {
			k := 1 + rng.Intn(4)
			if t > 20 {
				k = 6
			}
			if k > top {
				break
			}
			var u, v [6]int
			var p [6]uint32
			c := 0
			for x := 0; x < top && c < k; x++ {
				if rng.Intn(top-x) < k-c {
					p[c] = uint32(x)
					u[c], v[c] = c+1, c+1
					c++
				}
			}
			nu, nv := 0, 0
			for i := 0; i < k; i++ {
				u[i], v[i] = 0, 0
				for j := 0; j < i; j++ {
					if es[p[j]].u == es[p[i]].u {
						u[i] = u[j]
					}
					if es[p[j]].v == es[p[i]].v {
						v[i] = v[j]
					}
				}
				if u[i] == 0 {
					nu++
					u[i] = nu
				}
				if v[i] == 0 {
					nv++
					v[i] = nv
				}
			}
			if k == 6 && (nu > 3 || nv > 3) {
				continue
			}
			key := fmt.Sprint(u[:k], v[:k])
			if want[key] {
				delete(want, key)
				r.try(g, append([]uint32{}, p[:k]...))
			}
		}
	}
	return total - len(want)
}

func cmdCuckoo() {
	r := &powRec{seen: map[string]bool{}, acc: map[int]int{}}
	var shapes [][2][]int
	read(&shapes)
	found := map[string]int{}
	for _, kind := range []string{"roo", "koo"} {
		r.try(newGraph(kind, 3), nil)
		found[kind] = r.realise(kind, shapes, n(4, 60))
		// random small subsets of tiny graphs
		start := len(r.cases)
		for it := 0; len(r.cases)-start < n(1500, 10000) && it < n(1000, 20000); it++ {
			g := newGraph(kind, uint(1+rng.Intn(4)))
			top := int(g.limit) + 3
			for s := 0; s < 60; s++ {
				k := 1 + rng.Intn(8)
				if k > top {
					k = top
				}
				p := make([]uint32, 0, k)
				for _, x := range rng.Perm(top)[:k] {
					p = append(p, uint32(x))
				}
				if rng.Intn(20) > 0 {
					p = sorted(p)
				}
				r.try(g, p)
			}
		}
		// closed trails, and what lies around them
		start = len(r.cases)
		for it := 0; len(r.cases)-start < n(5000, 60000) && it < n(3000, 40000); it++ {
			g := newGraph(kind, uint(1+rng.Intn(6)))
			top := uint32(g.limit)
			if rng.Intn(3) == 0 {
				top += 1 + uint32(rng.Intn(4))
			}
			if top < 2 {
				continue
			}
			var last []uint32
			got := 0
			trails(g, top, 12, 24, func(p []uint32) {
				if got++; got > 6 {
					return
				}
				r.around(g, p, top)
				if last != nil {
					r.try(g, sorted(union(last, p)))
				}
				last = p
			})
		}
		// long cycles
		for it := 0; it < n(300, 3000); it++ {
			g := newGraph(kind, uint(7+rng.Intn(4)))
			got := 0
			trails(g, uint32(g.limit), 400, 64, func(p []uint32) {
				if len(p) < 20 {
					return
				}
				if got++; got <= 4 {
					r.around(g, p, uint32(g.limit))
				}
			})
		}
	}
	// edges of both generators
	edges := []m{}
	special := []uint32{0, 1, 62, 63, 64, 65, 126, 127, 128, 191, 1<<16 - 1, 1 << 16, 1<<29 - 1, 1<<30 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 64, 1<<32 - 65}
	for i := 0; i < n(400, 4000); i++ {
		x := rng.Uint32() >> uint(rng.Intn(32))
		if i < len(special)*6 {
			x = special[i%len(special)]
		} else if rng.Intn(4) == 0 {
			x |= 63
		}
		b := make([]byte, rng.Intn(300))
		rng.Read(b)
		k := keysOf(b)
		bits := uint(1 + rng.Intn(32))
		mask := uint64(1)<<bits - 1
		e := m{"nonce": w64(uint64(x)), "mask": w64(mask), "key": [][4]int{w64(k[0]), w64(k[1]), w64(k[2]), w64(k[3])}}
		if i%2 == 0 {
			c := cuckoo.NewCuckaroo(b)
			if rng.Intn(2) == 0 {
				c = cuckoo.NewFromKeys(k)
			}
			r := c.NewEdge(x, mask)
			ref := rooEdge(k, uint64(x), mask)
			e["kind"], e["u"], e["v"], e["ru"], e["rv"] = "roo", w64(r.U), w64(r.V), w64(ref.u), w64(ref.v)
			later(e, func() interface{} {
				r := cuckoo.NewCuckaroo(b).NewEdge(x, mask)
				return [2][4]int{w64(r.U), w64(r.V)}
			})
		} else {
			c := cuckoo.New(b, uint8(bits+1))
			r := c.NewEdge(x)
			ref := kooEdge(k, uint64(x), mask)
			e["kind"], e["u"], e["v"], e["ru"], e["rv"] = "koo", w64(r.U), w64(r.V), w64(ref.u), w64(ref.v)
			later(e, func() interface{} {
				r := cuckoo.New(b, uint8(bits+1)).NewEdge(x)
				return [2][4]int{w64(r.U), w64(r.V)}
			})
		}
		edges = append(edges, e)
	}
	askAgain()
	write(m{"cases": r.cases, "edges": edges, "accepted": r.acc, "shapes": found})
}

func union(a, b []uint32) []uint32 {
	s := map[uint32]bool{}
	for _, x := range append(append([]uint32{}, a...), b...) {
		s[x] = true
	}
	var r []uint32
	for x := range s {
		r = append(r, x)
	}
	return r
}
