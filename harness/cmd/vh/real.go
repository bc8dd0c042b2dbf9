package main

import (
	"bytes"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
)

// realChain is the chain of gringo, with its calls written down
type realChain struct {
	*chain.Chain
	n *nodeRun
}

func (c realChain) GetBlock(h consensus.Hash) *consensus.Block {
	c.n.chain.called(m{"fn": "getblock", "id": c.n.real.byHash(h)})
	return c.Chain.GetBlock(h)
}

func (c realChain) GetBlockHeaders(loc consensus.Locator) []consensus.BlockHeader {
	c.n.chain.called(m{"fn": "getheaders", "ids": []int{}})
	return c.Chain.GetBlockHeaders(loc)
}

func (c realChain) ProcessHeaders(l []consensus.BlockHeader) error {
	c.n.chain.called(m{"fn": "headers", "ids": []int{}})
	return c.Chain.ProcessHeaders(l)
}

func (c realChain) ProcessBlock(b *consensus.Block) error {
	c.n.chain.called(m{"fn": "block", "id": c.n.real.w.known(b)})
	return c.Chain.ProcessBlock(b)
}

// realWorld is a stored chain and blocks to offer to it
type realWorld struct {
	w      *world
	blocks []*consensus.Block // offered
	goodH  map[int]bool       // ids of blocks with a good header
	heads  map[string]int     // stored blocks by their header
	byID   map[int]*consensus.Block
	all    []*consensus.Block
}

// byHash prefers a stored block, then the first that was made
func (x *realWorld) byHash(h []byte) int {
	for _, b := range x.all {
		if bytes.Equal(hashOf(b), h) {
			return x.w.known(b)
		}
	}
	return -1
}

func newRealWorld() *realWorld {
	bm := newBodyMaker()
	hs := headers()
	x := &realWorld{goodH: map[int]bool{}, heads: map[string]int{}, byID: map[int]*consensus.Block{}}
	wire := func(b *consensus.Block) *consensus.Block { // what of a block goes over the wire
		c := copyBlock(b)
		c.Header.Difficulty = 0
		return c
	}
	pick := bm.good[rng.Intn(len(bm.good))]
	names := []string{"chain_c1", "chain_c2", "chain_c3", "chain_f2", "link72", "link71"}
	fit := hs[names[rng.Intn(len(names))]]
	var genesis *consensus.Block
	var main, side []*consensus.Block
	switch rng.Intn(4) {
	case 0: // nothing on the main chain, the parent is known: the block fits
		past := pastOf(fit, rng.Intn(5))
		side = past[len(past)-1:]
		genesis = plain(fit.height, bytes.Repeat([]byte{255}, 32), t0, 1000, 1)
	case 1: // a common past; a block from the wire has too little difficulty
		main = pastOf(fit, rng.Intn(30))
		genesis = main[0]
	case 2: // a valid block is the tip, a side chain is known
		genesis = chainGenesis()
		tip := bm.block(hs["chain_c1"], 3)
		main = []*consensus.Block{genesis, tip}
		side = []*consensus.Block{plain(1, hashOf(genesis), t0+60, 7, 7)}
		fit = hs["chain_c2"]
	case 3: // the tip is as high as a block of which the parent is not known
		genesis = plain(pick.height, bytes.Repeat([]byte{255}, 32), t0, rng.Uint64()>>uint(20+rng.Intn(44)), 1)
		side = []*consensus.Block{plain(pick.height+5, bytes.Repeat([]byte{4}, 32), t0, 7, 7)}
	}
	x.w = newWorld(genesis, main, side)
	x.w.ops = []m{}
	// all have an id before anything is asked
	x.all = append(append(append(x.all, x.w.store.main...), x.w.store.side...), genesis)
	add := func(b *consensus.Block, valid, head bool) {
		b = wire(b)
		id := x.w.id(b)
		x.w.valid[id] = valid
		x.goodH[id] = head
		x.blocks = append(x.blocks, b)
		x.all = append(x.all, b)
	}
	base := bm.block(fit, 0)
	add(base, true, true)
	add(bm.block(pick, 0), true, true)
	add(bm.block(bm.good[rng.Intn(len(bm.good))], 0), true, true)
	faults := []shape{
		{Outs: simple.Outs, Kers: [][3]interface{}{{1.0, true, false}}},
		{Outs: simple.Outs, Kers: [][3]interface{}{{1.0, true, true}, {2.0, false, false}}},
		{Outs: [][3]interface{}{{1.0, true, false}}, Kers: simple.Kers},
		{Outs: [][3]interface{}{{1.0, true, true}, {2.0, false, false}}, Kers: simple.Kers},
		{Outs: [][3]interface{}{{1.0, true, true}, {2.0, true, true}}, Kers: simple.Kers},
		{Outs: simple.Outs, Kers: [][3]interface{}{{1.0, true, true}, {2.0, true, true}}},
		{Kers: simple.Kers}, {Outs: simple.Outs},
	}
	for i := 0; i < 3; i++ {
		b, _, _ := bm.build(faults[rng.Intn(len(faults))], []*hdr{fit, pick}[rng.Intn(2)])
		add(b, false, true)
	}
	for _, f := range []string{"nonce", "height", "totalDifficulty", "previous", "timestamp"} {
		h := []*hdr{fit, pick}[rng.Intn(2)].change(f, "inc")
		if !isGood(h, bm.good) && (f == "nonce" || rng.Intn(2) == 0) {
			b, _, _ := bm.build(simple, h)
			add(b, false, false)
		}
	}
	if len(main) > 1 { // known blocks
		add(x.w.store.main[len(main)-1], fit == hs["chain_c2"] && len(main) == 2, fit == hs["chain_c2"] && len(main) == 2)
		add(x.w.store.main[rng.Intn(len(main)-1)], false, false)
	}
	for _, b := range append(append([]*consensus.Block{}, x.w.store.main...), x.w.store.side...) {
		x.heads[key(&consensus.Block{Header: wire(b).Header})] = x.w.known(b)
	}
	for _, b := range x.all {
		x.byID[x.w.known(b)] = b
	}
	return x
}

// list gives the record of every block there is
func (x *realWorld) list() []m {
	l := []m{}
	for id := 1; id <= len(x.w.ids); id++ {
		if b := x.byID[id]; b != nil {
			r := x.w.rec(b)
			r["head"] = x.goodH[id]
			l = append(l, r)
		}
	}
	return l
}

// resolve gives a frame the numbers of the blocks it is about
func (n *nodeRun) resolve(f frame) {
	x := n.real
	at := func(j int, l []*consensus.Block) *consensus.Block { return l[j%len(l)] }
	switch f.str("k") {
	case "block":
		b := at(f.num("b"), x.blocks)
		f["id"], f["h"], f["td"] = x.w.known(b), w64(b.Header.Height), w64(uint64(b.Header.TotalDifficulty))
	case "header":
		f["id"] = x.w.known(at(f.num("b"), x.blocks))
	case "headers":
		ids := []int{}
		for _, j := range f.list("bs") {
			ids = append(ids, x.w.known(at(j, x.blocks)))
		}
		f["ids"], f["id"] = ids, 0
	case "getblock":
		f["id"] = x.byHash(hashOf(at(f.num("b"), x.all)))
	case "getheaders":
		hs := []int{}
		l := [][]byte{}
		for _, j := range f.list("bs") {
			h := bytes.Repeat([]byte{9}, 32)
			if j > 0 {
				h = hashOf(at(j, x.all))
			}
			l = append(l, h)
			hs = append(hs, x.w.hashID(h))
		}
		f["hs"], f["hashes"] = hs, l
	}
}

func (n *nodeRun) encodeReal(f frame) []byte {
	x := n.real
	switch f.str("k") {
	case "block":
		return frameOf(11, copyBlock(x.byID[f["id"].(int)]).Bytes())
	case "header":
		h := x.byID[f["id"].(int)].Header
		return frameOf(8, h.Bytes())
	case "headers":
		ids := f["ids"].([]int)
		b := be(uint16(len(ids)))
		for _, id := range ids {
			h := x.byID[id].Header
			b = append(b, h.Bytes()...)
		}
		return frameOf(9, b)
	case "getblock":
		return frameOf(10, hashOf(x.byID[f["id"].(int)]))
	case "getheaders":
		l := f["hashes"].([][]byte)
		delete(f, "hashes")
		return frameOf(7, append([]byte{byte(len(l))}, bytes.Join(l, nil)...))
	}
	return nil
}
