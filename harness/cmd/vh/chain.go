package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
)

func init() { commands["chain"] = cmdChain }

// memStorage is a storage as the chain may expect it: a main chain of
// contiguous heights, and blocks off it that are known by hash only.
type memStorage struct {
	mu         sync.Mutex
	main, side []*consensus.Block
	writes     int
	sideKnown  bool // From knows blocks off the main chain, nothing follows them
	hashes     map[*consensus.Block][]byte
}

func (s *memStorage) hashOf(b *consensus.Block) []byte {
	if s.hashes == nil {
		s.hashes = map[*consensus.Block][]byte{}
	}
	if s.hashes[b] == nil {
		s.hashes[b] = hashOf(b)
	}
	return s.hashes[b]
}

func hashOf(b *consensus.Block) []byte {
	h := hdr{eb: b.Header.POW.EdgeBits, nonces: b.Header.POW.Nonces}
	return h.hash()
}

func copyBlock(b *consensus.Block) *consensus.Block {
	c := *b
	c.Inputs = append(consensus.InputList(nil), b.Inputs...)
	c.Outputs = append(consensus.OutputList(nil), b.Outputs...)
	c.Kernels = append(consensus.TxKernelList(nil), b.Kernels...)
	c.Header.POW.Nonces = append([]uint32{}, b.Header.POW.Nonces...)
	return &c
}

func (s *memStorage) AddBlock(b *consensus.Block) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.writes++
	s.main = append(s.main, copyBlock(b))
}

func (s *memStorage) written() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.writes
}

func (s *memStorage) DelBlock(consensus.BlockID) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.writes++
}

func (s *memStorage) find(id consensus.BlockID) (int, *consensus.Block) {
	match := func(b *consensus.Block) bool {
		return (id.Hash == nil || bytes.Equal(s.hashOf(b), id.Hash)) && (id.Height == nil || *id.Height == b.Header.Height)
	}
	if id.Hash == nil && id.Height == nil {
		return -1, nil
	}
	for i, b := range s.main {
		if match(b) {
			return i, b
		}
	}
	if id.Hash != nil {
		for _, b := range s.side {
			if match(b) {
				return -1, b
			}
		}
	}
	return -1, nil
}

func (s *memStorage) GetBlock(id consensus.BlockID) *consensus.Block {
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, b := s.find(id); b != nil {
		return copyBlock(b)
	}
	return nil
}

func (s *memStorage) GetLastBlock() *consensus.Block {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.main) == 0 {
		return nil
	}
	return copyBlock(s.main[len(s.main)-1])
}

func (s *memStorage) From(id consensus.BlockID, limit int) (l consensus.BlockList) {
	s.mu.Lock()
	defer s.mu.Unlock()
	i, b := s.find(id)
	if i < 0 && b != nil && s.sideKnown && limit > 0 {
		return append(l, *copyBlock(b))
	}
	for ; i >= 0 && i < len(s.main) && len(l) < limit; i++ {
		l = append(l, *copyBlock(s.main[i]))
	}
	return l
}

// world names blocks and hashes by numbers
type world struct {
	genesis *consensus.Block
	store   *memStorage
	chain   *chain.Chain
	ids     map[string]int
	hashes  map[string]int
	valid   map[int]bool
	ops     []m
	base    map[string]string

	headerKeys map[string]int

	shared bool
	stuck  atomic.Bool // an operation never came back
	mu     sync.Mutex  // of all of the above, for when the chain is used by many at once
}

func newWorld(genesis *consensus.Block, main, side []*consensus.Block) *world {
	w := &world{genesis: genesis, store: &memStorage{}, ids: map[string]int{}, hashes: map[string]int{}, valid: map[int]bool{}}
	w.ids[key(genesis)] = 1
	w.hashID(hashOf(genesis))
	for _, b := range main {
		w.store.main = append(w.store.main, copyBlock(b))
		w.id(b)
	}
	for _, b := range side {
		w.store.side = append(w.store.side, copyBlock(b))
		w.id(b)
	}
	return w
}

// key identifies the content of a block
func key(b *consensus.Block) string {
	h := b.Header
	var s bytes.Buffer
	u := func(x uint64) {
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], x)
		s.Write(t[:])
	}
	for _, x := range []uint64{uint64(h.Version), h.Height, uint64(h.Timestamp.Unix()), h.Nonce, h.OutputMmrSize, h.KernelMmrSize,
		uint64(h.Difficulty), uint64(h.TotalDifficulty), uint64(h.ScalingDifficulty), uint64(h.POW.EdgeBits), uint64(len(h.POW.Nonces))} {
		u(x)
	}
	for _, x := range h.POW.Nonces {
		u(uint64(x))
	}
	for _, x := range [][]byte{h.Previous, h.PreviousRoot, h.UTXORoot, h.RangeProofRoot, h.KernelRoot, h.TotalKernelOffset[:]} {
		u(uint64(len(x)))
		s.Write(x)
	}
	for _, x := range b.Inputs {
		s.Write(inputBytes(x))
	}
	for _, x := range b.Outputs {
		s.Write(outputHead(x))
		s.Write(x.RangeProof.Bytes())
	}
	for _, x := range b.Kernels {
		s.Write(kernelBytes(x))
	}
	return string(b2(s.Bytes()))
}

func (w *world) id(b *consensus.Block) int {
	if b == nil {
		return 0
	}
	k := key(b)
	if w.ids[k] == 0 {
		w.ids[k] = len(w.ids) + 1
	}
	return w.ids[k]
}

// known is the number of a block somebody made before, -1 otherwise
func (w *world) known(b *consensus.Block) int {
	if b == nil {
		return 0
	}
	if i := w.ids[key(b)]; i > 0 {
		return i
	}
	return -1
}

func (w *world) hashID(h []byte) int {
	k := string(h)
	if w.hashes[k] == 0 {
		w.hashes[k] = len(w.hashes) + 1
	}
	return w.hashes[k]
}

func (w *world) rec(b *consensus.Block) m {
	h := hdr{eb: b.Header.POW.EdgeBits, nonces: b.Header.POW.Nonces}
	id := w.id(b)
	return m{"id": id, "hash": w.hashID(hashOf(b)), "prev": w.hashID(b.Header.Previous), "height": b.Header.Height,
		"ts": b.Header.Timestamp.Unix() - t0, "td": w64(uint64(b.Header.TotalDifficulty)), "work": w64(h.work()),
		"diff": w64(uint64(b.Header.Difficulty)), "valid": w.valid[id]}
}

func (w *world) open() {
	w.base = map[string]string{"store": w.print(), "genesis": key(w.genesis)}
	w.chain = chain.New(copyBlock(w.genesis), w.store)
	w.op(m{"op": "state"})
}

func (w *world) print() string {
	var s []string
	for _, b := range append(append([]*consensus.Block{}, w.store.main...), w.store.side...) {
		s = append(s, key(b))
	}
	return strings.Join(s, " ") + fmt.Sprint(w.store.writes)
}

// try calls the chain, unless that is known not to return
func (w *world) try(d time.Duration, f func()) string {
	if w.stuck.Load() {
		return "hang"
	}
	if hangs.Load() > 1 { // the rest is not worth waiting for as long
		d = 5 * time.Second
	}
	c := catchFor(d, f)
	if c == "hang" {
		hangs.Add(1)
		w.stuck.Store(true)
	}
	return c
}

var hangs atomic.Int32 // operations that never came back

// op closes an operation: it adds what is to be seen of the chain afterwards
func (w *world) op(o m) {
	if o["crash"] == nil {
		o["crash"] = ""
	}
	var head, g consensus.Block
	c := w.try(20*time.Second, func() {
		head = w.chain.Head()
		g = w.chain.Genesis()
		o["headHeight"], o["headTd"] = w.chain.Height(), w64(uint64(w.chain.TotalDifficulty()))
	})
	w.mu.Lock()
	defer w.mu.Unlock()
	if c == "" {
		c = catch(func() { o["head"], o["genesis"] = w.known(&head), w.known(&g) })
	}
	if c != "" {
		o["crash"], o["head"], o["headHeight"], o["headTd"], o["genesis"] = c, -1, 0, w64(0), -1
	}
	if w.shared { // looked at closely in the end
		o["same"] = w.store.written() == 0
	} else {
		o["same"] = w.print() == w.base["store"]
	}
	w.ops = append(w.ops, o)
}

func (w *world) process(b *consensus.Block) {
	w.mu.Lock()
	o := m{"op": "process", "block": w.rec(b)}
	c := copyBlock(b)
	w.mu.Unlock()
	var err error
	o["crash"] = w.try(20*time.Second, func() { err = w.chain.ProcessBlock(c) })
	o["ok"], o["err"] = err == nil, fmt.Sprint(err)
	w.op(o)
}

func (w *world) lookup(hash []byte, height int) {
	o := m{"op": "lookup", "hash": 0, "height": height, "res": -1}
	w.mu.Lock()
	if hash != nil {
		o["hash"] = w.hashID(hash)
	}
	byHash := height < 0 && rng.Intn(3) > 0
	w.mu.Unlock()
	var b *consensus.Block
	o["crash"] = w.try(20*time.Second, func() {
		if byHash {
			b = w.chain.GetBlock(hash)
		} else {
			id := consensus.BlockID{Hash: hash}
			if height >= 0 {
				h := uint64(height)
				id.Height = &h
			}
			b = w.chain.GetBlockID(id)
		}
	})
	w.mu.Lock()
	if o["crash"] == "" {
		o["crash"] = catch(func() { o["res"] = w.known(b) })
	}
	w.mu.Unlock()
	w.op(o)
}

func (w *world) headers(loc [][]byte) {
	var l consensus.Locator
	ids := []int{}
	w.mu.Lock()
	for _, h := range loc {
		ids = append(ids, w.hashID(h))
		l.Hashes = append(l.Hashes, append([]byte{}, h...))
	}
	w.mu.Unlock()
	o := m{"op": "headers", "loc": ids, "res": []int{}}
	o["crash"] = w.try(20*time.Second, func() {
		res := []int{}
		hs := w.chain.GetBlockHeaders(l)
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.headerKeys == nil {
			w.headerKeys = map[string]int{}
			for _, b := range w.store.main {
				w.headerKeys[key(&consensus.Block{Header: b.Header})] = w.known(b)
			}
		}
		for _, h := range hs {
			n := -1
			if k, ok := w.headerKeys[key(&consensus.Block{Header: h})]; ok {
				n = k
			}
			res = append(res, n)
		}
		o["res"] = res
	})
	w.op(o)
}

func (w *world) audit() {
	o := m{"op": "audit"}
	var err error
	o["crash"] = w.try(40*time.Second, func() { err = w.chain.Validate() })
	o["ok"], o["err"] = err == nil, fmt.Sprint(err)
	w.op(o)
}

func (w *world) processHeaders(hs []*hdr) {
	var l []consensus.BlockHeader
	for _, h := range hs {
		l = append(l, h.real())
	}
	o := m{"op": "offer"}
	o["crash"] = w.try(20*time.Second, func() { w.chain.ProcessHeaders(l) })
	w.op(o)
}

func (w *world) scenario() m {
	main, side := []m{}, []m{}
	for _, b := range w.store.main {
		main = append(main, w.rec(b))
	}
	for _, b := range w.store.side {
		side = append(side, w.rec(b))
	}
	return m{"genesisBlock": w.rec(w.genesis), "main": main, "side": side, "sideKnown": w.store.sideKnown, "ops": w.ops}
}

// plain is a block that is no good on its own, but may well be stored
func plain(height uint64, prev []byte, ts int64, td, diff uint64) *consensus.Block {
	h := &hdr{ver: 1, height: height, ts: ts, prev: prev, td: td, scaling: 1, eb: 29, nonce: rng.Uint64()}
	for _, f := range []*[]byte{&h.prevRoot, &h.utxo, &h.rproof, &h.kern, &h.offset} {
		*f = make([]byte, 32)
		rng.Read(*f)
	}
	for i := 0; i < 42; i++ {
		h.nonces = append(h.nonces, rng.Uint32()>>3)
	}
	h.nonces = sorted(h.nonces)
	b := &consensus.Block{Header: h.real()}
	b.Header.Difficulty = consensus.Difficulty(diff)
	return b
}

// fixtures that link up: genesis g of the small mined chain
func chainGenesis() *consensus.Block {
	b := plain(0, bytes.Repeat([]byte{255}, 32), t0, 1000, 1)
	for i := range b.Header.POW.Nonces {
		b.Header.POW.Nonces[i] = uint32(1000 * (i + 1))
	}
	return b
}

var simple = shape{Outs: [][3]interface{}{{1.0, true, true}}, Kers: [][3]interface{}{{1.0, true, true}}}

func (bm *bodyMaker) block(h *hdr, diff uint64) *consensus.Block {
	b, _, _ := bm.build(simple, h)
	b.Header.Difficulty = consensus.Difficulty(diff)
	return b
}

func cmdChain() {
	bm := newBodyMaker()
	var res []m
	var mu sync.Mutex
	keep := func(w *world) {
		mu.Lock()
		defer mu.Unlock()
		res = append(res, w.scenario())
	}
	switch *extra {
	case "extend":
		extendScenarios(bm, keep)
	case "lookup":
		lookupScenarios(bm, keep)
	case "audit":
		auditScenarios(bm, keep)
	case "locator":
		locatorScenarios(bm, keep)
	case "shared":
		sharedScenarios(bm, keep)
	}
	write(res)
}

// ---------------------------------------------------------------- C05

func extendScenarios(bm *bodyMaker, keep func(*world)) {
	hs := headers()
	var names []string
	for k := range hs {
		if strings.HasPrefix(k, "chain_") || strings.HasPrefix(k, "link") {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	type job struct {
		w      *world
		blocks []*consensus.Block
	}
	var jobs []job
	for _, name := range names {
		h := hs[name]
		for rep := 0; rep < n(14, 120); rep++ {
			main := pastOf(h, rep)
			parent := main[len(main)-1]
			side := []*consensus.Block{}
			g := main[0]
			if h.height > 60 && rng.Intn(2) == 0 {
				g = &chain.Testnet4
			}
			tweak := rng.Intn(12)
			ph := hdr{eb: 29, nonces: parent.Header.POW.Nonces}
			switch tweak {
			case 0:
				parent.Header.TotalDifficulty++
			case 1:
				parent.Header.TotalDifficulty--
			case 2: // as if the total included the new block's own work
				parent.Header.TotalDifficulty = consensus.Difficulty(h.td - h.work())
			case 3:
				parent.Header.TotalDifficulty = consensus.Difficulty(h.td)
			case 4: // the parent is off the main chain
				side = append(side, parent)
				other := plain(parent.Header.Height, parent.Header.Previous, parent.Header.Timestamp.Unix(), 77, 1)
				main = append(main[:len(main)-1:len(main)-1], other)
			case 5: // the parent is unknown
				main = append(main[:len(main)-1:len(main)-1], plain(parent.Header.Height, parent.Header.Previous, parent.Header.Timestamp.Unix(), h.td-ph.work(), 1))
			case 6: // the parent's hash is known, but at another height
				if h.height > 2 {
					parent.Header.Height--
					side = append(side, parent)
					main = main[: len(main)-1 : len(main)-1]
				}
			case 7: // the new block is the tip already
				b := bm.block(h, 5)
				main = append(main, b)
			case 8: // the chain went on from the parent
				for k := 0; k < 1+rng.Intn(3); k++ {
					last := main[len(main)-1]
					main = append(main, plain(last.Header.Height+1, hashOf(last), last.Header.Timestamp.Unix()+int64(rng.Intn(4000)), rng.Uint64()>>20, rng.Uint64()>>uint(13+rng.Intn(50))))
				}
			}
			w := newWorld(g, main, side)
			d := demandGuess(main, h.height)
			var bs []*consensus.Block
			base := bm.block(h, 0)
			diffs := []uint64{d, d - 1, d + 1, 0, 1, 1<<64 - 1, d / 2, 2 * d}
			if d == 0 {
				diffs[1] = 0
			}
			for i, x := range diffs {
				if i > 2 && rng.Intn(3) > 0 {
					continue
				}
				b := copyBlock(base)
				b.Header.Difficulty = consensus.Difficulty(x)
				w.valid[w.id(b)] = true
				bs = append(bs, b)
			}
			// broken on its own
			b, _, _ := bm.build(shape{Outs: simple.Outs, Kers: [][3]interface{}{{1.0, true, false}}}, h)
			b.Header.Difficulty = consensus.Difficulty(d)
			bs = append(bs, b)
			c, _, _ := bm.build(simple, h.change("nonce", "inc"))
			c.Header.Difficulty = consensus.Difficulty(d)
			bs = append(bs, c)
			jobs = append(jobs, job{w, bs})
		}
	}
	// valid blocks of which the parent is unknown, in any order
	for i := 0; i < n(6, 40); i++ {
		main := []*consensus.Block{chainGenesis()}
		w := newWorld(main[0], main, nil)
		var bs []*consensus.Block
		for k := 0; k < 4; k++ {
			h := bm.good[rng.Intn(len(bm.good))]
			b := bm.block(h, rng.Uint64())
			w.valid[w.id(b)] = true
			bs = append(bs, b)
		}
		jobs = append(jobs, job{w, bs})
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		j.w.open()
		for _, b := range j.blocks {
			j.w.process(b)
		}
	})
	for _, j := range jobs {
		keep(j.w)
	}
}

// pastOf builds the blocks below header h, down to genesis or far enough
func pastOf(h *hdr, rep int) []*consensus.Block {
	gaps := []int64{0, 1, 59, 60, 120, -1, 3600, 86400, -60}
	gap := gaps[rep%len(gaps)] // of the new block behind its parent
	if rep >= 2*len(gaps) {
		gap = int64(rng.Intn(200) - 20)
	}
	var main []*consensus.Block
	if h.name == "chain_c1" {
		main = append(main, chainGenesis())
	} else {
		k := int(h.height)
		if k > 71 && rng.Intn(2) == 0 {
			k = 71
		}
		if k > 120 {
			k = 72 + rng.Intn(40)
		}
		p := randomPast(k)
		for i := k - 1; i >= 0; i-- {
			prev := bytes.Repeat([]byte{1}, 32)
			if len(main) > 0 {
				prev = hashOf(main[len(main)-1])
			}
			main = append(main, plain(h.height-1-uint64(i), prev, h.ts-gap+int64(p.ts[i]-p.ts[0]), rng.Uint64()>>30, p.diff[i]))
		}
	}
	parent := main[len(main)-1]
	parent.Header.Timestamp = time.Unix(h.ts-gap, 0).UTC()
	hs := headers()
	switch {
	case strings.HasPrefix(h.name, "link"):
		for i := range parent.Header.POW.Nonces {
			parent.Header.POW.Nonces[i] = uint32(1000*(i+1)) + uint32(h.height)
		}
	case h.name == "chain_c2" || h.name == "chain_f2":
		parent.Header.POW.Nonces = hs["chain_c1"].nonces
	case h.name == "chain_c3":
		parent.Header.POW.Nonces = hs["chain_c2"].nonces
	}
	ph := hdr{eb: 29, nonces: parent.Header.POW.Nonces}
	parent.Header.TotalDifficulty = consensus.Difficulty(h.td - ph.work())
	return main
}

// demandGuess only picks interesting difficulties to try
func demandGuess(main []*consensus.Block, height uint64) uint64 {
	var l consensus.BlockList
	for i := len(main) - 1; i >= 0; i-- {
		if main[i].Header.Height < height && len(l) < 71 {
			l = append(l, *main[i])
		}
	}
	d := uint64(1)
	catch(func() { d = uint64(consensus.NextDifficulty(l)) })
	return d
}

// ---------------------------------------------------------------- C07

// line is a chain of k plain blocks above a genesis, which is its first block
func line(k int) []*consensus.Block {
	main := []*consensus.Block{plain(0, bytes.Repeat([]byte{255}, 32), t0, 1000, 1)}
	for i := 1; i <= k; i++ {
		p := main[i-1]
		main = append(main, plain(uint64(i), hashOf(p), p.Header.Timestamp.Unix()+60, uint64(p.Header.TotalDifficulty)+rng.Uint64()>>40, rng.Uint64()))
	}
	return main
}

func lookupScenarios(bm *bodyMaker, keep func(*world)) {
	hs := headers()
	c1 := hs["chain_c1"]
	type job struct {
		w     *world
		steps []func()
	}
	var jobs []job
	for rep := 0; rep < n(60, 600); rep++ {
		var w *world
		var tip *consensus.Block
		switch rep % 4 {
		case 0: // nothing stored
			w = newWorld(line(0)[0], nil, nil)
		case 1:
			l := line(rng.Intn(12))
			var side []*consensus.Block
			for i := 0; i < rng.Intn(4); i++ {
				p := l[rng.Intn(len(l))]
				side = append(side, plain(p.Header.Height+1, hashOf(p), t0, 5, 5))
			}
			w = newWorld(l[0], l, side)
		case 2: // genesis is not stored
			l := line(1 + rng.Intn(12))
			w = newWorld(l[0], l[1:], nil)
		case 3: // a valid block is the tip
			g := chainGenesis()
			tip = bm.block(c1, 9)
			w = newWorld(g, []*consensus.Block{g, tip}, nil)
			w.valid[w.id(tip)] = true
		}
		if k := len(w.store.main); k > 0 && tip == nil && rng.Intn(2) == 0 { // whatever total the last block has, it counts
			last := w.store.main[k-1]
			last.Header.TotalDifficulty = consensus.Difficulty([]uint64{0, 1, 999, uint64(w.genesis.Header.TotalDifficulty), 1<<64 - 1}[rng.Intn(5)])
			if k == 1 && last.Header.Height == 0 {
				last.Header.TotalDifficulty = w.genesis.Header.TotalDifficulty
			}
			w.id(last)
		}
		w.store.sideKnown = rng.Intn(2) == 0
		var pool []*consensus.Block
		pool = append(append(append(pool, w.store.main...), w.store.side...), w.genesis, plain(3, bytes.Repeat([]byte{7}, 32), t0, 1, 1))
		good := bm.block(bm.good[rng.Intn(len(bm.good))], rng.Uint64())
		w.valid[w.id(good)] = true
		bad, _, _ := bm.build(shape{Outs: simple.Outs, Kers: [][3]interface{}{{1.0, true, false}}}, bm.good[rng.Intn(len(bm.good))])
		fit := bm.block(c1, 1<<40) // extends the mined chain's genesis
		w.valid[w.id(fit)] = true
		low := bm.block(c1, 0)
		w.valid[w.id(low)] = true
		var steps []func()
		for i := 0; i < n(25, 60); i++ {
			b := pool[rng.Intn(len(pool))]
			height := rng.Intn(14) - 1
			if rng.Intn(2) == 0 {
				height = int(b.Header.Height)
			}
			hash := hashOf(b)
			switch rng.Intn(8) {
			case 0:
				steps = append(steps, func() { w.lookup(hash, -1) })
			case 1:
				if height < 0 {
					height = 0
				}
				steps = append(steps, func() { w.lookup(nil, height) })
			case 2, 3:
				steps = append(steps, func() { w.lookup(hash, height) })
			case 4:
				if rng.Intn(3) == 0 {
					steps = append(steps, func() { w.audit() })
				} else {
					steps = append(steps, func() { w.headers([][]byte{hash}) })
				}
			case 5:
				l := []*hdr{bm.good[rng.Intn(len(bm.good))], c1.change("nonce", "inc")}[:1+rng.Intn(2)]
				steps = append(steps, func() { w.processHeaders(l) })
			default:
				x := []*consensus.Block{good, bad, low, b, fit}[rng.Intn(5)]
				if tip != nil && rng.Intn(2) == 0 {
					x = tip
				}
				if x == b && w.ids[key(b)] == 0 {
					x = bad
				}
				steps = append(steps, func() { w.process(x) })
			}
		}
		jobs = append(jobs, job{w, steps})
	}
	// the order of random choices in lookup does not matter, so run one after another
	for _, j := range jobs {
		j.w.open()
		for _, f := range j.steps {
			f()
		}
		keep(j.w)
	}
}

// sharedScenarios use one chain from many sides at once
func sharedScenarios(bm *bodyMaker, keep func(*world)) {
	hs := headers()
	c1, c2 := hs["chain_c1"], hs["chain_c2"]
	bad, _, _ := bm.build(shape{Outs: simple.Outs, Kers: [][3]interface{}{{1.0, true, false}}}, c1)
	var jobs []func()
	for rep := 0; rep < n(8, 100); rep++ {
		g := chainGenesis()
		b1, b2 := bm.block(c1, 1), bm.block(c2, 1)
		var main []*consensus.Block
		valid := []*consensus.Block{b1}
		switch rep % 4 {
		case 0: // a valid chain
			main, valid = []*consensus.Block{g, b1, b2}, append(valid, b2)
		case 1: // with a rotten block
			breakKernel(&b1.Kernels[0])
			main, valid = []*consensus.Block{g, b1, b2}, []*consensus.Block{b2}
		case 2:
			main = []*consensus.Block{g, b1}
		case 3: // long, and of no good blocks
			main, valid = line(rng.Intn(n(80, 600))), nil
			g = main[0]
		}
		w := newWorld(g, main, nil)
		for _, b := range valid {
			w.valid[w.id(b)] = true
		}
		// none of these is accepted, so that nothing may change
		low, known := bm.block(c2, 0), copyBlock(main[len(main)-1])
		w.valid[w.id(low)] = true
		far := bm.block(bm.good[rng.Intn(len(bm.good))], rng.Uint64())
		far.Header.Previous = bytes.Repeat([]byte{9}, 32)
		var steps []func()
		for _, b := range []*consensus.Block{low, known, bad, copyBlock(bad), far} {
			b := b
			steps = append(steps, func() { w.process(b) })
		}
		offers := []*hdr{c1.change("nonce", "inc"), c1}
		steps = append(steps, func() { w.audit() }, func() { w.processHeaders(offers) }, func() { w.lookup(nil, 0) })
		for i := 0; i < 4; i++ {
			at := rng.Intn(len(main))
			hash := hashOf(main[at])
			steps = append(steps, func() { w.headers([][]byte{bytes.Repeat([]byte{7}, 32), hash}) }, func() { w.lookup(hash, at-1+at%3) }, func() { w.lookup(hash, -1) })
		}
		users := make([][]int, n(4, 10))
		for u := range users {
			users[u] = rng.Perm(len(steps))[:10]
		}
		jobs = append(jobs, func() { useAtOnce(w, steps, users) })
		defer keep(w)
	}
	parallel(len(jobs), func(i int) { jobs[i]() })
}

func useAtOnce(w *world, steps []func(), users [][]int) {
	w.open()
	w.shared = true
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for _, order := range users {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, i := range order {
				steps[i]()
			}
		}()
	}
	// somebody who does nothing but look, and notes what is new
	looked := make(chan struct{})
	go func() {
		defer close(looked)
		type sight struct {
			nonce              uint32
			at, of, height, td uint64
		}
		seen := map[sight]bool{}
		for {
			var x sight
			var h consensus.Block
			c := w.try(time.Minute, func() {
				for k := 0; k < 1000; k++ {
					h = w.chain.Head()
					x = sight{h.Header.POW.Nonces[0], h.Header.Height, uint64(h.Header.TotalDifficulty), w.chain.Height(), uint64(w.chain.TotalDifficulty())}
					if !seen[x] {
						break
					}
				}
			})
			if c != "" || !seen[x] {
				seen[x] = true
				w.mu.Lock()
				w.ops = append(w.ops, m{"op": "state", "crash": c, "same": true, "head": w.known(&h), "headHeight": x.height, "headTd": w64(x.td), "genesis": w.ids[key(w.genesis)]})
				w.mu.Unlock()
			}
			if c != "" {
				return
			}
			select {
			case <-stop:
				return
			case <-time.After(50 * time.Microsecond):
			}
		}
	}()
	wg.Wait()
	close(stop)
	<-looked
	w.shared = false
	w.op(m{"op": "state"})
}

// ---------------------------------------------------------------- C08

func auditScenarios(bm *bodyMaker, keep func(*world)) {
	hs := headers()
	var names []string
	for _, k := range []string{"chain_c1", "chain_c2", "chain_c3", "chain_c4", "chain_c5"} {
		if hs[k] == nil {
			break
		}
		names = append(names, k)
	}
	var jobs []*world
	defects := []string{"none", "kernel", "proof", "order", "nokernel", "header", "timestamp", "missing", "twoCoinbase"}
	for depth := 0; depth <= len(names); depth++ {
		for at := 1; at <= depth || at == 1; at++ {
			for _, d := range defects {
				for _, withGenesis := range []bool{true, false} {
					for second := 0; second < n(1, 3); second++ {
						g := chainGenesis()
						var main []*consensus.Block
						if withGenesis {
							main = append(main, g)
						}
						good := map[string]bool{}
						missing := -1
						for i := 1; i <= depth; i++ {
							h := hs[names[i-1]]
							b := bm.block(h, 1)
							valid := true
							if i == at || second == 1 && i == 1 {
								valid = d == "none" || d == "missing"
								switch d {
								case "kernel":
									breakKernel(&b.Kernels[0])
								case "proof":
									breakProof(&b.Outputs[0], bm.pool)
								case "order":
									b, _, _ = bm.build(shape{Outs: simple.Outs, Kers: [][3]interface{}{{2.0, true, true}, {1.0, false, true}}}, h)
								case "nokernel":
									b.Kernels = nil
								case "header":
									b.Header = h.change("kernelRoot", "bit").real()
								case "timestamp":
									b.Header.Timestamp = b.Header.Timestamp.Add(time.Second)
								case "twoCoinbase":
									b, _, _ = bm.build(shape{Outs: simple.Outs, Kers: [][3]interface{}{{1.0, true, true}, {2.0, true, true}}}, h)
								case "missing":
									missing = len(main)
								}
							}
							if valid {
								good[key(b)] = true
							}
							main = append(main, b)
						}
						var side []*consensus.Block
						if missing >= 0 && missing < len(main)-1 {
							main = append(main[:missing:missing], main[missing+1:]...)
						} else if missing >= 0 {
							main = main[:missing]
						}
						w := newWorld(g, main, side)
						for _, b := range main {
							if good[key(b)] {
								w.valid[w.id(b)] = true
							}
						}
						jobs = append(jobs, w)
						if depth > 0 && d == "none" { // another genesis: the chain leads elsewhere
							w2 := newWorld(&chain.Testnet4, main, nil)
							for _, b := range main {
								if good[key(b)] {
									w2.valid[w2.id(b)] = true
								}
							}
							jobs = append(jobs, w2)
						}
					}
				}
			}
		}
	}
	parallel(len(jobs), func(i int) {
		jobs[i].open()
		jobs[i].audit()
		jobs[i].audit()
	})
	for _, w := range jobs {
		keep(w)
	}
}

// ---------------------------------------------------------------- C09

func locatorScenarios(bm *bodyMaker, keep func(*world)) {
	unknown := func() []byte {
		b := make([]byte, 32)
		rng.Read(b)
		return b
	}
	for _, k := range []int{0, 1, 2, 3, 13, 14, 15, 100, 510, 511, 512, 513, 514, 515, 600}[:n(13, 15)] {
		l := line(k)
		var side []*consensus.Block
		for i := 0; i < 3; i++ {
			p := l[rng.Intn(len(l))]
			side = append(side, plain(p.Header.Height+1, hashOf(p), t0, 5, 5))
		}
		w := newWorld(l[0], l, side)
		w.store.sideKnown = k%2 == 0
		w.open()
		at := func(i int) []byte {
			if i > 1000 {
				return hashOf(side[i%3])
			}
			if i < 0 || i > k {
				return unknown()
			}
			return hashOf(l[i])
		}
		try := func(is ...int) {
			var loc [][]byte
			for _, i := range is {
				loc = append(loc, at(i))
			}
			w.headers(loc)
		}
		try()
		for a := 1001; a < 1004; a++ {
			try(a)
			try(a, rng.Intn(k+1))
			try(-1, a, 0)
		}
		if k <= 3 { // all short locators
			for a := -1; a <= k; a++ {
				try(a)
				for b := -1; b <= k; b++ {
					try(a, b)
					for c := -1; c <= k; c++ {
						try(a, b, c)
					}
				}
			}
		}
		for _, i := range []int{0, 1, k - 514, k - 513, k - 512, k - 511, k - 2, k - 1, k} {
			if i >= 0 {
				try(i)
				try(-1, i)
			}
		}
		for c := 0; c < n(25, 120); c++ {
			var is []int
			for j := 0; j < rng.Intn(20); j++ {
				is = append(is, -1)
			}
			for j := 0; j < rng.Intn(4); j++ {
				is = append(is, rng.Intn(k+1))
			}
			if rng.Intn(4) == 0 {
				is = append(is, k)
			}
			if rng.Intn(3) == 0 { // off the main chain
				is = append(is, 1001+rng.Intn(3))
			}
			if rng.Intn(4) == 0 {
				rng.Shuffle(len(is), func(a, b int) { is[a], is[b] = is[b], is[a] })
			}
			try(is...)
		}
		for p := 11; p <= 18; p++ { // known only at position p
			is := make([]int, p)
			for j := range is {
				is[j] = -1
			}
			is[p-1] = rng.Intn(k + 1)
			try(is...)
			try(append(is, 0)...)
		}
		keep(w)
	}
	// nothing stored: genesis is the tip
	l := line(0)
	w := newWorld(l[0], nil, nil)
	w.open()
	w.headers([][]byte{hashOf(l[0])})
	w.headers([][]byte{unknown(), hashOf(l[0])})
	w.headers(nil)
	keep(w)
}
