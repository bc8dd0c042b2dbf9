package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"github.com/sirupsen/logrus"
)

// A whole node with peers played by the harness. Every scenario runs in a
// process of its own: "nodes" runs a list of them side by side, "noderun" one.

func init() {
	commands["nodes"] = cmdNodes
	commands["noderun"] = cmdNodeRun
}

// ---------------------------------------------------------------- many scenarios

func cmdNodes() { runMany("noderun") }

// runMany runs every scenario of a list in a process of its own
// tableRace finds a report of the race detector about a map of gringo
func tableRace(s string) string {
	for _, b := range strings.Split(s, "WARNING: DATA RACE")[1:] {
		b = strings.Split(b, "==================")[0]
		l := strings.Split(b, "\n")
		for i, x := range l[:len(l)-1] {
			if (strings.HasPrefix(x, "Read at") || strings.HasPrefix(x, "Write at") || strings.HasPrefix(x, "Previous")) &&
				(strings.HasPrefix(l[i+1], "  runtime.map") || strings.HasPrefix(l[i+1], "  internal/runtime/maps.")) && strings.Contains(b, "dblokhin/gringo/") {
				if len(b) > 3000 {
					b = b[:3000]
				}
				return b
			}
		}
	}
	return ""
}

func runMany(sub string) {
	var list []json.RawMessage
	read(&list)
	dir, err := ioutil.TempDir(filepath.Dir(*out), sub+"-")
	fail(err)
	defer os.RemoveAll(dir)
	exe, err := os.Executable()
	fail(err)
	res := make([]json.RawMessage, len(list))
	width := 24
	fmt.Sscan(*extra, &width)
	sem := make(chan struct{}, width)
	var wg sync.WaitGroup
	for i := range list {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			a, b := filepath.Join(dir, fmt.Sprint("in", i)), filepath.Join(dir, fmt.Sprint("out", i))
			fail(ioutil.WriteFile(a, list[i], 0644))
			c := exec.Command(exe, sub, "-seed", fmt.Sprint(*seed+int64(i)), "-tier", *tier, "-in", a, "-out", b, "-fix", *fix)
			var eb bytes.Buffer
			c.Stderr = &eb
			c.Env = append(os.Environ(), "GORACE=exitcode=0")
			fail(c.Start())
			t := time.AfterFunc(10*time.Minute, func() { c.Process.Kill() })
			err := c.Wait()
			t.Stop()
			r, rerr := ioutil.ReadFile(b)
			if err != nil || rerr != nil {
				// what was recorded until the process ended
				s := eb.String()
				if strings.Contains(s, "vh: ") && c.ProcessState.ExitCode() == 3 {
					fail(errors.New(s))
				}
				if k := strings.Index(s, "panic"); k >= 0 {
					s = s[k:]
				}
				if len(s) > 3000 {
					s = s[:3000]
				}
				r, _ = json.Marshal(m{"crash": "the process ended: " + fmt.Sprint(err) + " " + s, "peers": []m{}, "steps": []m{}})
			}
			if x := tableRace(eb.String()); x != "" {
				r, _ = json.Marshal(m{"crash": "a table is used and changed at the same time: " + x, "peers": []m{}, "steps": []m{}})
			}
			res[i] = r
			os.Remove(a)
			os.Remove(b)
		}(i)
	}
	wg.Wait()
	write(res)
}

// ---------------------------------------------------------------- a chain for the node

type stubChain struct {
	sync.RWMutex
	h, td  uint64
	blocks map[string]*consensus.Block
	mu     sync.Mutex
	calls  []m
	pause  time.Duration // between the two halves of a change of the tip
	tips   []m           // every tip there was
	age    int           // how often its content has changed
}

func (c *stubChain) called(r m) {
	c.mu.Lock()
	c.calls = append(c.calls, r)
	c.mu.Unlock()
}

func (c *stubChain) taken() []m {
	c.mu.Lock()
	defer c.mu.Unlock()
	r := c.calls
	c.calls = nil
	if r == nil {
		r = []m{}
	}
	return r
}

// set changes the tip, as a chain would: under its lock
func (c *stubChain) set(h, td uint64) {
	c.Lock()
	defer c.Unlock()
	c.h = h
	time.Sleep(c.pause)
	c.td = td
	c.tips = append(c.tips, m{"h": w64(h), "td": w64(td)})
}

func (c *stubChain) Genesis() consensus.Block { return consensus.Block{} }
func (c *stubChain) Height() uint64 {
	time.Sleep(c.pause / 2)
	return c.h
}
func (c *stubChain) TotalDifficulty() consensus.Difficulty { return consensus.Difficulty(c.td) }
func (c *stubChain) GetBlock(h consensus.Hash) *consensus.Block {
	c.called(m{"fn": "getblock", "id": idOf(h)})
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.blocks[string(h)]
}

// keep changes what blocks there are
func (c *stubChain) keep(blocks map[string]*consensus.Block, age int) {
	c.Lock()
	defer c.Unlock()
	c.mu.Lock()
	defer c.mu.Unlock()
	c.blocks, c.age = blocks, age
}

// GetBlockHeaders gives a header for every hash of the locator, which tells the id of it; a big id makes it long.
// One more tells how old the chain is
func (c *stubChain) GetBlockHeaders(loc consensus.Locator) []consensus.BlockHeader {
	r := []consensus.BlockHeader{}
	ids := []int{}
	for _, h := range loc.Hashes {
		k := idOf(h)
		ids = append(ids, k)
		r = append(r, headerOf(uint64(k), 0, 0))
		for k == 10000 && len(r) < 512 {
			r = append(r, headerOf(uint64(k), 0, 0))
		}
	}
	c.called(m{"fn": "getheaders", "ids": ids})
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.age > 0 && len(r) < 512 {
		r = append(r, headerOf(uint64(20000+c.age), 0, 0))
	}
	return r
}

var refused = errors.New("refused by the rules")

func (c *stubChain) ProcessHeaders(l []consensus.BlockHeader) error {
	ids := []int{}
	bad := false
	for _, h := range l {
		ids = append(ids, int(h.Nonce/2))
		bad = bad || h.Nonce%2 == 1
	}
	c.called(m{"fn": "headers", "ids": ids})
	if bad {
		return refused
	}
	return nil
}

func (c *stubChain) ProcessBlock(b *consensus.Block) error {
	c.called(m{"fn": "block", "id": int(b.Header.Nonce / 2)})
	if b.Header.Nonce%2 == 1 {
		return refused
	}
	return nil
}

type stubPool struct{ c *stubChain }

func (p stubPool) ProcessTx(t *consensus.Transaction) error {
	p.c.called(m{"fn": "tx", "id": idOf(t.KernelOffset[:])})
	if t.KernelOffset[31] == 1 {
		return refused
	}
	return nil
}

func hashFor(id int) []byte {
	b := bytes.Repeat([]byte{0xa5}, 32)
	copy(b, be(uint32(id)))
	return b
}

func idOf(h []byte) int { return int(h[0])<<24 | int(h[1])<<16 | int(h[2])<<8 | int(h[3]) }

var baseHeader consensus.BlockHeader // made before the node starts

func headerOf(nonce, height, td uint64) consensus.BlockHeader {
	h := baseHeader
	h.Nonce, h.Height, h.TotalDifficulty = nonce, height, consensus.Difficulty(td)
	return h
}

// ---------------------------------------------------------------- scenarios

type frame map[string]interface{}

func (f frame) str(k string) string { s, _ := f[k].(string); return s }
func (f frame) num(k string) int    { x, _ := f[k].(float64); return int(x) }
func (f frame) yes(k string) bool   { x, _ := f[k].(bool); return x }
func limbs(v interface{}) (x uint64) {
	l, _ := v.([]interface{})
	for i := len(l) - 1; i >= 0; i-- {
		x = x<<16 | uint64(l[i].(float64))
	}
	return
}
func (f frame) word(k string) uint64 { return limbs(f[k]) }
func (f frame) list(k string) (r []int) {
	l, _ := f[k].([]interface{})
	for _, x := range l {
		r = append(r, int(x.(float64)))
	}
	return
}

type nodePeer struct {
	Host string   `json:"host"` // how the node is told of it: an IP, "localhost", ...
	Mode string   `json:"mode"`
	Caps []int    `json:"caps"`
	Td   []uint64 `json:"td"`
}

type nodeScenario struct {
	Kind   string     `json:"kind"`
	Txs    bool       `json:"txs"`
	Peers  []nodePeer `json:"peers"`
	Tip    frame      `json:"tip"`
	Blocks []int      `json:"blocks"`
	Pause  int        `json:"pause"`  // ms
	Settle int        `json:"settle"` // ms
	Real   bool       `json:"real"`   // with the real chain
	World  int64      `json:"world"`  // the seed of what is in it
	Steps  []frame    `json:"steps"`
}

func capBits(l []int) (c uint32) {
	for _, b := range l {
		c |= 1 << uint(b)
	}
	return
}

// a remote side, played by the harness
type remote struct {
	ix     int
	addr   string // as the node knows it
	ln     net.Listener
	p      nodePeer
	mu     sync.Mutex
	cond   *sync.Cond
	conn   net.Conn
	up     bool // handshake done
	got    []m
	hand   m
	open   int // connections that last
	count  int // connections there were
	stall  bool
	last   time.Time
	parent *nodeRun
}

type nodeRun struct {
	s      nodeScenario
	chain  *stubChain
	sync   *p2p.Syncer
	rs     []*remote
	blocks map[string]*consensus.Block
	w      *wireMaker
	real   *realWorld
}

func newRemote(n *nodeRun, ix int, p nodePeer) *remote {
	r := &remote{ix: ix, p: p, parent: n}
	r.cond = sync.NewCond(&r.mu)
	host := p.Host
	bind := host
	if host == "" {
		host = fmt.Sprintf("127.%d.%d.%d", 1+os.Getpid()%250, 1+(os.Getpid()/250)%250, ix+1)
		bind = host
	}
	if host == "localhost" || host == "mapped" {
		bind = "127.0.0.1"
	}
	if host == "mapped" {
		host = "::ffff:127.0.0.1"
	}
	l, err := net.Listen("tcp", net.JoinHostPort(bind, "0"))
	fail(err)
	r.ln = l
	r.addr = net.JoinHostPort(host, fmt.Sprint(l.Addr().(*net.TCPAddr).Port))
	go r.serve()
	return r
}

func (r *remote) serve() {
	r.mu.Lock()
	ln := r.ln
	r.mu.Unlock()
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		r.mu.Lock()
		r.open++
		r.count++
		r.conn = c
		r.mu.Unlock()
		if r.p.Mode != "again" {
			ln.Close()
		}
		go r.talk(c)
	}
}

func (r *remote) talk(c net.Conn) {
	defer func() {
		c.Close()
		r.mu.Lock()
		r.open--
		r.up = false
		r.last = time.Now()
		r.cond.Broadcast()
		r.mu.Unlock()
	}()
	if t, b, err := readFrame(c); err != nil || t != 1 {
		return
	} else {
		r.hand = parseHand(b)
	}
	td := uint64(1)
	if len(r.p.Td) == 4 {
		td = r.p.Td[0] | r.p.Td[1]<<16 | r.p.Td[2]<<32 | r.p.Td[3]<<48
	}
	shake := bytes.Join([][]byte{be(uint32(1), capBits(r.p.Caps), td), be(uint64(4)), []byte("test"), genesisHash()}, nil)
	if _, err := c.Write(frameOf(2, shake)); err != nil {
		return
	}
	r.mu.Lock()
	r.up = true
	r.last = time.Now()
	r.cond.Broadcast()
	r.mu.Unlock()
	for {
		r.mu.Lock()
		for r.stall {
			r.cond.Wait()
		}
		r.mu.Unlock()
		t, b, err := readFrame(c)
		if err != nil {
			if !strings.Contains(err.Error(), "EOF") && !strings.Contains(err.Error(), "closed") && !strings.Contains(err.Error(), "reset") {
				r.keep(m{"k": "garbled"})
			}
			return
		}
		r.keep(r.decode(t, b))
	}
}

func (r *remote) keep(x m) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.last = time.Now()
	// requests of the node are its own business
	if x["k"] != "ping" && x["k"] != "getaddrs" {
		r.got = append(r.got, x)
	}
}

func sum(b []byte) string { return fmt.Sprintf("%x", sha256.Sum256(b))[:16] }

// decode turns a message of the node into a record
func (r *remote) decode(t byte, b []byte) m {
	c := &cursor{b: b}
	var o m
	switch t {
	case 3:
		return m{"k": "ping"}
	case 4:
		o = m{"k": "pong", "td": w64(c.num(8)), "h": w64(c.num(8))}
	case 5:
		return m{"k": "getaddrs"}
	case 6:
		k := int(c.num(4))
		l := []string{}
		for i := 0; i < k && !c.bad; i++ {
			if c.num(1) == 0 {
				ip := net.IP(c.take(4))
				l = append(l, net.JoinHostPort(ip.String(), fmt.Sprint(c.num(2))))
			} else {
				ip := net.IP(c.take(16))
				l = append(l, net.JoinHostPort(ip.String(), fmt.Sprint(c.num(2))))
			}
		}
		o = m{"k": "addrs", "list": l}
	case 9:
		k := int(c.num(2))
		ids := []int{}
		for i := 0; i < k && !c.bad; i++ {
			h, rest := parseHdr(c.b)
			if h == nil {
				c.bad = true
				break
			}
			c.b = rest
			if x := r.parent.real; x != nil {
				id := x.heads[key(&consensus.Block{Header: h.real()})]
				ids = append(ids, id)
			} else {
				ids = append(ids, int(h.nonce))
			}
		}
		if r.parent.real == nil {
			ids = runs(ids)
		}
		o = m{"k": "headers", "loc": ids}
	case 11:
		return m{"k": "block", "sum": sum(b)}
	default:
		return m{"k": fmt.Sprint("type ", t)}
	}
	if c.bad || len(c.b) > 0 {
		return m{"k": "garbled"}
	}
	return o
}

// runs collapses the 512 headers of a big id
func runs(ids []int) []int {
	r := []int{}
	for i := 0; i < len(ids); {
		r = append(r, ids[i])
		if ids[i] == 10000 {
			j := i
			for j < len(ids) && ids[j] == ids[i] {
				j++
			}
			if j-i != 512 {
				return []int{-1}
			}
			i = j
		} else {
			i++
		}
	}
	return r
}

// encode makes the bytes of a message to the node
func (n *nodeRun) encode(f frame) []byte {
	if n.real != nil {
		n.resolve(f)
		if b := n.encodeReal(f); b != nil {
			return b
		}
	}
	switch k := f.str("k"); k {
	case "ping":
		return frameOf(3, be(f.word("td"), f.word("h")))
	case "pong":
		return frameOf(4, be(f.word("td"), f.word("h")))
	case "getaddrs":
		return frameOf(5, be(capBits(f.list("caps"))))
	case "addrs":
		b := []byte{}
		l, _ := f["list"].([]interface{})
		for _, x := range l {
			a := frame(x.(map[string]interface{}))
			b = append(b, encAddr(net.IP(unInts(a.list("ip"))), a.num("port"))...)
		}
		return frameOf(6, append(be(uint32(len(l))), b...))
	case "getheaders":
		b := []byte{}
		for _, x := range f.list("loc") {
			b = append(b, hashFor(x)...)
		}
		return frameOf(7, append([]byte{byte(len(f.list("loc")))}, b...))
	case "header":
		h := headerOf(n.nonce(f), 5, 5)
		return frameOf(8, h.Bytes())
	case "headers":
		b := be(uint16(f.num("n")))
		for i := 0; i < f.num("n"); i++ {
			x := uint64(f.num("id") * 2)
			if !f.yes("ok") && i == f.num("n")-1 {
				x++
			}
			h := headerOf(x, 5, 5)
			b = append(b, h.Bytes()...)
		}
		return frameOf(9, b)
	case "getblock":
		return frameOf(10, hashFor(f.num("id")))
	case "block":
		return frameOf(11, n.block(f).Bytes())
	case "getcompact":
		return frameOf(12, hashFor(1))
	case "compact":
		return frameOf(13, n.w.object("compact", 2).(*consensus.CompactBlock).Bytes())
	case "tx":
		t := n.w.object("tx", 2).(*consensus.Transaction)
		copy(t.KernelOffset[:], hashFor(f.num("id")))
		t.KernelOffset[31] = 0
		if !f.yes("ok") {
			t.KernelOffset[31] = 1
		}
		return frameOf(15, t.Bytes())
	case "magic":
		b := frameOf(3, be(uint64(1), uint64(2)))
		b[f.num("at")] ^= 1 << uint(f.num("bit"))
		return b
	case "long":
		b := frameOf(byte(f.num("type")), nil)
		copy(b[3:], be(f.word("len")))
		return append(b, make([]byte, 100)...)
	case "type":
		return frameOf(byte(f.num("type")), make([]byte, f.num("n")))
	case "malformed":
		g := frame(f["of"].(map[string]interface{}))
		b := n.encode(g)
		t, b := b[2], b[11:]
		b = b[:len(b)*f.num("part")/100]
		return frameOf(t, b)
	case "raw":
		return unInts(f.list("bytes"))
	}
	panic("no message of kind " + f.str("k"))
}

func (n *nodeRun) nonce(f frame) uint64 {
	x := uint64(f.num("id")) * 2
	if !f.yes("ok") {
		x++
	}
	return x
}

// block gives the same block for the same description
func (n *nodeRun) block(f frame) *consensus.Block {
	k := fmt.Sprint(f.num("id"), f.word("h"), f.word("td"), f.yes("ok"))
	if b := n.blocks[k]; b != nil {
		return b
	}
	b := n.w.object("block", 3).(*consensus.Block)
	b.Header = headerOf(n.nonce(f), f.word("h"), f.word("td"))
	n.blocks[k] = b
	return b
}

func (n *nodeRun) peerState(r *remote) m {
	o := m{"st": "none", "h": w64(0), "td": w64(0), "caps": []int{}, "open": false}
	if pi := n.sync.Pool.PeerInfo(r.addr); pi != nil {
		ok := make(chan bool)
		go func() {
			pi.Lock()
			o["st"] = []string{"new", "connected", "banned", "disconnected", "failed"}[int(pi.Status)]
			o["h"], o["td"] = w64(pi.Height), w64(uint64(pi.TotalDifficulty))
			caps := []int{}
			for i := uint(0); i < 32; i++ {
				if pi.Capabilities>>i&1 == 1 {
					caps = append(caps, int(i))
				}
			}
			o["caps"] = caps
			pi.Unlock()
			ok <- true
		}()
		select {
		case <-ok:
		case <-time.After(30 * time.Second):
			return m{"st": "locked", "h": w64(0), "td": w64(0), "caps": []int{}, "open": false}
		}
	}
	r.mu.Lock()
	o["open"] = r.open > 0
	r.mu.Unlock()
	return o
}

func (n *nodeRun) state() []m {
	l := []m{}
	for _, r := range n.rs {
		l = append(l, n.peerState(r))
	}
	return l
}

// quiet waits until nothing has happened for a while
func (n *nodeRun) quiet(d time.Duration) {
	start := time.Now()
	for time.Since(start) < 20*time.Second {
		time.Sleep(d / 4)
		since := start
		for _, r := range n.rs {
			r.mu.Lock()
			if r.last.After(since) {
				since = r.last
			}
			r.mu.Unlock()
		}
		if time.Since(since) >= d {
			return
		}
	}
}

func (n *nodeRun) taken() [][]m {
	l := [][]m{}
	for _, r := range n.rs {
		r.mu.Lock()
		g := r.got
		r.got = nil
		r.mu.Unlock()
		if g == nil {
			g = []m{}
		}
		l = append(l, g)
	}
	return l
}

// put sends bytes to the node, as far as it lets us
func (r *remote) put(b []byte) {
	r.mu.Lock()
	c := r.conn
	r.mu.Unlock()
	if c != nil {
		c.SetWriteDeadline(time.Now().Add(10 * time.Second))
		c.Write(b)
	}
}

func cmdNodeRun() {
	logrus.SetLevel(logrus.DebugLevel)
	var s nodeScenario
	read(&s)
	time.AfterFunc(300*time.Second+time.Duration(len(s.Steps)*s.Settle*10)*time.Millisecond, func() { panic("harness: it takes too long") })
	if s.World != 0 {
		rng = rand.New(rand.NewSource(s.World))
	}
	n := &nodeRun{s: s, blocks: map[string]*consensus.Block{}, w: newNodeMaker()}
	baseHeader = plain(1, hashFor(7), t0, 1, 1).Header
	n.chain = &stubChain{h: s.Tip.word("h"), td: s.Tip.word("td"), blocks: map[string]*consensus.Block{}, pause: time.Duration(s.Pause) * time.Millisecond}
	var chainOf p2p.Blockchain = n.chain
	if s.Real {
		n.real = newRealWorld()
		w := n.real.w
		tip := w.genesis
		if k := len(w.store.main); k > 0 {
			tip = w.store.main[k-1]
		}
		n.chain.h, n.chain.td = tip.Header.Height, uint64(tip.Header.TotalDifficulty)
		chainOf = realChain{chain.New(copyBlock(w.genesis), w.store), n}
		s.Blocks = nil
	}
	n.chain.tips = []m{{"h": w64(n.chain.h), "td": w64(n.chain.td)}}
	made := map[int]*consensus.Block{}
	keep := func(ids []int) map[string]*consensus.Block {
		l := map[string]*consensus.Block{}
		for _, id := range ids {
			if made[id] == nil {
				made[id] = n.block(frame{"id": float64(id), "ok": true})
				made[id].Bytes() // sorts its lists; what a chain has is sorted
			}
			l[string(hashFor(id))] = made[id]
		}
		return l
	}
	n.chain.blocks = keep(s.Blocks)
	for _, st := range s.Steps {
		keep(st.list("blocks"))
	}
	var pool p2p.Mempool
	if s.Txs {
		pool = stubPool{n.chain}
	}
	addrs := []string{}
	for i, p := range s.Peers {
		r := newRemote(n, i, p)
		n.rs = append(n.rs, r)
		addrs = append(addrs, r.addr)
	}
	n.sync = p2p.NewSyncer(addrs, chainOf, pool)
	go n.sync.Run()
	settle := time.Duration(s.Settle) * time.Millisecond

	// everybody gets connected
	deadline := time.Now().Add(time.Duration(len(n.rs)*2+10) * time.Second)
	for _, r := range n.rs {
		for {
			r.mu.Lock()
			up := r.up
			r.mu.Unlock()
			if up || time.Now().After(deadline) {
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	n.quiet(settle)
	n.taken()
	rec := m{"crash": "", "kind": s.Kind, "txs": s.Txs, "start": n.state()}
	as := []string{}
	for _, r := range n.rs {
		as = append(as, r.addr)
	}
	steps := []m{}
	kept := append([]int{}, s.Blocks...)
	for _, st := range s.Steps {
		o := m{"before": n.state()}
		if r := st.num("from"); s.Real && r > 0 && !o["before"].([]m)[r-1]["open"].(bool) {
			continue // nobody there
		}
		for k, v := range st {
			o[k] = v
		}
		n.chain.taken()
		n.chain.RLock()
		tip := m{"h": w64(n.chain.h), "td": w64(n.chain.td)}
		n.chain.RUnlock()
		o["tip"], o["kept"], o["age"] = tip, kept, n.chain.age
		n.chain.Lock()
		n.chain.tips = []m{tip}
		n.chain.Unlock()
		switch st.str("op") {
		case "frame":
			f := frame(st["f"].(map[string]interface{}))
			r := n.rs[st.num("from")-1]
			if f.str("k") == "close" {
				r.mu.Lock()
				if r.conn != nil {
					r.conn.Close()
				}
				r.mu.Unlock()
			} else {
				b := n.encode(f)
				if f.str("k") == "block" {
					o["sum"] = sum(b[11:])
				}
				// in pieces, as a network may deliver it
				for len(b) > 0 {
					k := len(b)
					if s.Kind != "plain" && rng.Intn(4) == 0 {
						k = 1 + rng.Intn(k)
					}
					r.put(b[:k])
					b = b[k:]
					if len(b) > 0 {
						time.Sleep(time.Millisecond)
					}
				}
			}
		case "stream":
			b := []byte{}
			fs, _ := st["fs"].([]interface{})
			for _, x := range fs {
				f := frame(x.(map[string]interface{}))
				e := n.encode(f)
				if f.str("k") == "block" {
					o["sum"] = sum(e[11:])
				}
				b = append(b, e...)
			}
			n.rs[st.num("from")-1].put(b)
		case "fuzz":
			// damaged bytes, and nothing behind them
			r := n.rs[st.num("from")-1]
			b := damage(n.encode(frame(st["of"].(map[string]interface{}))))
			o["bytes"] = ints(b)
			r.put(b)
			r.mu.Lock()
			if c, ok := r.conn.(*net.TCPConn); ok {
				c.CloseWrite()
			}
			r.mu.Unlock()
		case "return":
			// it listens again, and its connection ends: the node comes back
			r := n.rs[st.num("from")-1]
			l, err := net.Listen("tcp", r.ln.Addr().String())
			fail(err)
			r.mu.Lock()
			r.ln = l
			c, count := r.conn, r.count
			r.mu.Unlock()
			go r.serve()
			if f := frame(st["f"].(map[string]interface{})); f.str("k") == "close" {
				c.Close()
			} else {
				r.put(n.encode(f))
			}
			until(20*time.Second, func() bool {
				r.mu.Lock()
				defer r.mu.Unlock()
				return r.up && r.count > count
			})
			time.Sleep(time.Duration(st.num("ms")) * time.Millisecond)
		case "store":
			kept = append([]int{}, st.list("blocks")...)
			l := keep(kept)
			o["crash"] = catchFor(20*time.Second, func() { n.chain.keep(l, st.num("age")) })
		case "tip":
			t := frame(st["to"].(map[string]interface{}))
			o["crash"] = catchFor(20*time.Second, func() { n.chain.set(t.word("h"), t.word("td")) })
		case "burst":
			// everybody sends its list at once, while the tip changes
			var wg sync.WaitGroup
			fs, _ := st["lists"].([]interface{})
			for i := range fs {
				data := []byte{}
				ls, _ := fs[i].([]interface{})
				for _, x := range ls {
					data = append(data, n.encode(frame(x.(map[string]interface{})))...)
				}
				wg.Add(1)
				go func(i int, data []byte) {
					defer wg.Done()
					n.rs[i].put(data)
				}(i, data)
			}
			ts, _ := st["tips"].([]interface{})
			o["crash"] = catchFor(30*time.Second, func() {
				for _, x := range ts {
					t := frame(x.(map[string]interface{}))
					n.chain.set(t.word("h"), t.word("td"))
					time.Sleep(time.Millisecond)
				}
			})
			wg.Wait()
		case "stall":
			r := n.rs[st.num("from")-1]
			r.mu.Lock()
			r.stall = true
			r.mu.Unlock()
			// requests with big answers that nobody takes off the wire
			f := n.encode(frame{"k": "getheaders", "loc": []interface{}{10000.0}})
			f = append(f, n.encode(frame(st["f"].(map[string]interface{})))...)
			go r.put(bytes.Repeat(f, 200))
			time.Sleep(500 * time.Millisecond)
		}
		if s.Real {
			// the rules take their time, with the chain's lock held
			time.Sleep(settle)
			l := chainOf.(sync.Locker)
			if c := catchFor(30*time.Second, func() { l.Lock(); l.Unlock() }); c != "" {
				o["crash"] = "the chain is locked for good"
			}
		}
		if st.str("op") == "burst" {
			n.quiet(5 * settle)
		} else {
			n.quiet(settle)
		}
		o["got"] = n.taken()
		o["after"] = n.state()
		o["calls"] = n.chain.taken()
		if o["crash"] == nil {
			o["crash"] = ""
		}
		if l := chainOf.(interface{ TryRLock() bool }); o["crash"] != "" {
			o["tips"] = []m{}
		} else if l.TryRLock() {
			o["tips"] = n.chain.tips
			chainOf.RUnlock()
		} else {
			o["tips"] = []m{}
			o["crash"] = "the chain is locked for good"
		}
		steps = append(steps, o)
		if o["crash"] != "" {
			break
		}
	}
	rec["steps"] = steps
	rec["peers"] = s.Peers
	rec["addrs"] = as
	bs := []m{}
	if !s.Real {
		s.Blocks = []int{}
		for id, b := range made {
			s.Blocks = append(s.Blocks, id)
			bs = append(bs, m{"id": id, "sum": sum(b.Bytes())})
		}
	}
	if s.Real {
		rec["world"] = m{"store": n.real.w.scenario(), "all": n.real.list()}
		for _, b := range append(append([]*consensus.Block{}, n.real.w.store.main...), n.real.w.store.side...) {
			s.Blocks = append(s.Blocks, n.real.w.known(b))
			bs = append(bs, m{"id": n.real.w.known(b), "sum": sum(copyBlock(b).Bytes())})
		}
		if s.Blocks == nil {
			s.Blocks = []int{}
		}
	}
	rec["blocks"] = s.Blocks
	rec["blockSums"] = bs
	write(rec)
}

// newNodeMaker makes small objects, without the cost of many proofs
func newNodeMaker() *wireMaker {
	w := &wireMaker{coins: coins(2)}
	for i := 0; i < 3; i++ {
		k, _ := newKernel(byte(rng.Intn(2)))
		w.kers = append(w.kers, k)
	}
	w.hs = wholeHeaders()
	return w
}
