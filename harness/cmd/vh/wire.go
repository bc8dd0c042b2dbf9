package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"runtime"
	"sync"
	"testing/iotest"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
)

func init() { commands["wire"] = cmdWire }

func w32(x uint32) [2]int { return [2]int{int(x & 0xffff), int(x >> 16)} }

// ---------------------------------------------------------------- objects as records

func recHeader(h consensus.BlockHeader) m {
	ns := [][2]int{}
	for _, x := range h.POW.Nonces {
		ns = append(ns, w32(x))
	}
	return m{"ver": int(h.Version), "height": w64(h.Height), "ts": w64(uint64(h.Timestamp.Unix())), "prev": ints(h.Previous), "prevRoot": ints(h.PreviousRoot),
		"utxo": ints(h.UTXORoot), "rproof": ints(h.RangeProofRoot), "kern": ints(h.KernelRoot), "offset": ints(h.TotalKernelOffset),
		"outMmr": w64(h.OutputMmrSize), "kernMmr": w64(h.KernelMmrSize), "td": w64(uint64(h.TotalDifficulty)), "scaling": w32(h.ScalingDifficulty),
		"nonce": w64(h.Nonce), "eb": int(h.POW.EdgeBits), "nonces": ns}
}

func recInput(x consensus.Input) m { return m{"f": int(x.Features), "commit": ints(x.Commit)} }
func recOutput(x consensus.Output) m {
	return m{"f": int(x.Features), "commit": ints(x.Commit.Bytes()), "proof": ints(x.RangeProof.Bytes())}
}
func recKernel(x consensus.TxKernel) m {
	return m{"f": int(x.Features), "fee": w64(x.Fee), "lock": w64(x.LockHeight), "excess": ints(x.Excess.Bytes()), "sig": ints(x.ExcessSig[:])}
}

func recLists(o m, ins consensus.InputList, outs consensus.OutputList, kers consensus.TxKernelList) m {
	a, b, c := []m{}, []m{}, []m{}
	for _, x := range ins {
		a = append(a, recInput(x))
	}
	for _, x := range outs {
		b = append(b, recOutput(x))
	}
	for _, x := range kers {
		c = append(c, recKernel(x))
	}
	o["ins"], o["outs"], o["kers"] = a, b, c
	return o
}

func hashList(l []consensus.Hash) [][]int {
	r := [][]int{}
	for _, x := range l {
		r = append(r, ints(x))
	}
	return r
}

// with adds the fields of b to a copy of a
func with(a, b m) m {
	c := m{}
	for k, v := range a {
		c[k] = v
	}
	for k, v := range b {
		c[k] = v
	}
	return c
}

// readBack is the record of an object that was read, which may be in no state to be looked at
func readBack(x interface{}) (r m) {
	defer func() {
		if e := recover(); e != nil {
			r = m{"kind": fmt.Sprint("unusable: ", e)}
		}
	}()
	return recOf(x)
}

// recOf is the record of a real object, without the kind for parts
func recOf(x interface{}) m {
	switch o := x.(type) {
	case *p2p.Ping:
		return m{"kind": "ping", "td": w64(uint64(o.TotalDifficulty)), "height": w64(o.Height)}
	case *p2p.Pong:
		return m{"kind": "pong", "td": w64(uint64(o.TotalDifficulty)), "height": w64(o.Height)}
	case *p2p.GetPeerAddrs:
		return m{"kind": "getaddrs", "caps": w32(uint32(o.Capabilities))}
	case *p2p.GetBlock:
		return m{"kind": "getblock", "hash": ints(o.Hash)}
	case *p2p.GetBlockHeaders:
		return m{"kind": "getheaders", "hashes": hashList(o.Locator.Hashes)}
	case *consensus.Locator:
		return m{"kind": "locator", "hashes": hashList(o.Hashes)}
	case *p2p.BlockHeader:
		return m{"kind": "header", "h": recHeader(o.Header)}
	case *consensus.BlockHeader:
		return m{"kind": "header", "h": recHeader(*o)}
	case *p2p.BlockHeaders:
		l := []m{}
		for _, h := range o.Headers {
			l = append(l, recHeader(h))
		}
		return m{"kind": "headers", "hs": l}
	case *p2p.PeerError:
		return m{"kind": "error", "code": w32(o.Code), "msg": ints([]byte(o.Message))}
	case *consensus.Block:
		return recLists(m{"kind": "block", "h": recHeader(o.Header)}, o.Inputs, o.Outputs, o.Kernels)
	case *consensus.CompactBlock:
		r := recLists(m{"kind": "compact", "h": recHeader(o.Header)}, nil, o.Outputs, o.Kernels)
		ids := [][]int{}
		for _, id := range o.KernelIDs {
			ids = append(ids, ints(id))
		}
		r["ids"] = ids
		return r
	case *consensus.Transaction:
		return recLists(m{"kind": "tx", "offset": ints(o.KernelOffset[:])}, o.Inputs, o.Outputs, o.Kernels)
	case *consensus.Proof:
		ns := [][2]int{}
		for _, x := range o.Nonces {
			ns = append(ns, w32(x))
		}
		return m{"kind": "proof", "eb": int(o.EdgeBits), "nonces": ns}
	case *consensus.Input:
		return with(recInput(*o), m{"kind": "input"})
	case *consensus.Output:
		return with(recOutput(*o), m{"kind": "output"})
	case *consensus.TxKernel:
		return with(recKernel(*o), m{"kind": "kernel"})
	}
	panic(fmt.Sprintf("no record of %T", x))
}

type readable interface{ Read(io.Reader) error }
type writable interface{ Bytes() []byte }

// blank makes an empty object to read into
func blank(kind string) readable {
	switch kind {
	case "ping":
		return &p2p.Ping{}
	case "pong":
		return &p2p.Pong{}
	case "getaddrs":
		return &p2p.GetPeerAddrs{}
	case "addrs":
		return &p2p.PeerAddrs{}
	case "getblock":
		return &p2p.GetBlock{}
	case "getheaders":
		return &p2p.GetBlockHeaders{}
	case "locator":
		return &consensus.Locator{}
	case "header":
		return &p2p.BlockHeader{}
	case "headers":
		return &p2p.BlockHeaders{}
	case "error":
		return &p2p.PeerError{}
	case "block":
		return &consensus.Block{}
	case "compact":
		return &consensus.CompactBlock{}
	case "tx":
		return &consensus.Transaction{}
	case "proof":
		return &consensus.Proof{}
	case "input":
		return &consensus.Input{}
	case "output":
		return &consensus.Output{}
	case "kernel":
		return &consensus.TxKernel{}
	}
	panic("no object of kind " + kind)
}

// ---------------------------------------------------------------- making objects

type wireMaker struct {
	coins []coin
	kers  []consensus.TxKernel
	hs    []*hdr
}

func newWireMaker() *wireMaker {
	w := &wireMaker{coins: coins(n(8, 24))}
	for i := 0; i < n(24, 60); i++ {
		k, _ := newKernel(byte(rng.Intn(2)))
		w.kers = append(w.kers, k)
	}
	w.hs = wholeHeaders()
	return w
}

func randBytes(k int) []byte {
	b := make([]byte, k)
	rng.Read(b)
	return b
}

var words = []uint64{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 0x0102030405060708}

func word() uint64 {
	if rng.Intn(3) == 0 {
		return words[rng.Intn(len(words))]
	}
	return rng.Uint64() >> uint(rng.Intn(64))
}

func (w *wireMaker) proof() consensus.Proof {
	eb := []uint8{1, 2, 7, 8, 15, 16, 17, 19, 24, 27, 28, 29, 30, 31, 32, 33, 40, 48, 63, 64}[rng.Intn(20)]
	p := consensus.Proof{EdgeBits: eb}
	for i := 0; i < 42; i++ {
		x := rng.Uint32()
		switch rng.Intn(5) {
		case 0:
			x = 1<<32 - 1
		case 1:
			x = 0
		}
		if eb < 32 {
			x &= 1<<eb - 1
		}
		p.Nonces = append(p.Nonces, x)
	}
	return p
}

func (w *wireMaker) header() consensus.BlockHeader {
	if rng.Intn(4) == 0 {
		return w.hs[rng.Intn(len(w.hs))].real()
	}
	return consensus.BlockHeader{Version: uint16(word()), Height: word(), Timestamp: w.time(), Previous: randBytes(32), PreviousRoot: randBytes(32),
		UTXORoot: randBytes(32), RangeProofRoot: randBytes(32), KernelRoot: randBytes(32), TotalKernelOffset: randBytes(32),
		OutputMmrSize: word(), KernelMmrSize: word(), TotalDifficulty: consensus.Difficulty(word()), ScalingDifficulty: uint32(word()), Nonce: word(), POW: w.proof()}
}

func (w *wireMaker) time() time.Time {
	t := time.Unix([]int64{0, 1, -1, t0, 1 << 32, -1 << 40, 253402300799, 1 << 55}[rng.Intn(8)], 0)
	if rng.Intn(2) == 0 {
		t = time.Unix(rng.Int63n(1<<33), rng.Int63n(1000000000))
	}
	if rng.Intn(2) == 0 {
		return t.In(time.FixedZone("x", 3600*rng.Intn(12)))
	}
	return t.UTC()
}

func (w *wireMaker) input() consensus.Input {
	return consensus.Input{Features: consensus.OutputFeatures(rng.Intn(256)), Commit: append([]byte{8 + byte(rng.Intn(2))}, randBytes(32)...)}
}
func (w *wireMaker) output() consensus.Output {
	return w.coins[rng.Intn(len(w.coins))].output(byte([]int{0, 1, 1, 2, 255}[rng.Intn(5)]))
}
func (w *wireMaker) kernel() consensus.TxKernel {
	k := w.kers[rng.Intn(len(w.kers))]
	if rng.Intn(2) == 0 {
		k.Features, k.Fee, k.LockHeight = consensus.KernelFeatures(rng.Intn(256)), word(), word()
		copy(k.ExcessSig[:], randBytes(64))
	}
	return k
}

// lists of elements; outputs differ in what their hash covers, unless they are the same
func (w *wireMaker) lists(max int) (ins consensus.InputList, outs consensus.OutputList, kers consensus.TxKernelList) {
	count := func() int {
		if rng.Intn(4) == 0 {
			return rng.Intn(max + 1)
		}
		return rng.Intn(3)
	}
	for i := count(); i > 0; i-- {
		ins = append(ins, w.input())
	}
	for i := count(); i > 0; i-- {
		outs = append(outs, w.output())
	}
	for i := count(); i > 0; i-- {
		kers = append(kers, w.kernel())
	}
	if len(ins) > 0 && rng.Intn(4) == 0 {
		ins = append(ins, ins[rng.Intn(len(ins))])
	}
	if len(outs) > 0 && rng.Intn(4) == 0 {
		outs = append(outs, outs[rng.Intn(len(outs))])
	}
	if len(kers) > 0 && rng.Intn(4) == 0 {
		kers = append(kers, kers[rng.Intn(len(kers))])
	}
	return
}

func (w *wireMaker) ids(max int) (l consensus.ShortIDList) {
	for i := rng.Intn(max + 1); i > 0; i-- {
		id := consensus.ShortID(randBytes(6))
		if rng.Intn(3) == 0 {
			copy(id, []byte{0, 0, 0, 0, 0})
		}
		l = append(l, id)
		if rng.Intn(6) == 0 {
			l = append(l, append(consensus.ShortID{}, id...))
		}
	}
	return
}

func (w *wireMaker) hashes(k int) (l []consensus.Hash) {
	for i := 0; i < k; i++ {
		l = append(l, randBytes(32))
	}
	return
}

func text() string {
	switch rng.Intn(5) {
	case 0:
		return ""
	case 1:
		return string(randBytes(rng.Intn(300)))
	case 2:
		return "gringo v0.0.1 \u00e9\u4e16\x00\xff"
	}
	return string(randBytes(rng.Intn(20)))
}

// object makes a random object of a kind
func (w *wireMaker) object(kind string, max int) readable {
	switch kind {
	case "ping":
		return &p2p.Ping{TotalDifficulty: consensus.Difficulty(word()), Height: word()}
	case "pong":
		return &p2p.Pong{Ping: p2p.Ping{TotalDifficulty: consensus.Difficulty(word()), Height: word()}}
	case "getaddrs":
		return &p2p.GetPeerAddrs{Capabilities: consensus.Capabilities(word())}
	case "getblock":
		return &p2p.GetBlock{Hash: randBytes(32)}
	case "getheaders":
		return &p2p.GetBlockHeaders{Locator: consensus.Locator{Hashes: w.hashes(rng.Intn(15))}}
	case "locator":
		return &consensus.Locator{Hashes: w.hashes([]int{0, 1, 2, 13, 14}[rng.Intn(5)])}
	case "header":
		return &p2p.BlockHeader{Header: w.header()}
	case "headers":
		h := &p2p.BlockHeaders{}
		for i := rng.Intn(4); i > 0; i-- {
			h.Headers = append(h.Headers, w.header())
		}
		return h
	case "error":
		return &p2p.PeerError{Code: uint32(word()), Message: text()}
	case "block":
		b := &consensus.Block{Header: w.header()}
		b.Inputs, b.Outputs, b.Kernels = w.lists(max)
		return b
	case "compact":
		b := &consensus.CompactBlock{Header: w.header(), KernelIDs: w.ids(max)}
		_, b.Outputs, b.Kernels = w.lists(max)
		return b
	case "tx":
		t := &consensus.Transaction{}
		rng.Read(t.KernelOffset[:])
		t.Inputs, t.Outputs, t.Kernels = w.lists(max)
		return t
	case "proof":
		p := w.proof()
		return &p
	case "input":
		x := w.input()
		return &x
	case "output":
		x := w.output()
		return &x
	case "kernel":
		x := w.kernel()
		return &x
	}
	panic(kind)
}

// ---------------------------------------------------------------- reading

type counter struct {
	r    io.Reader
	used int
}

func (c *counter) Read(p []byte) (int, error) {
	k, err := c.r.Read(p)
	c.used += k
	return k, err
}

// how readers may hand over their bytes
var styles = []string{"whole", "one", "half", "dataErr"}

func styled(style string, r io.Reader) io.Reader {
	switch style {
	case "one":
		return iotest.OneByteReader(r)
	case "half":
		return iotest.HalfReader(r)
	case "dataErr":
		return iotest.DataErrReader(r)
	}
	return r
}

var allocMu sync.Mutex

// readAs reads an object of a kind from r
func readAs(kind string, frame bool, r io.Reader, measure bool) (readable, m) {
	c := &counter{r: r}
	o := blank(kind)
	var err error
	var before, after runtime.MemStats
	if measure {
		allocMu.Lock()
		defer allocMu.Unlock()
		runtime.ReadMemStats(&before)
	}
	crash := catchFor(5*time.Minute, func() {
		if frame {
			_, err = p2p.ReadMessage(c, o.(p2p.Message))
		} else {
			err = o.Read(c)
		}
	})
	res := m{"ok": err == nil && crash == "", "err": fmt.Sprint(err), "used": c.used, "crash": crash, "alloc": 0}
	if measure {
		runtime.ReadMemStats(&after)
		res["alloc"] = int((after.TotalAlloc - before.TotalAlloc) >> 20)
	}
	return o, res
}

// ---------------------------------------------------------------- commands

func cmdWire() {
	switch *extra {
	case "objects":
		write(wireObjects())
	case "hostile":
		write(wireHostile())
	case "canon":
		write(wireCanon())
	}
}

var kinds = []string{"ping", "pong", "getaddrs", "getblock", "getheaders", "locator", "header", "headers", "error", "block", "compact", "tx", "proof", "input", "output", "kernel"}

func wireObjects() []m {
	w := newWireMaker()
	type job struct {
		kind string
		o    readable
	}
	var jobs []job
	for _, k := range kinds {
		for i := 0; i < n(14, 120); i++ {
			jobs = append(jobs, job{k, w.object(k, 5)})
		}
	}
	res := make([]m, len(jobs))
	for i, j := range jobs {
		o := j.o
		r := m{"op": "object", "kind": j.kind, "obj": recOf(o), "crash": ""}
		var b []byte
		frame := new(bytes.Buffer)
		var written uint64
		var werr error
		hashes := m{}
		crash := catch(func() {
			b = append([]byte{}, o.(writable).Bytes()...)
			if msg, ok := o.(p2p.Message); ok {
				written, werr = p2p.WriteMessage(frame, msg)
			}
			r["again"] = bytes.Equal(b, o.(writable).Bytes())
			switch x := o.(type) {
			case *consensus.Block:
				hashes["block"] = ints(x.Hash())
			case *consensus.CompactBlock:
				hashes["block"] = ints(x.Hash())
			case *p2p.BlockHeader:
				hashes["block"] = ints(x.Header.Hash())
				hashes["proof"] = ints(x.Header.POW.Hash())
				hashes["work"] = w64(uint64(x.Header.POW.ToDifficulty()))
			case *consensus.Input:
				hashes["elem"] = ints(x.Hash())
			case *consensus.Output:
				hashes["elem"] = ints(x.Hash())
			case *consensus.TxKernel:
				hashes["elem"] = ints(x.Hash())
			}
		})
		r["bytes"], r["hashes"] = ints(b), hashes
		if frame.Len() > 0 {
			f := frame.Bytes()
			k := 11
			if len(f) < k {
				k = len(f)
			}
			r["head"], r["body"], r["written"] = ints(f[:k]), bytes.Equal(f[k:], b), written
		} else {
			r["head"], r["body"], r["written"] = []int{}, true, 0
		}
		if werr != nil {
			crash += fmt.Sprint(" write error: ", werr)
		}
		r["crash"] = crash
		// read back, with more bytes behind
		back := []m{}
		if crash == "" {
			for _, s := range styles {
				x, res := readAs(j.kind, false, styled(s, bytes.NewReader(append(append([]byte{}, b...), 0xde, 0xad, 0xbe, 0xef))), false)
				res["style"] = s
				res["obj"] = m{"kind": ""}
				if res["ok"].(bool) {
					res["obj"] = readBack(x)
				}
				back = append(back, res)
				if frame.Len() > 0 {
					x, res := readAs(j.kind, true, styled(s, bytes.NewReader(append(append([]byte{}, frame.Bytes()...), 0xde, 0xad))), false)
					res["style"] = s + " frame"
					res["obj"] = m{"kind": ""}
					res["used"] = res["used"].(int) - 11
					if res["ok"].(bool) {
						res["obj"] = readBack(x)
					}
					back = append(back, res)
				}
			}
			r["back"] = dedup(back)
			// every shorter string
			r["prefixes"] = prefixes(j.kind, b)
		} else {
			r["back"], r["prefixes"] = []m{}, []int{}
		}
		res[i] = r
	}
	for i, j := range jobs {
		j, r := j, res[i]
		if r["crash"] != "" {
			r["sum"], r["later"] = "", []interface{}{}
			continue
		}
		b := append([]byte{}, j.o.(writable).Bytes()...)
		r["sum"] = sum(b)
		// written, and written from what is read of it
		later(r, func() interface{} {
			o := blank(j.kind)
			if err := o.Read(bytes.NewReader(b)); err != nil {
				return fmt.Sprint("not read: ", err)
			}
			x := o.(writable).Bytes()
			switch o := o.(type) {
			case *consensus.Block:
				o.Hash()
			case *p2p.BlockHeader:
				o.Header.Hash()
			}
			return sum(x)
		})
	}
	askAgain()
	res = append(res, wireAddrs()...)
	res = append(res, wireShakes()...)
	res = append(res, wireSends(w)...)
	return res
}

// prefixes lists the lengths at which a cut short string is read all the same
func prefixes(kind string, b []byte) []int {
	l := []int{}
	for k := 0; k < len(b); k++ {
		if len(b) > 1500 && rng.Intn(4) > 0 && k < len(b)-80 && k > 300 {
			continue
		}
		if _, res := readAs(kind, false, bytes.NewReader(b[:k]), false); res["ok"].(bool) || res["crash"] != "" {
			l = append(l, k)
		}
	}
	return l
}

// dedup keeps one of the results that look alike
func dedup(l []m) []m {
	res := []m{}
	seen := map[string]bool{}
	for _, x := range l {
		k := fmt.Sprint(x["ok"], x["used"], x["crash"], x["obj"])
		if !seen[k] {
			seen[k] = true
			res = append(res, x)
		}
	}
	return res
}

func recAddr(ip net.IP, port int) m { return m{"ip": ints(ip), "port": port} }

func wireAddrs() []m {
	res := []m{}
	for i := 0; i < n(30, 200); i++ {
		s := p2p.NewSyncer(nil, nil, nil)
		l := []m{}
		seen := map[string]bool{}
		for k := rng.Intn([]int{3, 8, 40, 257}[rng.Intn(4)]); k > 0; k-- {
			var ip net.IP
			switch rng.Intn(3) {
			case 0:
				ip = net.IP{byte(1 + rng.Intn(200)), byte(rng.Intn(256)), byte(rng.Intn(256)), byte(rng.Intn(256))}
			case 1:
				ip = randBytes(16)
				ip[0] = 0x20
			default:
				ip = net.IP(append(bytes.Repeat([]byte{0}, 15), byte(1+rng.Intn(255))))
			}
			a := &net.TCPAddr{IP: ip, Port: 1 + rng.Intn(65535)}
			if seen[a.String()] {
				continue
			}
			seen[a.String()] = true
			s.Pool.Add(a.String())
			l = append(l, recAddr(ip, a.Port))
		}
		r := m{"op": "addrs", "addrs": l}
		var b, again []byte
		var err error
		used := 0
		r["crash"] = catch(func() {
			msg := s.Pool.Peers(0)
			b = msg.Bytes()
			var x p2p.PeerAddrs
			c := &counter{r: bytes.NewReader(append(append([]byte{}, b...), 1, 2, 3))}
			err = x.Read(c)
			used = c.used
			again = x.Bytes()
		})
		r["bytes"], r["again"], r["ok"], r["used"] = ints(b), bytes.Equal(b, again), err == nil, used
		r["prefixes"] = prefixes("addrs", b)
		res = append(res, r)
	}
	return res
}

// buffered pipe: what one side writes the other can read later
func pipe() (net.Conn, net.Conn) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	fail(err)
	defer l.Close()
	c := make(chan net.Conn)
	go func() {
		x, err := l.Accept()
		fail(err)
		c <- x
	}()
	a, err := net.Dial("tcp", l.Addr().String())
	fail(err)
	return a, <-c
}

var testnet4 = recHeader(chain.Testnet4.Header)

func encAddr(ip net.IP, port int) []byte {
	if x := ip.To4(); x != nil {
		return append(append([]byte{0}, x...), be(uint16(port))...)
	}
	return append(append([]byte{1}, ip...), be(uint16(port))...)
}

func frameOf(t byte, body []byte) []byte {
	return append(append([]byte{0x54, 0x34, t}, be(uint64(len(body)))...), body...)
}

func genesisHash() []byte {
	h := hdr{eb: chain.Testnet4.Header.POW.EdgeBits, nonces: chain.Testnet4.Header.POW.Nonces}
	return h.hash()
}

func readFrame(c net.Conn) (byte, []byte, error) {
	head := make([]byte, 11)
	if _, err := io.ReadFull(c, head); err != nil {
		return 0, nil, err
	}
	if head[0] != 0x54 || head[1] != 0x34 {
		return 0, nil, fmt.Errorf("frame without magic code: %x", head)
	}
	var l uint64
	for _, x := range head[3:] {
		l = l<<8 | uint64(x)
	}
	if l > 1<<26 {
		return 0, nil, fmt.Errorf("frame of length %d", l)
	}
	b := make([]byte, l)
	_, err := io.ReadFull(c, b)
	return head[2], b, err
}

// wireShakes looks at both sides of the handshake
func wireShakes() []m {
	res := []m{}
	var mu sync.Mutex
	keep := func(r m) {
		mu.Lock()
		res = append(res, r)
		mu.Unlock()
	}
	count := n(40, 300)
	type params struct {
		caps      uint32
		td, nonce uint64
		agent     string
		ip        net.IP
		port      int
		chunks    bool
	}
	ps := make([]params, count)
	for i := range ps {
		ip := net.IP(randBytes(4))
		if rng.Intn(2) == 0 {
			ip = randBytes(16)
		}
		ps[i] = params{uint32(word()), word(), rng.Uint64(), text(), ip, rng.Intn(65536), rng.Intn(3) == 0}
		if i == 0 {
			ps[i].agent = string(bytes.Repeat([]byte("x"), 70000))
			ps[i].chunks = false // would take longer than a handshake may
		}
	}
	send := func(c net.Conn, b []byte, chunks bool) {
		for len(b) > 0 {
			k := len(b)
			if chunks && k > 7 {
				k = 7
				time.Sleep(time.Millisecond)
			}
			if _, err := c.Write(b[:k]); err != nil {
				return
			}
			b = b[k:]
		}
	}
	addrRec := func(a net.Addr) m { return recAddr(a.(*net.TCPAddr).IP.To4(), a.(*net.TCPAddr).Port) }
	parallel(count, func(i int) {
		p := ps[i]
		// incoming: we say hand
		a, b := pipe()
		defer a.Close()
		defer b.Close()
		hand := bytes.Join([][]byte{be(uint32(1), p.caps, p.nonce, p.td), encAddr(p.ip, p.port), encAddr(net.IP{9, 8, 7, 6}, 5), be(uint64(len(p.agent))), []byte(p.agent), genesisHash()}, nil)
		go send(a, frameOf(1, hand), p.chunks)
		var peer *p2p.Peer
		var err error
		r := m{"op": "hand", "obj": m{"kind": "hand", "version": w32(1), "caps": w32(p.caps), "nonce": w64(p.nonce), "td": w64(p.td), "sender": recAddr(p.ip, p.port),
			"receiver": recAddr(net.IP{9, 8, 7, 6}, 5), "agent": ints([]byte(p.agent)), "genesis": ints(genesisHash())}, "sent": ints(hand)}
		a.SetDeadline(time.Now().Add(20 * time.Second))
		b.SetDeadline(time.Now().Add(20 * time.Second))
		r["crash"] = catch(func() { peer, err = p2p.AcceptNewPeer(b) })
		r["ok"], r["genesisHeader"] = err == nil && peer != nil, testnet4
		r["info"] = infoOf(peer)
		t, answer, aerr := byte(0), []byte(nil), error(nil)
		if err == nil {
			t, answer, aerr = readFrame(a)
		}
		r["answerType"], r["answer"], r["answerErr"] = int(t), ints(answer), fmt.Sprint(aerr)
		r["answerObj"] = parseShake(answer)
		if len(p.agent) < 1000 {
			keep(r)
		}

		// outgoing: they say hand, we say shake
		l, err := net.Listen("tcp", "127.0.0.1:0")
		fail(err)
		defer l.Close()
		o := m{"op": "shake", "genesisHeader": testnet4, "handType": 0, "hand": []int{}, "handObj": m{"kind": ""}}
		shake := bytes.Join([][]byte{be(uint32(1), p.caps, p.td), be(uint64(len(p.agent))), []byte(p.agent), genesisHash()}, nil)
		o["obj"] = m{"kind": "shake", "version": w32(1), "caps": w32(p.caps), "td": w64(p.td), "agent": ints([]byte(p.agent)), "genesis": ints(genesisHash())}
		o["sent"] = ints(shake)
		done := make(chan bool)
		go func() {
			defer close(done)
			c, err := l.Accept()
			if err != nil {
				return
			}
			defer func() {
				go func() { time.Sleep(time.Second); c.Close() }()
			}()
			c.SetDeadline(time.Now().Add(20 * time.Second))
			t, h, err := readFrame(c)
			o["handType"], o["hand"] = int(t), ints(h)
			o["handObj"] = parseHand(h)
			o["remote"] = addrRec(c.LocalAddr())
			if err == nil {
				send(c, frameOf(2, shake), p.chunks)
			}
		}()
		var out *p2p.Peer
		o["crash"] = catch(func() { out, err = p2p.NewPeer(nil, l.Addr().String()) })
		<-done
		o["ok"] = err == nil && out != nil
		o["info"] = infoOf(out)
		if o["remote"] == nil {
			o["remote"] = recAddr(net.IP{0, 0, 0, 0}, 0)
		}
		if len(p.agent) < 1000 {
			keep(o)
		} else if err != nil || out == nil || out.Info.UserAgent != p.agent {
			o["obj"], o["sent"], o["ok"] = m{"kind": ""}, []int{}, false
			keep(o)
		}
		if out != nil {
			catch(out.Close)
		}
	})
	return res
}

func infoOf(p *p2p.Peer) m {
	if p == nil {
		return m{"version": w32(0), "caps": w32(0), "td": w64(0), "agent": []int{}, "height": w64(0)}
	}
	return m{"version": w32(p.Info.Version), "caps": w32(uint32(p.Info.Capabilities)), "td": w64(uint64(p.Info.TotalDifficulty)), "agent": ints([]byte(p.Info.UserAgent)), "height": w64(p.Info.Height)}
}

type cursor struct {
	b   []byte
	bad bool
}

func (c *cursor) take(k int) []byte {
	if k < 0 || k > len(c.b) {
		c.bad = true
		c.b = nil
		return make([]byte, 8)
	}
	x := c.b[:k]
	c.b = c.b[k:]
	return x
}
func (c *cursor) num(k int) (x uint64) {
	for _, y := range c.take(k)[:k] {
		x = x<<8 | uint64(y)
	}
	return
}
func (c *cursor) addr() m {
	k := 4
	if c.num(1) == 1 {
		k = 16
	}
	ip := append(net.IP{}, c.take(k)...)
	return recAddr(ip, int(c.num(2)))
}
func (c *cursor) text() []byte { return c.take(int(c.num(8) & 0xffffff)) }

// parseHand and parseShake take apart what the node says of itself
func parseHand(b []byte) m {
	c := &cursor{b: b}
	o := m{"kind": "hand", "version": w32(uint32(c.num(4))), "caps": w32(uint32(c.num(4))), "nonce": w64(c.num(8)), "td": w64(c.num(8)), "sender": c.addr(), "receiver": c.addr(),
		"agent": ints(c.text()), "genesis": ints(c.take(32))}
	if c.bad || len(c.b) > 0 {
		return m{"kind": ""}
	}
	return o
}

func parseShake(b []byte) m {
	c := &cursor{b: b}
	o := m{"kind": "shake", "version": w32(uint32(c.num(4))), "caps": w32(uint32(c.num(4))), "td": w64(c.num(8)), "agent": ints(c.text()), "genesis": ints(c.take(32))}
	if c.bad || len(c.b) > 0 {
		return m{"kind": ""}
	}
	return o
}

// accepted gives a started peer of an incoming connection and the other end of it
func accepted() (*p2p.Peer, net.Conn) {
	p, c := acceptedOnly()
	if p != nil {
		p.Start()
	}
	return p, c
}

func acceptedOnly() (*p2p.Peer, net.Conn) {
	a, b := pipe()
	hand := bytes.Join([][]byte{be(uint32(1), uint32(7), rng.Uint64(), uint64(1)), encAddr(net.IP{1, 2, 3, 4}, 1), encAddr(net.IP{9, 8, 7, 6}, 5), be(uint64(1)), []byte("x"), genesisHash()}, nil)
	_, err := a.Write(frameOf(1, hand))
	fail(err)
	a.SetDeadline(time.Now().Add(20 * time.Second))
	p, err := p2p.AcceptNewPeer(b)
	if err != nil {
		return nil, a
	}
	readFrame(a)
	a.SetDeadline(time.Time{})
	return p, a
}

// wireSends sends objects through a peer
func wireSends(w *wireMaker) []m {
	res := []m{}
	p, c := accepted()
	if p == nil {
		return []m{{"op": "send", "kind": "", "obj": m{"kind": ""}, "frame": []int{}, "crash": "no peer"}}
	}
	defer c.Close()
	try := func(obj m, f func()) {
		c.SetReadDeadline(time.Now().Add(5 * time.Second))
		r := m{"op": "send", "kind": obj["kind"], "obj": obj}
		r["crash"] = catch(f)
		t, b, err := readFrame(c)
		r["frame"] = ints(frameOf(t, b))
		if err != nil {
			r["crash"] = fmt.Sprint(r["crash"], " no frame: ", err)
		}
		res = append(res, r)
	}
	for i := 0; i < n(3, 20); i++ {
		for _, k := range kinds {
			if msg, ok := w.object(k, 3).(p2p.Message); ok {
				try(recOf(msg), func() { p.WriteMessage(msg) })
			}
		}
		hash := consensus.Hash(randBytes(32))
		try(m{"kind": "getblock", "hash": ints(hash)}, func() { p.SendBlockRequest(hash) })
		block := w.object("block", 4).(*consensus.Block)
		try(recOf(block), func() { p.SendBlock(block) })
		caps := consensus.Capabilities(word())
		try(m{"kind": "getaddrs", "caps": w32(uint32(caps))}, func() { p.SendPeerRequest(caps) })
		loc := consensus.Locator{Hashes: w.hashes(rng.Intn(15))}
		try(m{"kind": "getheaders", "hashes": hashList(loc.Hashes)}, func() { p.SendHeaderRequest(loc) })
		tx := w.object("tx", 4).(*consensus.Transaction)
		try(recOf(tx), func() { p.SendTransaction(*tx) })
	}
	p.Close()
	return res
}

// ---------------------------------------------------------------- hostile bytes

type repeated struct {
	pre, unit, post []byte
	supply          int
	pos             int
}

func (r *repeated) Read(p []byte) (int, error) {
	k := 0
	total := len(r.pre) + len(r.unit)*r.supply + len(r.post)
	for k < len(p) && r.pos < total {
		switch {
		case r.pos < len(r.pre):
			x := copy(p[k:], r.pre[r.pos:])
			k, r.pos = k+x, r.pos+x
		case r.pos < len(r.pre)+len(r.unit)*r.supply:
			o := r.pos - len(r.pre)
			x := copy(p[k:], r.unit[o%len(r.unit):])
			k, r.pos = k+x, r.pos+x
		default:
			x := copy(p[k:], r.post[r.pos-len(r.pre)-len(r.unit)*r.supply:])
			k, r.pos = k+x, r.pos+x
		}
	}
	if k == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return k, nil
}

func unInts(l []int) []byte {
	b := make([]byte, len(l))
	for i, x := range l {
		b[i] = byte(x)
	}
	return b
}

func wireHostile() []m {
	var cases struct {
		Plain []struct {
			Kind  string
			Frame bool
			Bytes []int
		}
		Streams []struct {
			Kind                  string
			Pre, Unit, Post       []int
			Declared, Max, Supply int
		}
	}
	read(&cases)
	res := []m{}
	one := func(kind string, frame bool, b []byte, origin string) {
		rs := []m{}
		for i, s := range styles {
			_, r := readAs(kind, frame, styled(s, bytes.NewReader(b)), i == 0)
			r["style"] = s
			r["obj"] = 0
			rs = append(rs, r)
		}
		// the largest memory use among results that look alike
		d := dedup(rs)
		d[0]["alloc"] = rs[0]["alloc"]
		res = append(res, m{"op": "bytes", "kind": kind, "frame": frame, "bytes": ints(b), "results": d, "origin": origin})
	}
	for _, c := range cases.Plain {
		one(c.Kind, c.Frame, unInts(c.Bytes), "spec")
	}
	// random damage to sound messages
	w := newWireMaker()
	for i := 0; i < n(500, 6000); i++ {
		k := kinds[rng.Intn(len(kinds))]
		o := w.object(k, 3)
		msg, isMsg := o.(p2p.Message)
		b := append([]byte{}, o.(writable).Bytes()...)
		frame := isMsg && rng.Intn(3) == 0
		if frame {
			buf := new(bytes.Buffer)
			p2p.WriteMessage(buf, msg)
			b = buf.Bytes()
		}
		for j := rng.Intn(4); j >= 0; j-- {
			b = damage(b)
		}
		one(k, frame, b, "damage")
	}
	for i := 0; i < n(100, 2000); i++ { // noise
		one(append(kinds, "addrs")[rng.Intn(len(kinds)+1)], false, randBytes(rng.Intn(400)), "noise")
	}
	for _, c := range cases.Streams {
		pre, unit, post := unInts(c.Pre), unInts(c.Unit), unInts(c.Post)
		_, r := readAs(c.Kind, false, &repeated{pre: pre, unit: unit, post: post, supply: c.Supply}, true)
		r["op"], r["kind"], r["declared"], r["max"], r["supply"], r["pre"], r["unit"], r["post"] = "stream", c.Kind, c.Declared, c.Max, c.Supply, len(pre), len(unit), len(post)
		res = append(res, r)
	}
	return res
}

func damage(b []byte) []byte {
	if len(b) == 0 {
		return randBytes(3)
	}
	i := rng.Intn(len(b))
	if rng.Intn(2) == 0 && len(b) > 247 { // counts sit near the header's end
		i = rng.Intn(len(b))
		if k := 246 + rng.Intn(200); k < len(b) {
			i = k
		}
	}
	switch rng.Intn(6) {
	case 0:
		b[i] = byte(rng.Intn(256))
	case 1:
		b[i] ^= 1 << uint(rng.Intn(8))
	case 2:
		b[i] = []byte{0, 1, 255, 127, 128}[rng.Intn(5)]
	case 3:
		return b[:i]
	case 4:
		return append(append(append([]byte{}, b[:i]...), randBytes(1+rng.Intn(9))...), b[i:]...)
	default:
		j := i + rng.Intn(len(b)-i+1)
		return append(append([]byte{}, b[:i]...), b[j:]...)
	}
	return b
}

// ---------------------------------------------------------------- canonical form

func wireCanon() []m {
	w := newWireMaker()
	res := []m{}
	for i := 0; i < n(60, 600); i++ {
		kind := []string{"block", "compact", "tx"}[i%3]
		o := w.object(kind, 9)
		first := recOf(o)
		seen := map[string]bool{}
		var one []byte
		total := 0
		backOK := true
		crash := catch(func() {
			for k := 0; k < 12; k++ {
				shuffle(o, k)
				for j := 0; j < 2; j++ {
					one = append([]byte{}, o.(writable).Bytes()...)
					seen[string(one)] = true
					total++
				}
			}
			for s := range seen {
				_, r := readAs(kind, false, bytes.NewReader([]byte(s)), false)
				backOK = backOK && r["ok"].(bool)
			}
		})
		res = append(res, m{"op": "canon", "kind": kind, "obj": first, "bytes": ints(one), "forms": len(seen), "tried": total, "accepted": backOK, "crash": crash})
	}
	for i := 0; i < n(60, 400); i++ {
		h, b := consensus.Hash(randBytes(32)), consensus.Hash(randBytes(32))
		if i%5 == 0 {
			h = bytes.Repeat([]byte{byte(i)}, 32)
		}
		if i%7 == 0 {
			b = bytes.Repeat([]byte{byte(255 - i)}, 32)
		}
		r := m{"op": "shortid", "hash": ints(h), "block": ints(b), "id": []int{}}
		r["crash"] = catch(func() { r["id"] = ints(h.ShortID(b)) })
		res = append(res, r)
		later(r, func() interface{} { return ints(h.ShortID(b)) })
	}
	askAgain()
	return res
}

// shuffle puts the elements of an object into another order
func shuffle(o readable, k int) {
	perm := func(n int, swap func(i, j int)) {
		if k%3 == 2 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				swap(i, j)
			}
			return
		}
		rng.Shuffle(n, swap)
	}
	switch x := o.(type) {
	case *consensus.Block:
		perm(len(x.Inputs), func(i, j int) { x.Inputs[i], x.Inputs[j] = x.Inputs[j], x.Inputs[i] })
		perm(len(x.Outputs), func(i, j int) { x.Outputs[i], x.Outputs[j] = x.Outputs[j], x.Outputs[i] })
		perm(len(x.Kernels), func(i, j int) { x.Kernels[i], x.Kernels[j] = x.Kernels[j], x.Kernels[i] })
	case *consensus.CompactBlock:
		perm(len(x.KernelIDs), func(i, j int) { x.KernelIDs[i], x.KernelIDs[j] = x.KernelIDs[j], x.KernelIDs[i] })
		perm(len(x.Outputs), func(i, j int) { x.Outputs[i], x.Outputs[j] = x.Outputs[j], x.Outputs[i] })
		perm(len(x.Kernels), func(i, j int) { x.Kernels[i], x.Kernels[j] = x.Kernels[j], x.Kernels[i] })
	case *consensus.Transaction:
		perm(len(x.Inputs), func(i, j int) { x.Inputs[i], x.Inputs[j] = x.Inputs[j], x.Inputs[i] })
		perm(len(x.Outputs), func(i, j int) { x.Outputs[i], x.Outputs[j] = x.Outputs[j], x.Outputs[i] })
		perm(len(x.Kernels), func(i, j int) { x.Kernels[i], x.Kernels[j] = x.Kernels[j], x.Kernels[i] })
	}
}
