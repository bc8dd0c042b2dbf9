package main

import (
	"encoding/binary"
	"fmt"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"github.com/sirupsen/logrus"
)

func init() {
	commands["conns"] = func() { runMany("connrun") }
	commands["connrun"] = cmdConnRun
}

type connScenario struct {
	Role    string  `json:"role"`
	Senders [][]int `json:"senders"` // sizes of the messages: 0 small, 1 medium, 2 big
	Flood   int     `json:"flood"`   // requests of the remote
	Pace    string  `json:"pace"`    // fast, slow, stall
	How     string  `json:"how"`     // close, disconnect, remote, reset, garbage, half
	When    int     `json:"when"`    // ms after the start, or -1: after everything was sent
	Closers int     `json:"closers"`
	Waiters int     `json:"waiters"`
	Storm   int     `json:"storm"` // short lives before this one
	Idle    int     `json:"idle"`  // ms of silence first
}

// storm ends a fresh connection from several sides at the same instant
func storm(x int) string {
	p, c := acceptedOnly()
	if p == nil {
		return "no peer"
	}
	defer c.Close()
	p.Start()
	var wg sync.WaitGroup
	var gate atomic.Int32
	const k = 6
	for i := 0; i < k; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			gate.Add(1)
			for gate.Load() < k {
			}
			switch (i + x) % 6 {
			case 0, 1, 2:
				p.Close()
			case 3, 4:
				p.Disconnect(nil)
			case 5:
				if x%3 == 0 {
					c.Close()
				} else if x%3 == 1 {
					p.SendPing()
				} else {
					c.Write([]byte("this is no message at all......."))
				}
			}
		}(i)
	}
	return catchFor(10*time.Second, func() { wg.Wait(); p.WaitForDisconnect(); p.Close(); p.WaitForDisconnect() })
}

// numbered is message k of a sender, of one of three sizes
func numbered(sender, k, size int) func(p *p2p.Peer) {
	tag := make([]byte, 32)
	binary.BigEndian.PutUint32(tag, uint32(sender))
	binary.BigEndian.PutUint32(tag[4:], uint32(k))
	for i := 8; i < 32; i++ {
		tag[i] = byte(sender*31 + k*7 + i)
	}
	switch size {
	case 0:
		return func(p *p2p.Peer) { p.SendBlockRequest(tag) }
	case 1:
		l := consensus.Locator{}
		for i := 0; i < 14; i++ {
			l.Hashes = append(l.Hashes, consensus.Hash(tag))
		}
		return func(p *p2p.Peer) { p.SendHeaderRequest(l) }
	}
	b := plain(1, tag, t0, 1, 1)
	b.Inputs = make(consensus.InputList, 2500)
	for i := range b.Inputs {
		c := make([]byte, 33)
		c[0] = 8
		binary.BigEndian.PutUint32(c[1:], uint32(i))
		b.Inputs[i].Commit = c
	}
	return func(p *p2p.Peer) { p.SendBlock(b) }
}

// tagOf finds out which message a frame is
func tagOf(t byte, b []byte) (int, int, bool) {
	var tag []byte
	switch {
	case t == 10 && len(b) == 32:
		tag = b
	case t == 7 && len(b) == 1+14*32 && b[0] == 14:
		tag = b[1:33]
		for i := 0; i < 14; i++ {
			if string(b[1+32*i:33+32*i]) != string(tag) {
				return 0, 0, false
			}
		}
	case t == 11:
		h, rest := parseHdr(b)
		if h == nil || len(rest) != 24+2500*34 {
			return 0, 0, false
		}
		tag = h.prev
	default:
		return 0, 0, false
	}
	s, k := int(binary.BigEndian.Uint32(tag)), int(binary.BigEndian.Uint32(tag[4:]))
	for i := 8; i < 32; i++ {
		if tag[i] != byte(s*31+k*7+i) {
			return 0, 0, false
		}
	}
	return s, k, true
}

func cmdConnRun() {
	logrus.SetLevel(logrus.PanicLevel)
	var s connScenario
	read(&s)
	var peer *p2p.Peer
	var c net.Conn
	var err error
	for i := 0; i < s.Storm; i++ {
		if x := storm(i); x != "" {
			write(m{"crash": x})
			return
		}
	}
	if s.Role == "in" {
		peer, c = acceptedOnly()
	} else {
		l, e := net.Listen("tcp", "127.0.0.1:0")
		fail(e)
		sync := p2p.NewSyncer([]string{l.Addr().String()}, &stubChain{h: 9, td: 9}, nil)
		ok := make(chan bool)
		go func() {
			c, e = l.Accept()
			fail(e)
			readFrame(c)
			shake := frameOf(2, append(append(be(uint32(1), uint32(7), uint64(5)), be(uint64(0))...), genesisHash()...))
			c.Write(shake)
			ok <- true
		}()
		peer, err = p2p.NewPeer(sync, l.Addr().String())
		if err == nil {
			<-ok
		}
	}
	rec := m{"crash": "", "senders": s.Senders, "flood": s.Flood, "how": s.How, "when": s.When, "pace": s.Pace, "role": s.Role}
	if peer == nil || err != nil {
		rec["crash"] = fmt.Sprint("no peer: ", err)
		write(rec)
		return
	}
	msgs := make([][]func(*p2p.Peer), len(s.Senders))
	for i, l := range s.Senders {
		for k, size := range l {
			msgs[i] = append(msgs[i], numbered(i+1, k+1, size))
		}
	}
	peer.Start()
	start := time.Now()
	now := func() int { return int(time.Since(start) / time.Millisecond) }

	// the remote
	var mu sync.Mutex
	got := [][]int{}
	pongs, garbled, ended := 0, "", -1
	stalled := s.Pace == "stall"
	gate := sync.NewCond(&mu)
	tcp := c.(*net.TCPConn)
	if s.Pace == "stall" {
		tcp.SetReadBuffer(1 << 16)
	}
	var over atomic.Bool
	quitRemote := make(chan bool)
	go func() {
		defer close(quitRemote)
		for {
			mu.Lock()
			for stalled {
				gate.Wait()
			}
			mu.Unlock()
			t, b, err := readFrame(c)
			mu.Lock()
			if err != nil {
				ended = now()
				if strings.HasPrefix(err.Error(), "frame ") {
					garbled = err.Error()
				}
				mu.Unlock()
				return
			}
			if x, k, ok := tagOf(t, b); ok {
				got = append(got, []int{x, k})
			} else if t == 4 && len(b) == 16 {
				pongs++
			} else if garbled == "" {
				garbled = fmt.Sprintf("a frame of type %d with %d bytes", t, len(b))
			}
			mu.Unlock()
			if s.Pace == "slow" && !over.Load() {
				time.Sleep(3 * time.Millisecond)
			}
		}
	}()
	// senders and waiters
	var sw, ww sync.WaitGroup
	handed := make([]int, len(msgs))
	returned := make([]int, len(msgs)+s.Waiters)
	for i := range returned {
		returned[i] = -1
	}
	for i := 0; i < s.Waiters; i++ {
		ww.Add(1)
		go func(i int) {
			defer ww.Done()
			peer.WaitForDisconnect()
			mu.Lock()
			returned[len(msgs)+i] = now()
			mu.Unlock()
		}(i)
	}
	time.Sleep(time.Duration(s.Idle) * time.Millisecond)
	go func() {
		ping := frameOf(3, be(uint64(1), uint64(2)))
		for i := 0; i < s.Flood; i++ {
			if _, err := c.Write(ping); err != nil {
				return
			}
		}
	}()
	for i := range msgs {
		sw.Add(1)
		go func(i int) {
			defer sw.Done()
			for _, f := range msgs[i] {
				f(peer)
				mu.Lock()
				handed[i]++
				mu.Unlock()
			}
			mu.Lock()
			returned[i] = now()
			mu.Unlock()
		}(i)
	}

	// the end of it
	total := 0
	for _, l := range s.Senders {
		total += len(l)
	}
	if s.When >= 0 {
		time.Sleep(time.Duration(s.When) * time.Millisecond)
	} else {
		// everything has to arrive without any disturbance
		until(60*time.Second, func() bool {
			mu.Lock()
			defer mu.Unlock()
			return len(got) >= total && pongs >= s.Flood
		})
		time.Sleep(50 * time.Millisecond)
	}
	mu.Lock()
	arrived, early := len(got), []int{}
	for _, x := range returned[len(msgs):] {
		if x >= 0 {
			early = append(early, x)
		}
	}
	rec["arrived"], rec["pongs"], rec["early"] = arrived, pongs, early
	mu.Unlock()
	at := now()
	over.Store(true)
	var cw sync.WaitGroup
	crash := make(chan string, 64)
	switch s.How {
	case "close", "disconnect":
		for i := 0; i < s.Closers; i++ {
			cw.Add(1)
			go func(i int) {
				defer cw.Done()
				crash <- catchFor(20*time.Second, func() {
					if s.How == "close" {
						peer.Close()
					} else {
						peer.Disconnect(nil)
					}
				})
			}(i)
		}
	case "remote":
		c.Close()
	case "reset":
		tcp.SetLinger(0)
		c.Close()
	case "garbage":
		c.Write([]byte("this is no message at all......."))
	case "half":
		tcp.CloseWrite()
	}
	if s.How == "garbage" || s.How == "half" {
		// the remote goes on reading
		mu.Lock()
		stalled = false
		gate.Broadcast()
		mu.Unlock()
	}
	ok := until(15*time.Second, func() bool {
		mu.Lock()
		defer mu.Unlock()
		for _, x := range returned {
			if x < 0 {
				return false
			}
		}
		return true
	})
	rec["closers"] = catchFor(15*time.Second, cw.Wait) == ""
	close(crash)
	for x := range crash {
		if x != "" {
			rec["crash"] = x
		}
	}
	mu.Lock()
	last := at
	for _, x := range returned {
		if x > last {
			last = x
		}
	}
	rec["returned"], rec["took"] = ok, last-at
	stalled = false
	gate.Broadcast()
	mu.Unlock()
	// whoever comes later
	t := time.Now()
	late := catchFor(15*time.Second, func() {
		numbered(99, 1, 0)(peer)
		peer.SendPing()
		peer.Close()
		peer.Disconnect(nil)
		peer.WaitForDisconnect()
	})
	rec["late"], rec["lateMs"] = late, int(time.Since(t)/time.Millisecond)
	select {
	case <-quitRemote:
	case <-time.After(20 * time.Second):
	}
	mu.Lock()
	rec["closed"] = ended >= 0
	rec["got"], rec["garbled"], rec["handed"] = got, garbled, handed
	mu.Unlock()
	write(rec)
}
