package main

import (
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"github.com/dblokhin/gringo/p2p"
	"github.com/sirupsen/logrus"
)

func init() {
	commands["hands"] = cmdHands
	commands["genesis"] = func() { write(ints(genesisHash())) }
}

type handChunk struct {
	Wait  int   `json:"wait"` // ms before it
	Bytes []int `json:"bytes"`
}

type handCase struct {
	Role   string      `json:"role"`
	Chunks []handChunk `json:"chunks"`
	End    string      `json:"end"`
	Early  bool        `json:"early"` // doesn't wait for our hand
	Own    bool        `json:"own"`   // the nonce is one of ours
	Follow bool        `json:"follow"`
}

func raw(l []int) []byte {
	b := make([]byte, len(l))
	for i, x := range l {
		b[i] = byte(x)
	}
	return b
}

// what comes from the node, as it comes
type listener struct {
	mu   sync.Mutex
	got  []byte
	end  bool
	stop time.Time
}

func (l *listener) listen(c net.Conn) {
	b := make([]byte, 65536)
	for {
		k, err := c.Read(b)
		l.mu.Lock()
		l.got = append(l.got, b[:k]...)
		if err != nil {
			l.end, l.stop = true, time.Now()
		}
		l.mu.Unlock()
		if err != nil {
			return
		}
	}
}

func (l *listener) bytes() []byte {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]byte{}, l.got...)
}

func (l *listener) ended() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.end
}

func until(d time.Duration, f func() bool) bool {
	for t := time.Now(); time.Since(t) < d; time.Sleep(5 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

// nonces we have seen the node send
var (
	nonceMu sync.Mutex
	nonces  [][]byte
	owns    int
)

func handOne(k handCase) m {
	rec := m{"role": k.Role, "end": k.End, "early": k.Early, "follow": k.Follow, "crash": "", "ok": false, "err": "", "ms": 0, "at": []int{}, "sent": []int{},
		"got": []int{}, "pong": []int{}, "closed": false, "own": [][]int{}}
	var peer *p2p.Peer
	var err error
	var c net.Conn
	chain := &stubChain{h: 77, td: 4242}
	start := time.Now()
	var ended time.Time
	lis := &listener{}
	finished := make(chan bool)
	var attempt func()

	if k.Role == "out" {
		l, e := net.Listen("tcp", "127.0.0.1:0")
		fail(e)
		defer l.Close()
		addr := l.Addr().String()
		accepted := make(chan net.Conn, 1)
		go func() {
			if x, e := l.Accept(); e == nil {
				accepted <- x
			}
		}()
		sync := p2p.NewSyncer([]string{addr}, chain, nil)
		attempt = func() { peer, err = p2p.NewPeer(sync, addr) }
		go func() {
			rec["crash"] = catchFor(40*time.Second, attempt)
			ended = time.Now()
			close(finished)
		}()
		select {
		case c = <-accepted:
		case <-time.After(20 * time.Second):
			rec["crash"] = "did not connect"
			return rec
		}
	} else {
		a, b := pipe()
		c = a
		defer b.Close()
		attempt = func() { peer, err = p2p.AcceptNewPeer(b) }
		go func() {
			rec["crash"] = catchFor(40*time.Second, attempt)
			ended = time.Now()
			close(finished)
		}()
	}
	defer c.Close()
	go lis.listen(c)
	if k.Role == "out" && !k.Early {
		until(10*time.Second, func() bool { return len(lis.bytes()) > 11 })
		time.Sleep(2 * time.Millisecond)
	}

	// our side of it
	sent, at := []int{}, []int{}
	for _, ch := range k.Chunks {
		time.Sleep(time.Duration(ch.Wait) * time.Millisecond)
		b := raw(ch.Bytes)
		if k.Own && len(sent) == 0 && len(b) >= 27 {
			nonceMu.Lock()
			if len(nonces) > 0 {
				// of late, or long ago: the last 100 attempts may still be under way
				back := []int{0, 1, 99, 5, 50, 98, 10, 97, 25, 75, 95, 90, 2, 60, 40, 80, 30, 20, 70}[owns%19]
				owns++
				if back >= len(nonces) {
					back = rng.Intn(len(nonces))
				}
				copy(b[19:27], nonces[len(nonces)-1-back])
			}
			nonceMu.Unlock()
		}
		c.SetWriteDeadline(time.Now().Add(20 * time.Second))
		if _, e := c.Write(b); e != nil {
			break
		}
		sent = append(sent, ints(b)...)
		at = append(at, len(sent), int(time.Since(start)/time.Millisecond))
	}
	tcp := c.(*net.TCPConn)
	switch k.End {
	case "closewrite":
		tcp.CloseWrite()
	case "close":
		c.Close()
	case "reset":
		tcp.SetLinger(0)
		c.Close()
	}
	<-finished
	ms := int(ended.Sub(start) / time.Millisecond)
	rec["ms"], rec["sent"], rec["at"] = ms, sent, at
	rec["ok"] = peer != nil && err == nil
	if err != nil {
		rec["err"] = err.Error()
	}
	if err == nil && peer == nil && rec["crash"] == "" {
		rec["crash"] = "neither a peer nor an error"
	}
	rec["info"] = infoOf(peer)
	if err != nil && k.Role == "out" {
		rec["closed"] = k.End == "close" || k.End == "reset" || until(2*time.Second, lis.ended)
	}
	time.Sleep(60 * time.Millisecond)
	got := lis.bytes()
	rec["got"] = ints(got)
	if k.Role == "out" && len(got) > 27 {
		nonceMu.Lock()
		nonces = append(nonces, append([]byte{}, got[19:27]...))
		nonceMu.Unlock()
	}
	nonceMu.Lock()
	own := [][]int{}
	for _, x := range nonces {
		own = append(own, ints(x))
	}
	nonceMu.Unlock()
	rec["own"] = own
	if peer != nil && err == nil {
		if k.Follow && k.Role == "out" && k.End == "silent" {
			peer.Start()
			// the handshake has left the first messages to the reader
			until(5*time.Second, func() bool { return len(lis.bytes()) > len(got) })
			time.Sleep(20 * time.Millisecond)
			rec["pong"] = ints(lis.bytes()[len(got):])
		}
		if s := catchFor(10*time.Second, peer.Close); s != "" {
			rec["crash"] = s
		}
	}
	return rec
}

// selfOne lets the node connect to itself, directly or through somebody
func selfOne(relay bool) m {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	fail(err)
	defer l.Close()
	addr := l.Addr().String()
	var inErr, outErr error
	var crash string
	done := make(chan bool)
	go func() {
		defer close(done)
		c, err := l.Accept()
		if err != nil {
			return
		}
		crash = catchFor(40*time.Second, func() { _, inErr = p2p.AcceptNewPeer(c) })
		c.Close()
	}()
	if relay {
		l2, err := net.Listen("tcp", "127.0.0.1:0")
		fail(err)
		defer l2.Close()
		to := addr
		addr = l2.Addr().String()
		go func() {
			a, err := l2.Accept()
			if err != nil {
				return
			}
			b, err := net.Dial("tcp", to)
			if err != nil {
				a.Close()
				return
			}
			go func() { io.Copy(b, a); b.Close() }()
			io.Copy(a, b)
			a.Close()
		}()
	}
	start := time.Now()
	c2 := catchFor(40*time.Second, func() { _, outErr = p2p.NewPeer(nil, addr) })
	ms := int(time.Since(start) / time.Millisecond)
	<-done
	return m{"role": "self", "crash": crash + c2, "in": fmt.Sprint(inErr), "out": fmt.Sprint(outErr), "inOk": inErr == nil, "outOk": outErr == nil, "ms": ms}
}

func cmdHands() {
	logrus.SetLevel(logrus.PanicLevel)
	var list []handCase
	read(&list)
	width := 64
	fmt.Sscan(*extra, &width)
	res := make([]m, len(list))
	sem := make(chan struct{}, width)
	var wg sync.WaitGroup
	// the first ones are alone: they show some of the nonces
	for i := range list {
		i := i
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if list[i].Role == "self" {
				res[i] = selfOne(list[i].Early)
			} else {
				res[i] = handOne(list[i])
			}
		}()
		if i < 5 {
			wg.Wait()
		}
	}
	wg.Wait()
	write(m{"header": testnet4, "list": res})
}
