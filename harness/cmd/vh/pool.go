package main

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"sync"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"github.com/sirupsen/logrus"
)

// The pool of peers at work: remotes that follow a plan, operations at set
// times, and what was seen of it over time. All times in ms.

func init() {
	commands["pools"] = func() { runMany("poolrun") }
	commands["poolrun"] = cmdPoolRun
}

type attempt struct {
	How string `json:"how"`
	Ms  int    `json:"ms"`
}

type poolPeer struct {
	Plan  []attempt `json:"plan"`
	Known bool      `json:"known"` // from the start
	Caps  []int     `json:"caps"`
	Text  string    `json:"text"` // an address that is none
	Talk  bool      `json:"talk"` // it has something to say
}

type poolScenario struct {
	Kind  string     `json:"kind"`
	Peers []poolPeer `json:"peers"`
	Ops   []frame    `json:"ops"`
	Last  int        `json:"last"`
}

type link struct {
	dial, up, end int
	by, how       string
}

type poolRemote struct {
	p     poolPeer
	addr  string
	ip    net.IP
	port  int
	mu    sync.Mutex
	links []*link
	conn  net.Conn // the one that is up
}

type poolRun struct {
	s     poolScenario
	sync  *p2p.Syncer
	rs    []*poolRemote
	start time.Time
}

func (n *poolRun) now() int { return int(time.Since(n.start) / time.Millisecond) }

func (n *poolRun) remote(i int, p poolPeer) *poolRemote {
	r := &poolRemote{p: p, addr: p.Text}
	if p.Text != "" {
		if h, port, err := net.SplitHostPort(p.Text); err == nil {
			r.ip = net.ParseIP(h)
			fmt.Sscan(port, &r.port)
		}
		return r
	}
	host := fmt.Sprintf("127.%d.%d.%d", 1+os.Getpid()%250, 1+(os.Getpid()/250)%250, i+1)
	l, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
	fail(err)
	r.addr, r.ip, r.port = l.Addr().String(), net.ParseIP(host).To4(), l.Addr().(*net.TCPAddr).Port
	if p.Plan[0].How == "closed" {
		l.Close()
		return r
	}
	go func() {
		for k := 0; ; k++ {
			c, err := l.Accept()
			if err != nil {
				return
			}
			a := p.Plan[len(p.Plan)-1]
			if k < len(p.Plan) {
				a = p.Plan[k]
			}
			k := &link{dial: n.now(), up: -1, end: -1, by: "node", how: a.How}
			r.mu.Lock()
			r.links = append(r.links, k)
			r.mu.Unlock()
			go n.serve(r, c.(*net.TCPConn), a, k)
		}
	}()
	return r
}

func (n *poolRun) serve(r *poolRemote, c *net.TCPConn, a attempt, k *link) {
	var once sync.Once
	over := func(by string) {
		once.Do(func() {
			r.mu.Lock()
			if k.end < 0 {
				k.end, k.by = n.now(), by
			}
			if r.conn == c {
				r.conn = nil
			}
			r.mu.Unlock()
			if by == "reset" {
				c.SetLinger(0)
			}
			c.Close()
		})
	}
	await := func() {
		for {
			if _, _, err := readFrame(c); err != nil {
				over("node")
				return
			}
		}
	}
	switch a.How {
	case "drop":
		over("remote")
		return
	case "silent":
		await()
		return
	}
	if t, _, err := readFrame(c); err != nil || t != 1 {
		over("node")
		return
	}
	version, genesis, kind := uint32(1), genesisHash(), byte(2)
	switch a.How {
	case "version":
		version = 2
	case "genesis":
		genesis = hashFor(3)
	case "type":
		kind = 3
	case "slow":
		time.Sleep(time.Duration(a.Ms) * time.Millisecond)
	case "leave":
		over("remote")
		return
	}
	shake := []byte{}
	shake = append(shake, be(version, capBits(r.p.Caps), uint64(5))...)
	shake = append(shake, be(uint64(4))...)
	shake = append(append(shake, "test"...), genesis...)
	f := frameOf(kind, shake)
	if a.How == "half" {
		c.Write(f[:len(f)/2])
		await()
		return
	}
	if _, err := c.Write(f); err != nil {
		over("node")
		return
	}
	if a.How == "good" || a.How == "slow" || a.How == "reset" {
		r.mu.Lock()
		k.up = n.now()
		r.conn = c
		r.mu.Unlock()
		if a.How != "slow" && a.Ms > 0 {
			time.AfterFunc(time.Duration(a.Ms)*time.Millisecond, func() {
				if a.How == "reset" {
					over("reset")
				} else {
					over("remote")
				}
			})
		}
		if r.p.Talk {
			go n.chat(c)
		}
	}
	await()
}

// chat is harmless talk of a remote, for as long as the connection lasts
func (n *poolRun) chat(c *net.TCPConn) {
	for k := 0; ; k++ {
		h, td := rand.Uint64()>>uint(rand.Intn(64)), rand.Uint64()>>uint(rand.Intn(64))
		f := frameOf(3, be(td, h))
		switch x := rand.Intn(8); {
		case k == 0 || x < 2:
		case x < 4:
			f = frameOf(4, be(td, h))
		case x == 4:
			f = frameOf(5, be(uint32(rand.Intn(8))))
		case x == 5:
			f = frameOf(7, []byte{0})
		case x == 6:
			f = frameOf(10, hashFor(rand.Intn(100)))
		case x == 7:
			f = frameOf(12, hashFor(rand.Intn(100)))
		}
		if _, err := c.Write(f); err != nil {
			return
		}
		time.Sleep(time.Duration(rand.Intn(1200)) * time.Millisecond)
	}
}

// look tells what the book says of every address
func (n *poolRun) look(l []string) {
	for i, r := range n.rs {
		l[i] = "unknown"
		if pi := n.sync.Pool.PeerInfo(r.addr); pi != nil {
			l[i] = "busy"
			for k := 0; k < 20; k++ {
				if pi.TryLock() {
					l[i] = statusNames[int(pi.Status)]
					pi.Unlock()
					break
				}
				time.Sleep(time.Millisecond)
			}
		}
	}
}

func cmdPoolRun() {
	logrus.SetLevel(logrus.PanicLevel)
	var s poolScenario
	read(&s)
	n := &poolRun{s: s, start: time.Now()}
	genesisHash()
	known := []string{}
	for i, p := range s.Peers {
		n.rs = append(n.rs, n.remote(i, p))
		if p.Known {
			known = append(known, n.rs[i].addr)
		}
	}
	n.sync = p2p.NewSyncer(known, &stubChain{h: 9, td: 9}, nil)
	n.start = time.Now()
	var mu sync.Mutex
	returned := -1
	go func() {
		n.sync.Run()
		mu.Lock()
		returned = n.now()
		mu.Unlock()
	}()
	ops := make([]m, len(s.Ops))
	for i, op := range s.Ops {
		o := m{"from": -1, "to": -1, "done": false}
		for k, v := range op {
			o[k] = v
		}
		ops[i] = o
		op := op
		time.AfterFunc(time.Until(n.start.Add(time.Duration(op.num("t"))*time.Millisecond)), func() {
			from, done := n.now(), true
			mu.Lock()
			o["from"] = from
			mu.Unlock()
			switch op.str("op") {
			case "add":
				n.sync.Pool.Add(n.rs[op.num("a")-1].addr)
			case "ban":
				n.sync.Pool.Ban(n.rs[op.num("a")-1].addr)
			case "stop":
				n.sync.Stop()
			case "announce":
				// one remote tells of others
				b := []byte{}
				as := op.list("as")
				for _, a := range as {
					b = append(b, encAddr(n.rs[a-1].ip, n.rs[a-1].port)...)
				}
				r := n.rs[op.num("by")-1]
				r.mu.Lock()
				c := r.conn
				r.mu.Unlock()
				done = c != nil
				if c != nil {
					_, err := c.Write(frameOf(6, append(be(uint32(len(as))), b...)))
					done = err == nil
				}
			case "leave":
				r := n.rs[op.num("a")-1]
				r.mu.Lock()
				c := r.conn
				if c != nil {
					k := r.links[len(r.links)-1]
					k.end, k.by = n.now(), "remote"
					r.conn = nil
				}
				r.mu.Unlock()
				done = c != nil
				if done {
					c.(*net.TCPConn).CloseWrite()
					c.Close()
				}
			}
			mu.Lock()
			o["to"], o["done"] = n.now(), done
			mu.Unlock()
		})
	}
	// look again and again: spans of the same statuses, and lists
	spans := make([][]m, len(n.rs))
	lists := []m{}
	cur := make([]string, len(n.rs))
	samples := 0
	time.AfterFunc(time.Duration(s.Last+30000)*time.Millisecond, func() {
		n.write(ops, [][]m{}, []m{}, -1, &mu, "the book answers no more")
		os.Exit(0)
	})
	for n.now() < s.Last {
		t := n.now()
		n.look(cur)
		e := n.now()
		samples++
		for i, st := range cur {
			l := spans[i]
			if len(l) > 0 && l[len(l)-1]["st"] == st {
				l[len(l)-1]["to"] = e
				l[len(l)-1]["n"] = l[len(l)-1]["n"].(int) + 1
			} else {
				spans[i] = append(l, m{"st": st, "from": t, "to": e, "n": 1})
			}
		}
		if samples%8 == 0 {
			caps := [][]int{{}, {0}, {1, 2}, {0, 1, 2}}[samples/8%4]
			a := n.now()
			got := listOf(n.sync.Pool.Peers(consensus.Capabilities(capBits(caps))))
			x := m{"from": a, "to": n.now(), "caps": caps, "foreign": []string{}, "dup": false}
			is, foreign, seen := []int{}, []string{}, map[string]bool{}
			for _, g := range got {
				k := 0
				for i, r := range n.rs {
					if r.addr == g {
						k = i + 1
					}
				}
				if k > 0 {
					is = append(is, k)
				} else {
					foreign = append(foreign, g)
				}
				if seen[g] {
					x["dup"] = true
				}
				seen[g] = true
			}
			x["list"], x["foreign"] = is, foreign
			lists = append(lists, x)
		}
		time.Sleep(80 * time.Millisecond)
	}
	n.write(ops, spans, lists, returned, &mu, "")
}

func (n *poolRun) write(ops []m, spans [][]m, lists []m, returned int, mu *sync.Mutex, crash string) {
	last := n.now()
	mu.Lock()
	defer mu.Unlock()
	links := [][]m{}
	for _, r := range n.rs {
		r.mu.Lock()
		l := []m{}
		for _, k := range r.links {
			l = append(l, m{"dial": k.dial, "up": k.up, "end": k.end, "by": k.by, "how": k.how})
		}
		links = append(links, l)
		r.mu.Unlock()
	}
	write(m{"crash": crash, "kind": n.s.Kind, "peers": n.s.Peers, "ops": ops, "links": links, "spans": spans, "lists": lists, "returned": returned, "last": last})
}
