package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dblokhin/gringo/p2p"
	"github.com/sirupsen/logrus"
)

// Under a fake clock hours pass in seconds. It stands still while a connection
// is open, so connections have to be short.

// TestBooks uses address books over days
func TestBooks(t *testing.T) {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	var list []bookScenario
	read(&list)
	res := make([]m, len(list))
	for i := range list {
		synctest.Test(t, func(t *testing.T) { res[i] = bookOne(list[i]) })
	}
	write(res)
}

const windowTime = 30 * time.Minute

type event struct {
	W int `json:"w"`
	A int `json:"a"`
}

type longScenario struct {
	Modes [][]string `json:"modes"` // by address and window
	Known []bool     `json:"known"`
	Bans  []event    `json:"bans"`
	Adds  []event    `json:"adds"`
}

type longRemote struct {
	mode     atomic.Value
	addr     string
	att, ups atomic.Int64
}

func (r *longRemote) serve(c *net.TCPConn) {
	defer c.Close()
	r.att.Add(1)
	mode := r.mode.Load().(string)
	if mode == "drop" {
		return
	}
	if t, _, err := readFrame(c); err != nil || t != 1 {
		return
	}
	genesis := genesisHash()
	switch mode {
	case "leave":
		return
	case "reset":
		c.SetLinger(0)
		return
	case "genesis":
		genesis = hashFor(3)
	}
	shake := append(be(uint32(1), uint32(7), uint64(5), uint64(4)), "test"...)
	c.Write(frameOf(2, append(shake, genesis...)))
	if mode != "serve" {
		readFrame(c)
		return
	}
	// its ping and its request
	readFrame(c)
	readFrame(c)
	r.ups.Add(1)
}

func longOne(t *testing.T, i int, s longScenario) m {
	rec := m{"modes": s.Modes, "known": s.Known, "bans": s.Bans, "adds": s.Adds, "crash": "", "back": -1}
	rs := []*longRemote{}
	known := []string{}
	for a := range s.Modes {
		l, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 1+os.Getpid()%250, 1+i%250, a+1))
		fail(err)
		defer l.Close()
		r := &longRemote{addr: l.Addr().String()}
		r.mode.Store(s.Modes[a][0])
		rs = append(rs, r)
		if s.Known[a] {
			known = append(known, r.addr)
		}
		if s.Modes[a][0] == "closed" {
			l.Close()
			continue
		}
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go r.serve(c.(*net.TCPConn))
			}
		}()
	}
	windows := []m{}
	synctest.Test(t, func(t *testing.T) {
		n := p2p.NewSyncer(known, &stubChain{h: 1, td: 1}, nil)
		var back atomic.Int64
		back.Store(-1)
		start := time.Now()
		go func() {
			n.Run()
			back.Store(int64(time.Since(start)))
		}()
		time.Sleep(500 * time.Millisecond) // between the rounds of the loop
		att, ups := make([]int64, len(rs)), make([]int64, len(rs))
		banned := map[int]bool{}
		for w := range s.Modes[0] {
			for a, r := range rs {
				r.mode.Store(s.Modes[a][w])
			}
			for _, e := range s.Adds {
				if e.W == w+1 {
					n.Pool.Add(rs[e.A-1].addr)
				}
			}
			for _, e := range s.Bans {
				if e.W == w+1 {
					n.Pool.Ban(rs[e.A-1].addr)
					banned[e.A-1] = true
				}
			}
			for a := range banned { // somebody announces it again
				n.Pool.Add(rs[a].addr)
			}
			synctest.Wait()
			for a, r := range rs {
				att[a], ups[a] = r.att.Load(), r.ups.Load()
			}
			time.Sleep(windowTime)
			x := m{}
			da, du, st := []int64{}, []int64{}, []string{}
			for a, r := range rs {
				da, du = append(da, r.att.Load()-att[a]), append(du, r.ups.Load()-ups[a])
				if pi := n.Pool.PeerInfo(r.addr); pi == nil {
					st = append(st, "unknown")
				} else {
					pi.Lock()
					st = append(st, statusNames[int(pi.Status)])
					pi.Unlock()
				}
			}
			x["att"], x["ups"], x["st"] = da, du, st
			windows = append(windows, x)
		}
		stopped := time.Since(start)
		n.Stop()
		time.Sleep(time.Minute)
		if b := back.Load(); b >= 0 {
			rec["back"] = int64((time.Duration(b) - stopped) / time.Second)
		}
		for a, r := range rs {
			att[a] = r.att.Load()
		}
		time.Sleep(time.Hour)
		for a, r := range rs {
			att[a] = r.att.Load() - att[a]
		}
		rec["after"] = att
		if back.Load() < 0 { // it would keep the clock running
			time.Sleep(24 * time.Hour)
			if back.Load() < 0 {
				// and a bubble with a loop in it does not end
				rec["windows"] = windows
				write([]m{rec})
				os.Exit(0)
			}
		}
	})
	rec["windows"] = windows
	return rec
}

// TestLong runs nodes for hours
func TestLong(t *testing.T) {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	rng = rand.New(rand.NewSource(*seed))
	var list []longScenario
	read(&list)
	genesisHash()
	var mu sync.Mutex
	res := make([]json.RawMessage, len(list))
	t.Run("all", func(t *testing.T) {
		for i := range list {
			t.Run("one", func(t *testing.T) {
				t.Parallel()
				r, err := json.Marshal(longOne(t, i, list[i]))
				fail(err)
				mu.Lock()
				res[i] = r
				mu.Unlock()
			})
		}
	})
	write(res)
}
