package main

import (
	"bytes"
	"io"
	"math/rand"
	"net"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dblokhin/gringo/p2p"
	"github.com/sirupsen/logrus"
)

type quietScenario struct {
	Gaps    []int  `json:"gaps"`    // seconds of silence before each message
	Sizes   []int  `json:"sizes"`   // of the messages
	How     string `json:"how"`     // close, disconnect, remote, garbage
	Closers int    `json:"closers"`
	Waiters int    `json:"waiters"`
}

// TestQuiet lets connections live for days, under a fake clock
func TestQuiet(t *testing.T) {
	rng = rand.New(rand.NewSource(*seed))
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	var list []quietScenario
	read(&list)
	res := []m{}
	for i := range list {
		synctest.Test(t, func(t *testing.T) {
			res = append(res, quietOne(list[i]))
			write(res) // whoever is still there when all is over ends the test
		})
	}
}

func quietOne(s quietScenario) m {
	rec := m{"crash": "", "senders": [][]int{s.Sizes}, "flood": 0, "how": s.How, "when": -1, "pace": "quiet", "role": "in", "pongs": 0,
		"garbled": "", "late": "", "lateMs": 0, "closed": false, "closers": false, "returned": false, "took": 0, "arrived": 0, "early": []int{}, "got": [][]int{}}
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	go func() {
		a.Write(frameOf(1, bytes.Join([][]byte{be(uint32(1), uint32(7), rng.Uint64(), uint64(1)), encAddr(net.IP{1, 2, 3, 4}, 1), encAddr(net.IP{9, 8, 7, 6}, 5), be(uint64(1)), []byte("x"), genesisHash()}, nil)))
		readFrame(a)
	}()
	p, err := p2p.AcceptNewPeer(b)
	if err != nil {
		rec["crash"] = "no peer: " + err.Error()
		return rec
	}
	synctest.Wait()
	p.Start()
	var mu sync.Mutex
	got := [][]int{}
	early := []int{}
	closed, garbled := false, ""
	start := time.Now()
	gone := make(chan bool)
	go func() {
		defer close(gone)
		for {
			t, b, err := readFrame(a)
			mu.Lock()
			if err != nil {
				closed = true
				mu.Unlock()
				return
			}
			if x, k, ok := tagOf(t, b); ok {
				got = append(got, []int{x, k})
			} else {
				garbled = "a frame that was not sent"
			}
			mu.Unlock()
		}
	}()
	var ww sync.WaitGroup
	over := false
	for i := 0; i < s.Waiters; i++ {
		ww.Add(1)
		go func() {
			defer ww.Done()
			p.WaitForDisconnect()
			mu.Lock()
			if !over {
				early = append(early, int(time.Since(start)/time.Second))
			}
			mu.Unlock()
		}()
	}
	for k, g := range s.Gaps {
		time.Sleep(time.Duration(g) * time.Second)
		numbered(1, k+1, s.Sizes[k])(p)
	}
	time.Sleep(time.Second)
	mu.Lock()
	arrived := len(got)
	over = true
	mu.Unlock()
	rec["arrived"] = arrived
	at := time.Now()
	var cw sync.WaitGroup
	switch s.How {
	case "close", "disconnect":
		for i := 0; i < s.Closers; i++ {
			cw.Add(1)
			go func() {
				defer cw.Done()
				if s.How == "close" {
					p.Close()
				} else {
					p.Disconnect(nil)
				}
			}()
		}
	case "remote":
		a.Close()
	case "garbage":
		go a.Write([]byte("this is no message at all......."))
	}
	// an hour is plenty
	rec["closers"] = catchFor(time.Hour, cw.Wait) == ""
	rec["returned"] = catchFor(time.Hour, ww.Wait) == ""
	rec["took"] = int(time.Since(at) / time.Millisecond)
	at = time.Now()
	rec["late"] = catchFor(time.Hour, func() {
		numbered(99, 1, 0)(p)
		p.Close()
		p.WaitForDisconnect()
	})
	rec["lateMs"] = int(time.Since(at) / time.Millisecond)
	synctest.Wait()
	a.Close()
	b.Close()
	<-gone
	mu.Lock()
	defer mu.Unlock()
	rec["got"], rec["early"], rec["closed"], rec["garbled"] = got, early, closed, garbled
	return rec
}
