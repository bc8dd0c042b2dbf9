package main

import (
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"github.com/sirupsen/logrus"
)

func init() {
	commands["books"] = cmdBooks
}

var statusNames = []string{"new", "connected", "banned", "disconnected", "failed"}

type bookScenario struct {
	Addrs  []string `json:"addrs"` // single addresses
	Shown  []string `json:"shown"` // how they look in a list
	Ok     []string `json:"ok"`
	Groups []int    `json:"groups"` // sizes of groups of addresses
	Ops    []frame  `json:"ops"`
}

func bitsOf(x uint32) []int {
	l := []int{}
	for i := uint(0); i < 32; i++ {
		if x>>i&1 == 1 {
			l = append(l, int(i))
		}
	}
	return l
}

// groupAddr is address i of a group
func groupAddr(g, i int) string {
	if g%2 == 1 {
		return fmt.Sprintf("[2001:db8:%x::%x]:%d", g, i+1, 1+(i*7+g)%65535)
	}
	return fmt.Sprintf("10.%d.%d.%d:%d", g, i/256, i%256, 1+(i*13+g)%65535)
}

// listOf reads the addresses of a peer list, from the bytes it is sent as
func listOf(pa *p2p.PeerAddrs) []string {
	l := []string{}
	if pa == nil {
		return l
	}
	c := &cursor{b: pa.Bytes()}
	k := int(c.num(4))
	for i := 0; i < k && !c.bad; i++ {
		size := 4
		if c.num(1) == 1 {
			size = 16
		}
		ip := append(net.IP{}, c.take(size)...)
		l = append(l, net.JoinHostPort(ip.String(), fmt.Sprint(c.num(2))))
	}
	if c.bad || len(c.b) > 0 {
		l = append(l, "garbled")
	}
	return l
}

func bookOne(s bookScenario) m {
	chain := &stubChain{h: 1, td: 1}
	sync_ := p2p.NewSyncer(nil, chain, nil)
	pool := sync_.Pool
	steps := []m{}
	state := func() []m {
		l := []m{}
		for _, a := range s.Addrs {
			o := m{"known": false, "st": "new", "caps": []int{}}
			if pi := pool.PeerInfo(a); pi != nil {
				pi.Lock()
				o = m{"known": true, "st": statusNames[int(pi.Status)], "caps": bitsOf(uint32(pi.Capabilities))}
				pi.Unlock()
			}
			l = append(l, o)
		}
		return l
	}
	groups := func() []int {
		l := []int{}
		for g, size := range s.Groups {
			k := 0
			for i := 0; i < size; i++ {
				if pool.PeerInfo(groupAddr(g, i)) != nil {
					k++
				}
			}
			l = append(l, k)
		}
		return l
	}
	for _, op := range s.Ops {
		o := m{}
		for k, v := range op {
			o[k] = v
		}
		g := op.num("g") - 1
		addr := ""
		if i := op.num("a"); i > 0 {
			addr = s.Addrs[i-1]
		}
		var listed []string
		isList := false
		wait := 60 * time.Second
		if op.str("op") == "wait" {
			wait = 1 << 62
		}
		o["crash"] = catchFor(wait, func() {
			switch op.str("op") {
			case "add":
				pool.Add(addr)
			case "ban":
				pool.Ban(addr)
			case "wait": // under a fake clock
				time.Sleep(time.Duration(op.num("g")) * time.Hour)
			case "set":
				if pi := pool.PeerInfo(addr); pi != nil {
					pi.Lock()
					for i, x := range statusNames {
						if x == op.str("st") {
							pi.Status = p2pStatus(pi.Status, i)
						}
					}
					pi.Capabilities = consensus.Capabilities(capBits(op.list("caps")))
					pi.Unlock()
				}
			case "fill":
				for i := 0; i < s.Groups[g]; i++ {
					pool.Add(groupAddr(g, i))
				}
			case "setgroup":
				for i := 0; i < s.Groups[g]; i++ {
					if pi := pool.PeerInfo(groupAddr(g, i)); pi != nil {
						for j, x := range statusNames {
							if x == op.str("st") {
								pi.Status = p2pStatus(pi.Status, j)
							}
						}
						pi.Capabilities = consensus.Capabilities(capBits(op.list("caps")))
					}
				}
			case "bangroup":
				for i := 0; i < s.Groups[g]; i++ {
					pool.Ban(groupAddr(g, i))
				}
			case "peers":
				isList = true
				listed = listOf(pool.Peers(consensus.Capabilities(capBits(op.list("caps")))))
			case "racefill":
				// all groups at once, each by two
				var wg sync.WaitGroup
				for x, size := range s.Groups {
					for _, back := range []bool{false, true} {
						wg.Add(1)
						go func(x, size int, back bool) {
							defer wg.Done()
							for i := 0; i < size; i++ {
								k := i
								if back {
									k = size - 1 - i
								}
								pool.Add(groupAddr(x, k))
								if i%97 == 0 {
									pool.Peers(0)
								}
							}
						}(x, size, back)
					}
				}
				wg.Wait()
			case "raceban":
				// known addresses are banned while others announce them
				size := s.Groups[g]
				for i := 0; i < size; i++ {
					pool.Add(groupAddr(g, i))
				}
				start := make(chan bool)
				var wg sync.WaitGroup
				for w := 0; w < 4; w++ {
					wg.Add(1)
					go func(w int) {
						defer wg.Done()
						<-start
						for i := 0; i < size; i++ {
							if w == 0 {
								pool.Ban(groupAddr(g, i))
							} else {
								for k := -w; k <= w; k += w {
									if j := i + k; j >= 0 && j < size {
										pool.Add(groupAddr(g, j))
									}
								}
							}
						}
					}(w)
				}
				close(start)
				wg.Wait()
			}
		})
		o["state"], o["groups"] = state(), groups()
		if isList {
			o["total"] = len(listed)
			seen := map[string]bool{}
			place := map[string]int{}
			for i, x := range s.Shown {
				place[x] = i + 1
			}
			inGroup := map[string]int{}
			for g, size := range s.Groups {
				for i := 0; i < size; i++ {
					inGroup[groupAddr(g, i)] = g + 1
				}
			}
			singles, counts, foreign, dup := []int{}, make([]int, len(s.Groups)), []string{}, []string{}
			for _, x := range listed {
				if seen[x] {
					dup = append(dup, x)
				}
				seen[x] = true
				if i := place[x]; i > 0 {
					singles = append(singles, i)
				} else if g := inGroup[x]; g > 0 {
					counts[g-1]++
				} else {
					foreign = append(foreign, x)
				}
			}
			o["singles"], o["counts"], o["foreign"], o["dup"] = singles, counts, foreign, dup
		}
		steps = append(steps, o)
	}
	return m{"steps": steps, "groups": s.Groups, "ok": s.Ok}
}

func cmdBooks() {
	logrus.SetLevel(logrus.PanicLevel)
	var list []bookScenario
	read(&list)
	res := make([]m, len(list))
	parallel(len(list), func(i int) { res[i] = bookOne(list[i]) })
	write(res)
}

// p2pStatus gives the status numbered i, of the type of x, which has no name outside
func p2pStatus[T ~int](x T, i int) T { return T(i) }
