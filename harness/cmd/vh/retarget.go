package main

import (
	"reflect"
	"sort"
	"time"

	"github.com/dblokhin/gringo/consensus"
)

func init() { commands["retarget"] = cmdRetarget }

type past struct {
	ts   []int // seconds, newest first
	diff []uint64
}

const t0 = 1543816938

func (p past) blocks() consensus.BlockList {
	var l consensus.BlockList
	for i := range p.ts {
		l = append(l, consensus.Block{Header: consensus.BlockHeader{
			Height: uint64(1000 + len(p.ts) - i), Timestamp: time.Unix(t0+int64(p.ts[i]), 0).UTC(), Difficulty: consensus.Difficulty(p.diff[i]),
			// not to be mistaken for the difficulty
			TotalDifficulty: consensus.Difficulty(rng.Uint64() >> 8), ScalingDifficulty: rng.Uint32(),
		}})
	}
	return l
}

// randomPast makes a plausible or an implausible history of n blocks
func randomPast(n int) past {
	p := past{make([]int, n), make([]uint64, n)}
	gap := []int{0, 1, 10, 29, 30, 31, 59, 60, 61, 90, 119, 120, 121, 300, 1000, 100000}[rng.Intn(16)]
	style := rng.Intn(6)
	bits := uint(rng.Intn(52))
	steady := rng.Uint64() >> (63 - bits)
	t := rng.Intn(1000000)
	for i := n - 1; i >= 0; i-- {
		p.ts[i] = t
		switch style {
		case 0, 1:
			t += gap
		case 2:
			t += rng.Intn(2*gap + 1)
		case 3: // outliers, that medians ignore
			t += gap
			if rng.Intn(5) == 0 {
				p.ts[i] += rng.Intn(200000) - 100000
			}
		case 4: // anything
			t = rng.Intn(10000) - 5000
		case 5:
			t += rng.Intn(150) - 15
		}
		switch style {
		case 0, 3:
			p.diff[i] = steady
		default:
			p.diff[i] = rng.Uint64() >> (63 - bits)
			if rng.Intn(30) == 0 {
				p.diff[i] = 0
			}
		}
	}
	return p
}

// spanned has exactly the given difference of median times
func spanned(delta int) past {
	p := randomPast(71 + rng.Intn(2)*rng.Intn(60))
	med := func(from int) int {
		x := append([]int{}, p.ts[from:from+11]...)
		sort.Ints(x)
		return x[5]
	}
	d := delta - (med(0) - med(60))
	for i := 0; i < 60; i++ {
		p.ts[i] += d
	}
	return p
}

func cmdRetarget() {
	var recs []m
	try := func(p past) {
		l := p.blocks()
		before := append(consensus.BlockList{}, l...)
		var d uint64
		crash := catch(func() { d = uint64(consensus.NextDifficulty(l)) })
		ds := make([][4]int, len(p.diff))
		for i, x := range p.diff {
			ds[i] = w64(x)
		}
		rec := m{"ts": append([]int{}, p.ts...), "diff": ds, "demand": w64(d), "crash": crash, "changed": len(l) > 0 && !reflect.DeepEqual(before, l)}
		recs = append(recs, rec)
		later(rec, func() interface{} { return w64(uint64(consensus.NextDifficulty(l))) })
	}
	for k := 0; k <= 140; k++ {
		for i := 0; i < n(1, 10); i++ {
			try(randomPast(k))
		}
	}
	for i := 0; i < n(1500, 30000); i++ {
		try(randomPast(71 + rng.Intn(3)*rng.Intn(40)))
	}
	// around the points where damping, rounding and bounds change the answer
	for _, c := range []int{-20000, -10803, -10800, -3604, -3600, -3599, -1, 0, 1, 3, 4, 1800, 3599, 3600, 3601, 7200, 14400, 17999, 18000, 18001, 21600, 100000} {
		for d := -5; d <= 5; d++ {
			for i := 0; i < n(1, 8); i++ {
				try(spanned(c + d))
			}
		}
	}
	askAgain()
	write(recs)
}
