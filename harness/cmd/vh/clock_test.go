package main

import (
	"math/rand"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sirupsen/logrus"
	"io"
)

// TestClock validates headers under a fake clock, close to the limit of how far
// a timestamp may lie ahead.
func TestClock(t *testing.T) {
	rng = rand.New(rand.NewSource(*seed))
	logrus.SetOutput(io.Discard)
	good, _ := goodHeaders()
	var recs []m
	synctest.Test(t, func(t *testing.T) {
		for k := 0; k < len(good); k++ {
			h := good[k]
			if h.ts != good[0].ts && h.name[0] != 'c' && h.name[0] != 'r' {
				continue
			}
			var at []time.Duration
			for _, s := range []int{-1000000, -86400, -3600, -1440, -1000, -780, -732, -722, -721, -720, -719, -718, -700, -660, -600, -72, -61, -60, -13, -12, -11, -1, 0, 1, 60, 720, 721, 1000} {
				for _, ms := range []int{0, 1, 500, 999} {
					at = append(at, time.Duration(s)*time.Second+time.Duration(ms)*time.Millisecond)
				}
			}
			now := time.Now()
			for _, d := range at {
				w := time.Unix(h.ts, 0).Add(d)
				if w.Before(now) { // fake time only goes forward
					continue
				}
				time.Sleep(w.Sub(time.Now()))
				r := h.real()
				recs = append(recs, m{"name": h.name, "what": "clock", "h": h.facts(time.Now()), "ok": r.Validate() == nil, "crash": "", "later": []bool{}})
			}
		}
	})
	write(m{"headers": recs, "versions": []m{}, "lists": []m{}})
}
