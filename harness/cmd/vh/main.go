// vh drives the real gringo code and records what it does, for the TLA+
// specifications in /verif/spec to judge. It contains no expectations itself.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"reflect"
	"sync"
	"time"

	"github.com/sirupsen/logrus"
)

var (
	seed  = flag.Int64("seed", 1, "random seed")
	tier  = flag.String("tier", "quick", "quick or thorough")
	out   = flag.String("out", "", "where to write the record")
	in    = flag.String("in", "", "cases to run (generated by TLC)")
	fix   = flag.String("fix", "", "directory of the fixtures")
	extra = flag.String("x", "", "further argument of the sub-command")
	rng   *rand.Rand
)

type m map[string]interface{}

var commands = map[string]func(){}

func thorough() bool { return *tier == "thorough" }

// n picks the size of a sample by tier
func n(quick, deep int) int {
	if thorough() {
		return deep
	}
	return quick
}

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vh:", err)
		os.Exit(3)
	}
}

func write(v interface{}) {
	b, err := json.Marshal(v)
	fail(err)
	fail(ioutil.WriteFile(*out, b, 0644))
}

func read(v interface{}) {
	b, err := ioutil.ReadFile(*in)
	fail(err)
	fail(json.Unmarshal(b, v))
}

// w64 is a uint64 as the limbs of module Word64
func w64(x uint64) [4]int {
	return [4]int{int(x & 0xffff), int(x >> 16 & 0xffff), int(x >> 32 & 0xffff), int(x >> 48)}
}

func main() {
	if len(os.Args) < 2 || commands[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "vh: unknown command")
		os.Exit(3)
	}
	cmd := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	rng = rand.New(rand.NewSource(*seed))
	logrus.StandardLogger().ExitFunc = func(int) { panic("fatal error, exit") }
	logrus.SetOutput(ioutil.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	commands[cmd]()
}

// question is one that is put again later: an answer may not depend on what
// else is asked, before or at the same time
type question struct {
	rec m
	f   func() interface{}
}

var questions []question

// later registers what was asked for rec
func later(rec m, f func() interface{}) {
	rec["later"] = []interface{}{}
	questions = append(questions, question{rec, f})
}

// askAgain puts all questions once more, in another order and many at once,
// and then small groups of them again and again at the same time;
// rec["later"] gets the different answers there were
func askAgain() {
	var mu sync.Mutex
	known := func(l []interface{}, x interface{}) bool {
		for _, y := range l {
			if reflect.DeepEqual(x, y) {
				return true
			}
		}
		return false
	}
	put := func(q question) {
		var x interface{}
		crash := ""
		func() {
			defer func() {
				if p := recover(); p != nil {
					crash = fmt.Sprint("panic: ", p)
				}
			}()
			x = q.f()
		}()
		mu.Lock()
		defer mu.Unlock()
		if crash != "" {
			if s := fmt.Sprint(q.rec["crash"]); len(s) < 500 {
				q.rec["crash"] = s + " when asked again: " + crash
			}
			return
		}
		if l := q.rec["later"].([]interface{}); !known(l, x) && len(l) < 5 {
			q.rec["later"] = append(l, x)
		}
	}
	qs := append(append([]question{}, questions...), questions...)
	rng.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
	end := time.Now().Add(time.Duration(n(25, 200)) * time.Second)
	parallel(len(qs), func(i int) {
		if time.Now().Before(end) {
			put(qs[i])
		}
	})
	for end := time.Now().Add(time.Duration(n(4, 60)) * time.Second); len(qs) > 0 && time.Now().Before(end); {
		group := []question{}
		for k := 2 + rng.Intn(2); k > 0; k-- {
			group = append(group, qs[rng.Intn(len(qs))])
		}
		var wg sync.WaitGroup
		stop := time.Now().Add(40 * time.Millisecond)
		for g := 0; g < 9; g++ {
			wg.Add(1)
			go func(q question) {
				defer wg.Done()
				for time.Now().Before(stop) {
					put(q)
				}
			}(group[g%len(group)])
		}
		wg.Wait()
	}
}

// catch calls f; it tells how f failed to return: by a panic (or a fatal error), or not at all
func catch(f func()) string { return catchFor(30*time.Second, f) }

func catchFor(d time.Duration, f func()) string {
	c := make(chan string, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				c <- fmt.Sprint("panic: ", x)
			}
		}()
		f()
		c <- ""
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case s := <-c:
		return s
	case <-t.C:
		return "hang"
	}
}
