// Command drv runs scenarios against the real gosu-pp code and records what happened as JSON
// traces for the TLA+ trace acceptors in ../spec.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
)

type M = map[string]interface{}
type L = []interface{}

// Case is one recorded execution.
type Case struct {
	ID     string `json:"id"`
	Status string `json:"status"`
	In     M      `json:"in"`
	Ev     L      `json:"ev"`
	Note   string `json:"note,omitempty"` // input text etc., for the replay file
}

func (c *Case) add(e M) { c.Ev = append(c.Ev, e) }

type Run struct {
	seed     int64
	thorough bool
	rng      *rand.Rand
	in       string // behaviours generated by TLC (JSON array)
	args     map[string]string

	mu      sync.Mutex
	cases   []*Case
	cur     *Case
	started time.Time
	out     string
	limit   time.Duration

	startedCPU time.Duration
}

// F encodes a float64 for the specification.
func F(x float64) [2]int32 {
	b := math.Float64bits(x)
	if math.IsNaN(x) {
		b = 0x7ff8000000000000
	}
	return [2]int32{int32(b >> 32), int32(b)}
}

func FS(xs []float64) [][2]int32 {
	r := make([][2]int32, len(xs))
	for i, x := range xs {
		r[i] = F(x)
	}
	return r
}

func (r *Run) n(quick, thorough int) int {
	if r.thorough {
		return thorough
	}
	return quick
}

// do records one case; a panic of the code under test becomes its status.
func (r *Run) do(id string, in M, f func(c *Case)) {
	if in == nil {
		in = M{}
	}
	in["_"] = 0 // never an empty object
	c := &Case{ID: id, Status: "ok", In: in, Ev: L{}}
	r.mu.Lock()
	r.cur, r.started, r.startedCPU = c, time.Now(), cpuTime()
	r.mu.Unlock()
	func() {
		defer func() {
			if p := recover(); p != nil {
				c.Status = fmt.Sprintf("panic: %v", p)
			}
		}()
		f(c)
	}()
	if d := time.Since(r.started); d > time.Second && os.Getenv("VERIF_SLOW") != "" {
		fmt.Fprintln(os.Stderr, "slow case", id, d)
	}
	r.mu.Lock()
	r.cur = nil
	r.cases = append(r.cases, c)
	r.mu.Unlock()
}

func (r *Run) flush() {
	f, err := os.Create(r.out)
	if err != nil {
		fatal(err)
	}
	if err := json.NewEncoder(f).Encode(r.cases); err != nil {
		fatal(err)
	}
	if err := f.Close(); err != nil {
		fatal(err)
	}
}

// cpuTime is the processor time this process has used.
func cpuTime() time.Duration {
	var u syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// watchdog turns a case that does not finish, or eats all memory, into a recorded outcome.
func (r *Run) watchdog() {
	for {
		time.Sleep(20 * time.Millisecond)
		r.mu.Lock()
		wall := time.Since(r.started)
		hung := r.cur != nil && (wall > r.limit && cpuTime()-r.startedCPU > r.limit || wall > 5*r.limit) // a busy machine is no reason
		if r.cur != nil && !hung && time.Since(r.started) > 200*time.Millisecond {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			hung = ms.HeapAlloc > 6<<30
		}
		if hung {
			c := &Case{ID: r.cur.ID, Status: "did not finish", In: r.cur.In, Ev: L{}, Note: r.cur.Note}
			r.cases = append(r.cases, c)
			r.flush()
			fmt.Println("cases", len(r.cases), "hang", c.ID)
			os.Exit(0)
		}
		r.mu.Unlock()
	}
}

func fatal(v ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"drv:"}, v...)...)
	os.Exit(3)
}

func (r *Run) behaviours(v interface{}) {
	b, err := os.ReadFile(r.in)
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(b, v); err != nil {
		fatal(err)
	}
}

var suites = map[string]func(*Run){}

func main() {
	suite := flag.String("suite", "", "")
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "", "")
	in := flag.String("in", "", "")
	want := flag.String("want", "", "which observations to record, where a suite serves several properties")
	limit := flag.Int("limit", 40, "seconds one case may take")
	flag.Parse()

	f := suites[*suite]
	if f == nil {
		fatal("unknown suite", *suite)
	}
	r := &Run{seed: *seed, thorough: *tier == "thorough", rng: rand.New(rand.NewSource(*seed*7919 + 17)),
		in: *in, out: *out, args: map[string]string{"want": *want}, limit: time.Duration(*limit) * time.Second}
	go r.watchdog()
	f(r)
	r.mu.Lock()
	r.flush()
	ev := 0
	for _, c := range r.cases {
		ev += len(c.Ev)
	}
	fmt.Println("cases", len(r.cases), "events", ev)
	os.Exit(0)
}
