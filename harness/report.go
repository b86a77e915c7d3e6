package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var errStop = errors.New("enough violations")

// R collects what a monitor observes.
type R struct {
	ID      string
	Seed    int64
	Tier    string
	Scratch string

	mu           sync.Mutex
	evals        map[string]int64
	distinct     map[uint64]struct{}
	samples      []string
	sampleKinds  map[string]int
	violations   []string
	notes        []string
	extra        map[string]interface{}
	inconclusive string
	progress     int64
	dirN         int64
}

func newR(id string, seed int64, tier, scratch string) *R {
	return &R{ID: id, Seed: seed, Tier: tier, Scratch: scratch,
		evals: map[string]int64{}, distinct: map[uint64]struct{}{}, sampleKinds: map[string]int{}, extra: map[string]interface{}{}}
}

// Thorough says whether this is the thorough tier.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// N picks a workload size by tier.
func (r *R) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Rand makes an independent PRNG for a part of the workload.
func (r *R) Rand(part string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%s", r.ID, r.Seed, part)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Dir makes a scratch directory.
func (r *R) Dir() string {
	d := filepath.Join(r.Scratch, fmt.Sprintf("d%d", atomic.AddInt64(&r.dirN, 1)))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// Saw counts observations of a kind.
func (r *R) Saw(kind string) { r.SawN(kind, 1) }

// SawN counts several.
func (r *R) SawN(kind string, n int64) {
	atomic.AddInt64(&r.progress, 1)
	r.mu.Lock()
	r.evals[kind] += n
	r.mu.Unlock()
}

// Case records a case; it is counted as distinct by its text, and a few of each kind are kept as samples.
func (r *R) Case(kind string, format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	h.Write([]byte(kind + "\x00" + s))
	atomic.AddInt64(&r.progress, 1)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.distinct[h.Sum64()] = struct{}{}
	if r.sampleKinds[kind] < 3 && len(r.samples) < 60 {
		r.sampleKinds[kind]++
		r.samples = append(r.samples, kind+": "+trunc(s, 300))
	}
}

// Failf records a violation. After many, the run stops.
func (r *R) Failf(format string, args ...interface{}) {
	_, file, line, _ := runtime.Caller(1)
	s := printable(fmt.Sprintf("%s [%s:%d]", fmt.Sprintf(format, args...), filepath.Base(file), line))
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.violations) < 50 {
		r.violations = append(r.violations, s)
	}
}

// Inconclusive records that the property can't be decided.
func (r *R) Inconclusive(format string, args ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.inconclusive == "" {
		r.inconclusive = printable(fmt.Sprintf(format, args...))
	}
}

// printable replaces what can't be in a line of text.
func printable(s string) string {
	return strings.Map(func(c rune) rune {
		if c == '\n' || c == '\t' || c >= ' ' && c != 0x7f && c != '\ufffd' {
			return c
		}
		return '?'
	}, s)
}

// Stop ends the run early once there are plenty of violations. Call from the main goroutine or those of Par only.
func (r *R) Stop() {
	r.mu.Lock()
	n := len(r.violations)
	r.mu.Unlock()
	if n >= 10 {
		panic(errStop)
	}
}

// Failed says whether there has been a violation.
func (r *R) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violations) > 0
}

// Notef adds a note to the evidence.
func (r *R) Notef(format string, args ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.notes = append(r.notes, fmt.Sprintf(format, args...))
}

// Extra adds a figure to the evidence.
func (r *R) Extra(k string, v interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.extra[k] = v
}

func (r *R) write(out string) {
	r.mu.Lock()
	res := result{Done: true, Evals: r.evals, Distinct: int64(len(r.distinct)), Samples: r.samples, Violations: r.violations, Notes: r.notes, Extra: r.extra, Inconclusive: r.inconclusive}
	b, _ := json.Marshal(res)
	r.mu.Unlock()
	os.WriteFile(out+".tmp", b, 0644)
	os.Rename(out+".tmp", out)
}

// Guard runs f and turns a panic in the code under test into a violation. It says whether f returned.
func (r *R) Guard(what string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if e == errStop {
				panic(e)
			}
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, false)]
			if panicInRepo(string(buf)) {
				r.Failf("%s: panic in the code under test: %v\n%s", what, e, trunc(string(buf), 3000))
				ok = false
				return
			}
			panic(fmt.Sprintf("%v\n%s", e, buf))
		}
	}()
	f()
	return true
}

const hangAfter = 240 * time.Second

// watchdog reports a hang if nothing has been observed for minutes and goroutines are stuck in the repository's code.
func (r *R) watchdog(out string) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(2 * time.Second)
		p := atomic.LoadInt64(&r.progress)
		if p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) < hangAfter {
			continue
		}
		buf := make([]byte, 8<<20)
		buf = buf[:runtime.Stack(buf, true)]
		var stuck []string
		for _, g := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(g, repoFrame) && !idleServer(g) {
				stuck = append(stuck, g)
			}
		}
		if len(stuck) > 0 {
			r.Failf("hang: nothing has happened for %v and %d goroutines are stuck in the code under test, e.g.\n%s", hangAfter, len(stuck), trunc(strings.Join(stuck, "\n\n"), 8000))
		} else {
			r.inconclusive = "no progress:\n" + trunc(string(buf), 8000)
		}
		r.write(out)
		os.Exit(0)
	}
}

// goroutines that are meant to wait
func idleServer(g string) bool {
	for _, s := range []string{"ListenAndServe", "batchMutatorImpl).consume(", "grpc.StartServer", "net/http.(*conn).serve"} {
		if strings.Contains(g, s) && !strings.Contains(g, "localServiceImpl") {
			return true
		}
	}
	return false
}

// Par runs f for 0..n-1 on several goroutines. Once there are plenty of violations it starts no more.
func (r *R) Par(n int, f func(i int)) {
	var wg sync.WaitGroup
	var next int64 = -1
	for w := 0; w < runtime.GOMAXPROCS(0) && w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil && e != errStop {
					panic(e)
				}
			}()
			for {
				i := int(atomic.AddInt64(&next, 1))
				r.mu.Lock()
				many := len(r.violations) >= 10
				r.mu.Unlock()
				if i >= n || many {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
	r.Stop()
}
