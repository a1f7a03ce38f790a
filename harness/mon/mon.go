// Package mon runs workloads case by case under watch and collects what the
// monitors saw. A case is identified by (property, stream, index) and the seed;
// everything random in it derives from those, so it can be replayed.
package mon

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/rnd"
)

const Shards = 8

// Stream is a family of cases of one property.
type Stream struct {
	Name     string
	Quick    int // number of cases per tier
	Thorough int
	Run      func(c *Case)
}

// Check is everything that decides one property.
type Check struct {
	ID      string
	Rule    string // how cases are made, what makes one non-trivial
	Streams []Stream
	// Need lists counters that must be positive, or the run observed nothing.
	Need []string
	// Exhaustive is set if the streams enumerate the finite space of the statement.
	Exhaustive bool
	// Once is set if the random streams are run only once per check; otherwise
	// they are repeated with other seeds.
	Once bool
	// Drive replaces the sharded runner (driver side) if set.
	Mode string // "", "race", "platforms", "windows" or "generate"
}

// Every makes a stream of one in d cases of st, spread over its whole range.
func (st Stream) Every(name string, d int) Stream {
	run := st.Run
	pick := func(i, n int) int {
		h := fnv.New32a()
		fmt.Fprintf(h, "%s/%d", name, i)
		if k := i*d + int(h.Sum32()%uint32(d)); k < n {
			return k
		}
		return n - 1
	}
	return Stream{Name: name, Quick: (st.Quick + d - 1) / d, Thorough: (st.Thorough + d - 1) / d, Run: func(c *Case) {
		idx, n := c.Idx, st.Thorough
		if c.Quick {
			n = st.Quick
		}
		defer func() { c.Idx = idx }()
		c.Idx = pick(idx, n)
		run(c)
	}}
}

type Case struct {
	Rng    *rnd.Rand
	EA     bool
	Quick  bool
	Seed   int64
	Stream string
	Idx    int
	w      *worker
	log    []string
}

type violation struct{ msg string }

// Fail reports that the property is broken.
func (c *Case) Fail(format string, a ...any) {
	panic(violation{fmt.Sprintf(format, a...)})
}

// Logf adds to the description of the case shown with a violation.
func (c *Case) Logf(format string, a ...any) {
	if len(c.log) < 200 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		c.log = append(c.log, s)
	}
}

// Count adds to an observation counter.
func (c *Case) Count(name string, n int) { c.w.counts[name] += int64(n) }

// Max keeps the maximum of an observation.
func (c *Case) Max(name string, n int) {
	if int64(n) > c.w.maxes[name] {
		c.w.maxes[name] = int64(n)
	}
}

// Eval counts evaluations of the oracle.
func (c *Case) Eval(n int) { c.w.evals += int64(n); Tick() }

var progress int64

// Tick tells the watchdog that the code under test keeps returning.
func Tick() { atomic.AddInt64(&progress, 1) }

// Distinct records a distinct non-trivial case.
func (c *Case) Distinct(parts ...any) {
	if len(c.w.seen) >= 2_000_000 {
		return
	}
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		case int:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(v))
			h.Write(b[:])
		default:
			fmt.Fprint(h, p)
		}
		h.Write([]byte{0xff, 0})
	}
	c.w.seen[h.Sum64()] = struct{}{}
	if c.w.samples[c.Stream] < 1 {
		c.Sample("%+q", fmt.Sprint(parts...))
	}
}

// Sample keeps a few written-out cases as evidence.
func (c *Case) Sample(format string, a ...any) {
	if c.w.samples[c.Stream] < 2 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.w.samples[c.Stream]++
		c.w.sampleText = append(c.w.sampleText, c.Stream+"#"+fmt.Sprint(c.Idx)+": "+s)
	}
}

type keptText struct{ what, text, copy string }

// Keep remembers a text that the code under test handed out: it must stay as it
// is, whatever is done later. It is compared now and then, also in later cases.
func (c *Case) Keep(what, s string) {
	if len(s) > 4096 {
		return
	}
	w := c.w
	if len(w.kept) < 64 {
		w.kept = append(w.kept, keptText{})
	}
	k := &w.kept[w.keeps%len(w.kept)]
	if w.keeps++; w.keeps%16 == 0 {
		c.CheckKept()
	}
	*k = keptText{what, s, strings.Clone(s)}
	w.counts["results kept and compared later"]++
}

// CheckKept compares what was kept.
func (c *Case) CheckKept() {
	for i, k := range c.w.kept {
		if k.text != k.copy {
			c.w.kept[i] = keptText{}
			c.Fail("%s was %+q when it was returned and has become %+q", k.what, k.copy, k.text)
		}
	}
}

// Do runs code under test; a panic in it is a violation.
func (c *Case) Do(what string, f func()) {
	Tick()
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(violation); ok {
				panic(v)
			}
			panic(violation{fmt.Sprintf("%s panicked: %v\n%s", what, e, trimStack(debug.Stack()))})
		}
	}()
	f()
}

// Try runs code under test and returns what it panicked with.
func (c *Case) Try(f func()) (panicked any) {
	Tick()
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(violation); ok {
				panic(v)
			}
			panicked = e
		}
	}()
	f()
	return nil
}

// TryCheck runs a check and returns its violation, if any, instead of reporting it.
func (c *Case) TryCheck(f func()) (v any) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(violation); ok {
				v = x
				return
			}
			panic(e)
		}
	}()
	f()
	return nil
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Result is what a worker hands to the driver.
type Result struct {
	Counts  map[string]int64
	Maxes   map[string]int64
	Evals   int64
	Cases   int64
	Hashes  []uint64
	Samples []string
	Failure *Failure
	EA      bool
}

type Failure struct {
	Property string
	Stream   string
	Index    int
	Seed     int64
	Tier     string
	Shard    int
	EA       bool
	Message  string
	Log      []string
}

type worker struct {
	counts, maxes map[string]int64
	evals, cases  int64
	seen          map[uint64]struct{}
	samples       map[string]int
	sampleText    []string
	kept          []keptText
	keeps         int
}

// ShardOf spreads cases over shards without correlating with the index.
func ShardOf(stream string, idx int) int {
	h := fnv.New32a()
	fmt.Fprintf(h, "%s/%d", stream, idx)
	x := h.Sum32()
	x ^= x >> 15
	x *= 0x2c1b3c6d
	x ^= x >> 12
	return int(x % Shards)
}

// ShardEA is the width mode a shard runs in.
func ShardEA(shard int) bool { return shard%2 == 1 }

// Platform is the build that runs a shard of a check of mode "platforms".
func Platform(shard int) string {
	switch {
	case shard < 4:
		return "386"
	case shard < 6:
		return "appengine"
	}
	return "wasm"
}

func caseSeed(seed int64, prop, stream string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, stream, idx)
	return int64(h.Sum64())
}

const dictSuffix = "+dictionary"

const (
	cpuLimit  = 60 * time.Second // between two signs of progress, which are milliseconds apart
	heapLimit = 2 << 30

	blockLimit = 75 * time.Second
)

// blocked describes the goroutines that have been waiting in the code under
// test for a minute, if no goroutine could go on and let them continue.
func blocked() string {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	found := ""
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 { // the watchdog itself
			continue
		}
		head, rest, _ := strings.Cut(g, "\n")
		_, state, _ := strings.Cut(head, "[")
		state, _, _ = strings.Cut(state, "]")
		kind, long, _ := strings.Cut(state, ", ")
		switch kind {
		case "running", "runnable", "syscall", "sleep", "IO wait", "preempted", "copystack":
			return "" // something may still happen
		}
		if !strings.Contains(long, "minute") {
			if kind == "select" || strings.HasPrefix(kind, "chan ") || strings.HasPrefix(kind, "sync") || strings.HasPrefix(kind, "sema") {
				return ""
			}
			continue // goroutines of the runtime
		}
		// who waits: the first frame outside the standard library
		for _, l := range strings.Split(rest, "\n") {
			if strings.HasPrefix(l, "\t") {
				continue
			}
			path, _, _ := strings.Cut(l, "(")
			if strings.Contains(path, "github.com/ilius/") {
				found += g + "\n\n"
				break
			}
			if strings.Contains(path, ".com/") || strings.HasPrefix(path, "verif/") || strings.HasPrefix(path, "main.") || strings.HasPrefix(path, "created by") {
				break
			}
		}
	}
	return found
}

// rounds is how often the random streams of a check are run, each time with
// another seed.
func rounds(ch *Check, tier string) int {
	switch {
	case ch.Once || ch.Mode != "":
		return 1
	case tier == "thorough":
		return 12
	}
	return 2
}

const roundStep = 1_000_003

// RunShard runs the cases of one shard. onlyStream/onlyIdx restrict it (replay).
func RunShard(ch *Check, shard int, ea bool, seed int64, tier, out, onlyStream string, onlyIdx int) int {
	w := &worker{counts: map[string]int64{}, maxes: map[string]int64{}, seen: map[uint64]struct{}{}, samples: map[string]int{}}
	var mu sync.Mutex // guards cur against the watchdog
	var cur *Case
	finish := func(f *Failure) {
		r := Result{Counts: w.counts, Maxes: w.maxes, Evals: w.evals, Cases: w.cases, Samples: w.sampleText, Failure: f, EA: ea}
		for h := range w.seen {
			r.Hashes = append(r.Hashes, h)
		}
		sort.Slice(r.Hashes, func(i, j int) bool { return r.Hashes[i] < r.Hashes[j] })
		b, err := json.Marshal(r)
		if err == nil {
			err = os.WriteFile(out, b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot write result:", err)
			os.Exit(2)
		}
	}
	mkFailure := func(c *Case, msg string) *Failure {
		return &Failure{Property: ch.ID, Stream: c.Stream, Index: c.Idx, Seed: c.Seed, Tier: tier, Shard: shard, EA: ea, Message: msg, Log: c.log}
	}
	go func() { // watchdog: progress measured in calls that returned, cost in CPU time
		last, since, at := int64(-1), cpuTime(), time.Now()
		marked := false
		for {
			time.Sleep(500 * time.Millisecond)
			p := atomic.LoadInt64(&progress)
			if p != last {
				last, since, at, marked = p, cpuTime(), time.Now(), false
				continue
			}
			why := ""
			if d := cpuTime() - since; d > cpuLimit {
				why = fmt.Sprintf("the call did not return after %v of CPU time", d)
			}
			if !marked && time.Since(at) > 5*time.Second {
				runtime.GC() // from now on the runtime knows how long goroutines have been waiting
				marked = true
			}
			if time.Since(at) > blockLimit {
				if g := blocked(); g != "" {
					why = "deadlock: nothing is running and the code under test waits for ever\n" + g
				}
				at = time.Now()
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > heapLimit {
				why = fmt.Sprintf("runaway memory use: %d MB live in one case", ms.HeapAlloc>>20)
			}
			if why != "" {
				mu.Lock()
				c := cur
				mu.Unlock()
				if c == nil {
					continue
				}
				// the worker goroutine is stuck in the code under test; counters may be torn
				f := &Failure{Property: ch.ID, Stream: c.Stream, Index: c.Idx, Seed: c.Seed, Tier: tier, Shard: shard, EA: ea, Message: why}
				b, _ := json.Marshal(Result{Failure: f, EA: ea})
				os.WriteFile(out, b, 0o644)
				os.Exit(1)
			}
		}
	}()
	// with a dictionary there is a second pass that draws on it
	type pass struct {
		Stream
		dict bool
		end  time.Duration
		seed int64
	}
	var passes []pass
	for k := 0; k < rounds(ch, tier); k++ {
		if k > 0 && onlyStream != "" {
			break
		}
		for _, st := range ch.Streams {
			if k == 0 || st.Quick != st.Thorough { // the others enumerate something
				passes = append(passes, pass{Stream: st, seed: seed + int64(k)*roundStep})
			}
		}
	}
	if rnd.Words != nil {
		span := 40 * time.Second
		if tier == "thorough" {
			span *= 5
		}
		for i, st := range ch.Streams {
			st.Name += dictSuffix
			passes = append(passes, pass{st, true, span * time.Duration(i+1) / time.Duration(len(ch.Streams)), seed})
		}
	}
	var begin time.Time
	for _, st := range passes {
		n := st.Quick
		if tier == "thorough" {
			n = st.Thorough
		}
		if st.dict && begin.IsZero() {
			begin = time.Now()
		}
		for i := 0; i < n; i++ {
			if st.dict && onlyStream == "" && time.Since(begin) > st.end {
				break
			}
			if onlyStream != "" {
				if st.Name != onlyStream || (onlyIdx >= 0 && i != onlyIdx) {
					continue
				}
			} else if shard >= 0 && ShardOf(st.Name, i) != shard {
				continue
			}
			c := &Case{Rng: rnd.New(caseSeed(st.seed, ch.ID, st.Name, i), st.dict), EA: ea, Quick: tier != "thorough", Seed: st.seed, Stream: st.Name, Idx: i, w: w}
			mu.Lock()
			cur = c
			mu.Unlock()
			Tick()
			w.cases++
			if st.dict {
				w.counts["cases drawing on constants of the code"]++
			}
			f := runCase(c, st.Run)
			if f != "" {
				if strings.HasPrefix(f, "HARNESS: ") {
					fmt.Fprintln(os.Stderr, f)
					os.Exit(2)
				}
				finish(mkFailure(c, f))
				return 1
			}
		}
	}
	mu.Lock()
	cur = nil
	mu.Unlock()
	finish(nil)
	return 0
}

func runCase(c *Case, run func(*Case)) (fail string) {
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(violation); ok {
				fail = v.msg
				return
			}
			st := string(debug.Stack())
			// the frame that panicked is the first non-runtime one
			if strings.Contains(panicFrame(st), "github.com/ilius/go-table") {
				fail = fmt.Sprintf("panic in the code under test: %v\n%s", e, trimStack([]byte(st)))
				return
			}
			fail = fmt.Sprintf("HARNESS: %v in %s#%d\n%s", e, c.Stream, c.Idx, st)
		}
	}()
	run(c)
	c.CheckKept()
	return ""
}

func panicFrame(st string) string {
	i := strings.LastIndex(st, "panic(")
	if i < 0 {
		return st
	}
	for _, l := range strings.Split(st[i:], "\n")[2:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "strings.") || strings.HasPrefix(l, "fmt.") || l == "" {
			continue
		}
		return l
	}
	return st
}
