package engine

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/metrics"
	"runtime/pprof"
	"strconv"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Failure is one violation found by a worker.
type Failure struct {
	Facet string          `json:"facet"`
	Case  json.RawMessage `json:"case"`
	Msg   string          `json:"msg"`
}

// FacetStats is what a worker measured on one facet.
type FacetStats struct {
	Enumerated int            `json:"enumerated"`
	Random     int            `json:"random"`
	NonTrivial int            `json:"nontrivial"`
	Labels     map[string]int `json:"labels"`
	Samples    []any          `json:"samples"`
	Hashes     []uint64       `json:"hashes"`
}

// WorkerResult is the report of a worker process.
type WorkerResult struct {
	Failures []Failure              `json:"failures"`
	Facets   map[string]*FacetStats `json:"facets"`
	Done     bool                   `json:"done"`
}

const (
	exitHang = 42
)

type current struct {
	facet string
	c     any
	cpu   time.Duration
	wall  time.Time
}

type worker struct {
	prop     *Prop
	tier     string
	seed     uint64
	shard    int
	shards   int
	out      string
	trace    string
	only     string
	race     bool
	res      *WorkerResult
	cur      atomic.Pointer[current]
	seenHash map[string]map[uint64]struct{}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	hangCPU   = 150 * time.Second
	hangWall  = 180 * time.Second // with next to no CPU time used: blocked
	heapLimit = 3 << 30
)

// watchdog reports a case that consumes an absurd amount of CPU time (not
// wall-clock time, which depends on how busy the machine is) or memory. Cases
// cost well under a second when the code is right.
func (w *worker) watchdog() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		cur := w.cur.Load()
		if cur == nil {
			continue
		}
		metrics.Read(sample)
		heap := sample[0].Value.Uint64()
		used := cpuTime() - cur.cpu
		reason := ""
		if time.Since(cur.wall) > hangWall && used < 2*time.Second {
			reason = fmt.Sprintf("blocked: no progress on one case in %v", hangWall)
		} else if used > hangCPU {
			reason = fmt.Sprintf("does not terminate: more than %v of CPU time on one case", hangCPU)
		} else if heap > heapLimit {
			// the harness itself keeps little; make sure it is live data
			runtime.GC()
			metrics.Read(sample)
			if sample[0].Value.Uint64() > heapLimit && w.cur.Load() == cur {
				reason = fmt.Sprintf("unbounded memory: more than %d bytes live on one case", heapLimit)
			}
		}
		if reason == "" || w.cur.Load() != cur {
			continue
		}
		raw, _ := json.Marshal(cur.c)
		b, _ := json.Marshal(&WorkerResult{Failures: []Failure{{Facet: cur.facet, Case: raw, Msg: reason}}})
		os.WriteFile(w.out, b, 0o644)
		os.Exit(exitHang)
	}
}

func (w *worker) exec(f *Facet, c any, random bool) error {
	ctx := &Ctx{}
	w.cur.Store(&current{facet: f.Name, c: c, cpu: cpuTime(), wall: time.Now()})
	if w.trace != "" {
		raw, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		b, _ := json.Marshal(&Failure{Facet: f.Name, Case: raw})
		os.WriteFile(w.trace, b, 0o644)
	}
	err := runCase(f, ctx, c)
	if os.Getenv("VERIF_SLOW") != "" { // development: the slow cases
		if cur := w.cur.Load(); cur != nil && cpuTime()-cur.cpu > time.Second {
			raw, _ := json.Marshal(c)
			fmt.Fprintf(os.Stderr, "SLOW %s %s %v %.150s\n", w.prop.ID, f.Name, cpuTime()-cur.cpu, raw)
		}
	}
	w.cur.Store(nil)
	st := w.res.Facets[f.Name]
	if st == nil {
		st = &FacetStats{Labels: map[string]int{}}
		w.res.Facets[f.Name] = st
		w.seenHash[f.Name] = map[uint64]struct{}{}
	}
	if random {
		st.Random++
	} else {
		st.Enumerated++
	}
	for _, l := range ctx.labels {
		st.Labels[l]++
	}
	if ctx.nontrivial {
		st.NonTrivial++
		raw, jerr := json.Marshal(c)
		if jerr != nil {
			panic(jerr)
		}
		h := hash64(string(raw))
		seen := w.seenHash[f.Name]
		if _, ok := seen[h]; !ok {
			seen[h] = struct{}{}
			n := len(seen)
			if len(raw) < 4000 && (n == 1 || n == 17 || n == 101) && random {
				st.Samples = append(st.Samples, json.RawMessage(raw))
			}
		}
	}
	return err
}

// tb is the rapid.TB used outside `go test`.
type tb struct {
	failed bool
	log    []string
}

type tbStop struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif" }
func (t *tb) Logf(f string, a ...any)   {}
func (t *tb) Log(a ...any)              {}
func (t *tb) Skipf(f string, a ...any)  { panic("skip") }
func (t *tb) Skip(a ...any)             { panic("skip") }
func (t *tb) SkipNow()                  { panic("skip") }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *tb) Error(a ...any)            { t.failed = true; t.log = append(t.log, fmt.Sprint(a...)) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(tbStop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

var _ rapid.TB = &tb{}

func runRapid(checks int, seed uint64, prop func(*rapid.T)) (t *tb) {
	if seed == 0 {
		seed = 1
	}
	must(flag.Set("rapid.checks", strconv.Itoa(checks)))
	must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", "15s"))
	t = &tb{}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tbStop); !ok {
				panic(r)
			}
		}
	}()
	rapid.Check(t, prop)
	return t
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (w *worker) fail(f *Facet, c any, msg string) {
	raw, err := json.Marshal(c)
	must(err)
	w.res.Failures = append(w.res.Failures, Failure{Facet: f.Name, Case: raw, Msg: msg})
}

func (w *worker) runFacet(f *Facet) {
	stop := false
	if f.enum != nil {
		i := 0
		f.enum(w.tier, func(c any) bool {
			mine := i%w.shards == w.shard
			i++
			if !mine {
				return true
			}
			if err := w.exec(f, c, false); err != nil {
				w.fail(f, c, err.Error())
				stop = true
				return false
			}
			return true
		})
	}
	if stop || f.gen == nil {
		return
	}
	total := f.Quick
	if w.tier == "thorough" {
		total = f.Thorough
	}
	checks := total / w.shards
	if checks == 0 {
		checks = 1
	}
	seed := hash64(strconv.FormatUint(w.seed, 10), w.prop.ID, f.Name, strconv.Itoa(w.shard))
	var lastCase any
	var lastErr error
	t := runRapid(checks, seed, func(t *rapid.T) {
		c := f.gen(t)
		if err := w.exec(f, c, true); err != nil {
			lastCase, lastErr = c, err
			t.Fatalf("%v", err)
		}
	})
	if t.failed {
		if lastErr == nil {
			// generator trouble, not a verdict
			fmt.Fprintln(os.Stderr, "harness error in facet", f.Name, t.log)
			os.Exit(2)
		}
		w.fail(f, lastCase, lastErr.Error())
	}
}

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	out := fs.String("out", "", "")
	trace := fs.String("trace", "", "")
	race := fs.Bool("race", false, "")
	only := fs.String("facet", "", "")
	must(fs.Parse(args))
	testing.Init()
	must(flag.CommandLine.Parse(nil))
	p := findProp(*id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *id)
		os.Exit(2)
	}
	w := &worker{prop: p, tier: *tier, seed: *seed, shard: *shard, shards: *shards, out: *out, trace: *trace, race: *race,
		res: &WorkerResult{Facets: map[string]*FacetStats{}}, seenHash: map[string]map[uint64]struct{}{}}
	go w.watchdog()
	if prof := os.Getenv("HARNESS_PROFILE"); prof != "" {
		f, err := os.Create(prof)
		must(err)
		must(pprof.StartCPUProfile(f))
		defer pprof.StopCPUProfile()
	}
	for _, f := range p.Facets {
		if f.Race != w.race || (*only != "" && f.Name != *only) {
			continue
		}
		w.runFacet(f)
	}
	for n, st := range w.res.Facets {
		for h := range w.seenHash[n] {
			st.Hashes = append(st.Hashes, h)
		}
	}
	w.res.Done = true
	b, err := json.Marshal(w.res)
	must(err)
	must(os.WriteFile(*out, b, 0o644))
}
