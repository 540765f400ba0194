package engine

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Case     json.RawMessage `json:"case"`
	Msg      string          `json:"msg,omitempty"`
}

// Main is the entry point of the harness binary.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "worker":
		workerMain(os.Args[2:])
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "list":
		for _, p := range props {
			for _, f := range p.Facets {
				fmt.Println(p.ID, f.Name, f.Quick, f.Thorough)
			}
		}
	default:
		if f := commands[os.Args[1]]; f != nil {
			os.Exit(f())
		}
		os.Exit(2)
	}
}

var commands = map[string]func() int{}

// Command adds a subcommand.
func Command(name string, f func() int) { commands[name] = f }

func loadReplay(path string) (*Replay, *Facet, any, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, nil, err
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, nil, nil, err
	}
	p := findProp(r.Property)
	if p == nil {
		return nil, nil, nil, fmt.Errorf("no property %q", r.Property)
	}
	f := p.facet(r.Facet)
	if f == nil {
		return nil, nil, nil, fmt.Errorf("no facet %q in %s", r.Facet, r.Property)
	}
	c, err := f.decode(r.Case)
	return &r, f, c, err
}

// replayMain runs saved cases, bypassing the generators.
func replayMain(args []string) int {
	rc := 0
	for _, path := range args {
		r, f, c, err := loadReplay(path)
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness error:", err)
			return 2
		}
		n := 1
		if f.Race {
			n = 200
		}
		failed := false
		start, cpu := time.Now(), cpuTime()
		done := make(chan struct{})
		go func() {
			for {
				select {
				case <-done:
					return
				case <-time.After(200 * time.Millisecond):
				}
				if used := cpuTime() - cpu; used > 2*hangCPU || (time.Since(start) > hangWall && used < 2*time.Second) {
					fmt.Printf("%s: %s/%s does not terminate\n", path, r.Property, r.Facet)
					fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
					os.Exit(1)
				}
			}
		}()
		for i := 0; i < n && !failed; i++ {
			if err := runCase(f, &Ctx{}, c); err != nil {
				fmt.Printf("%s: %s/%s fails: %v\n", path, r.Property, r.Facet, err)
				fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
				rc, failed = 1, true
			}
		}
		close(done)
		if !failed {
			fmt.Printf("%s: %s/%s passes\n", path, r.Property, r.Facet)
		}
	}
	return rc
}

type finding struct {
	prop, facet, what string
	raw               json.RawMessage
}

// loadFindings reads lines `known: property=<id> facet=<name> case=<json> -- <what fails>`;
// `fixed:` lines are history and suppress nothing.
func loadFindings(path, prop string) ([]finding, error) {
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		head, what, ok := strings.Cut(l, " -- ")
		if !ok {
			return nil, fmt.Errorf("bad known-findings line %q", l)
		}
		head, cs, ok := strings.Cut(head, " case=")
		if !ok {
			return nil, fmt.Errorf("bad known-findings line %q", l)
		}
		var fd finding
		fd.what, fd.raw = what, json.RawMessage(cs)
		for _, kv := range strings.Fields(head) {
			k, v, _ := strings.Cut(kv, "=")
			switch k {
			case "property":
				fd.prop = v
			case "facet":
				fd.facet = v
			}
		}
		if fd.prop == prop {
			out = append(out, fd)
		}
	}
	return out, sc.Err()
}

type shardRun struct {
	shard int
	race  bool
	res   *WorkerResult
	code  int
	trace string
	errs  string
}

func (s *shardRun) crashed() bool { return s.res == nil || (!s.res.Done && len(s.res.Failures) == 0) }

func runWorker(bin string, args []string, dir string, tag string, env []string) (*WorkerResult, int, string) {
	out := filepath.Join(dir, tag+".json")
	os.Remove(out)
	cmd := exec.Command(bin, append([]string{"worker", "-out", out}, args...)...)
	cmd.Env = append(os.Environ(), env...)
	var eb strings.Builder
	lw := &limitWriter{b: &eb, max: 64 << 10}
	cmd.Stdout, cmd.Stderr = lw, lw
	err := cmd.Run()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		if code == -1 {
			fmt.Fprintf(&eb, "%v\n", err)
		}
	}
	b, rerr := os.ReadFile(out)
	if rerr != nil {
		return nil, code, eb.String()
	}
	var res WorkerResult
	if json.Unmarshal(b, &res) != nil {
		return nil, code, eb.String()
	}
	return &res, code, eb.String()
}

type limitWriter struct {
	mu  sync.Mutex
	b   *strings.Builder
	max int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	shards := fs.Int("shards", 8, "")
	root := fs.String("root", "/verif", "")
	raceBin := fs.String("race-bin", "", "")
	fuzzBin := fs.String("fuzz-bin", "", "coverage-guided search with this binary as well")
	fuzzTime := fs.String("fuzz-time", "180s", "")
	must(fs.Parse(args))
	start := time.Now()
	p := findProp(*id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *id)
		return 2
	}
	self, err := os.Executable()
	must(err)
	dir, err := os.MkdirTemp("", "verif-"+*id+"-")
	must(err)
	defer os.RemoveAll(dir)
	must(os.Setenv("VERIF_SCRATCH", dir))

	violations := []Failure{}
	harnessErr := ""

	// 1. known findings: the listed input, and nothing else, is excused.
	findings, err := loadFindings(filepath.Join(*root, "known_findings.txt"), *id)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		return 2
	}
	knownOpen := 0
	for _, fd := range findings {
		f := p.facet(fd.facet)
		if f == nil {
			fmt.Fprintln(os.Stderr, "harness error: known finding names unknown facet", fd.facet)
			return 2
		}
		c, err := f.decode(fd.raw)
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness error:", err)
			return 2
		}
		if err := runCase(f, &Ctx{}, c); err != nil {
			knownOpen++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, fd.what)
		} else {
			fmt.Printf("note: known finding of %s no longer fails: %s\n", *id, fd.what)
		}
	}

	// 2. saved regression inputs, each in this process (workers contain crashes
	// of generated ones; saved ones that crash fatally would be an error exit,
	// so run them in a child).
	corpus, _ := filepath.Glob(filepath.Join(*root, "corpus", *id, "*.json"))
	sort.Strings(corpus)
	replayed := 0
	for _, path := range corpus {
		r, f, _, err := loadReplay(path)
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness error:", path, err)
			return 2
		}
		replayed++
		bin := self
		if f.Race && *raceBin != "" {
			bin = *raceBin
		}
		outb, err := exec.Command(bin, "replay", path).CombinedOutput()
		if err != nil {
			msg := string(outb)
			if len(msg) > 2000 {
				msg = msg[:2000]
			}
			if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 1 || strings.Contains(string(outb), "fatal error:")) {
				violations = append(violations, Failure{Facet: r.Facet, Case: r.Case, Msg: "saved input: " + msg})
			} else {
				harnessErr = "replay of " + path + ": " + msg
			}
		}
	}

	// 3. generated cases, sharded over worker processes.
	var runs []*shardRun
	hasRace := false
	for _, f := range p.Facets {
		hasRace = hasRace || f.Race
	}
	for i := 0; i < *shards; i++ {
		runs = append(runs, &shardRun{shard: i})
	}
	if hasRace {
		if *raceBin == "" {
			fmt.Fprintln(os.Stderr, "harness error: no race binary")
			return 2
		}
		for i := 0; i < 4; i++ {
			runs = append(runs, &shardRun{shard: i, race: true})
		}
	}
	workerArgs := func(r *shardRun) []string {
		n := *shards
		if r.race {
			n = 4
		}
		a := []string{"-prop", *id, "-tier", *tier, "-seed", strconv.FormatUint(*seed, 10),
			"-shard", strconv.Itoa(r.shard), "-shards", strconv.Itoa(n)}
		if r.race {
			a = append(a, "-race")
		}
		return a
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i, r := range runs {
		wg.Add(1)
		go func(i int, r *shardRun) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			a := workerArgs(r)
			bin, env := self, []string{"GOMAXPROCS=2", "GOGC=400"}
			if r.race {
				r.trace = filepath.Join(dir, fmt.Sprintf("race%d.trace", i))
				a = append(a, "-trace", r.trace)
				bin, env = *raceBin, []string{"GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66"}
			}
			r.res, r.code, r.errs = runWorker(bin, a, dir, fmt.Sprintf("w%d", i), env)
			if r.code == -1 && r.res == nil {
				// killed from outside (memory of the sandbox, say): once more
				r.res, r.code, r.errs = runWorker(bin, a, dir, fmt.Sprintf("w%d", i), env)
			}
		}(i, r)
	}
	wg.Wait()

	for i, r := range runs {
		if !r.crashed() {
			if r.res != nil {
				violations = append(violations, r.res.Failures...)
			}
			continue
		}
		if r.race {
			// data race or fatal runtime error in a traced worker
			racy := strings.Contains(r.errs, "DATA RACE") || strings.Contains(r.errs, "fatal error:")
			b, err := os.ReadFile(r.trace)
			var fl Failure
			if racy && err == nil && json.Unmarshal(b, &fl) == nil {
				fl.Msg = "race detector / runtime: " + head(r.errs, 3000)
				violations = append(violations, fl)
				continue
			}
			harnessErr = fmt.Sprintf("race worker %d exit %d: %s", r.shard, r.code, head(r.errs, 3000))
			continue
		}
		if !strings.Contains(r.errs, "fatal error:") && !strings.Contains(r.errs, "goroutine stack exceeds") {
			harnessErr = fmt.Sprintf("worker %d exit %d: %s", r.shard, r.code, head(r.errs, 3000))
			continue
		}
		// A fatal runtime error (stack overflow, out of memory): run the same
		// deterministic shard again with tracing to find the case.
		trace := filepath.Join(dir, fmt.Sprintf("t%d.trace", i))
		res, code, errs := runWorker(self, append(workerArgs(r), "-trace", trace), dir, fmt.Sprintf("t%d", i), []string{"GOMAXPROCS=2", "GOGC=400"})
		b, err := os.ReadFile(trace)
		var fl Failure
		if (res == nil || !res.Done) && strings.Contains(errs, "fatal error:") && err == nil && json.Unmarshal(b, &fl) == nil {
			fl.Msg = fmt.Sprintf("fatal runtime error (exit %d): %s", code, head(errs, 1500))
			violations = append(violations, fl)
		} else {
			harnessErr = fmt.Sprintf("worker %d died and did not reproduce: %s", r.shard, head(r.errs, 2000))
		}
	}

	// 4. coverage-guided search over the same generators.
	var fuzzStats map[string]any
	if *fuzzBin != "" {
		fails, stats, trouble := runFuzz(*fuzzBin, *id, dir, *fuzzTime, *seed)
		violations, fuzzStats = append(violations, fails...), stats
		if trouble != "" && harnessErr == "" {
			harnessErr = trouble
		}
	}

	// merge statistics
	evals, nontriv := 0, 0
	facets := map[string]any{}
	samples := []any{}
	for _, f := range p.Facets {
		st := FacetStats{Labels: map[string]int{}}
		distinct := map[uint64]struct{}{}
		for _, r := range runs {
			if r.res == nil || r.res.Facets[f.Name] == nil {
				continue
			}
			s := r.res.Facets[f.Name]
			st.Enumerated += s.Enumerated
			st.Random += s.Random
			st.NonTrivial += s.NonTrivial
			for l, n := range s.Labels {
				st.Labels[l] += n
			}
			for _, h := range s.Hashes {
				distinct[h] = struct{}{}
			}
			if len(st.Samples) < 3 {
				st.Samples = append(st.Samples, s.Samples...)
			}
		}
		evals += st.Enumerated + st.Random
		nontriv += len(distinct)
		if len(st.Samples) > 3 {
			st.Samples = st.Samples[:3]
		}
		for _, s := range st.Samples {
			samples = append(samples, map[string]any{"facet": f.Name, "case": s})
		}
		facets[f.Name] = map[string]any{
			"enumerated": st.Enumerated, "random": st.Random, "nontrivial": st.NonTrivial,
			"distinct_nontrivial": len(distinct), "labels": st.Labels, "rule": f.Rule,
		}
	}
	rules := []string{}
	for _, f := range p.Facets {
		rules = append(rules, f.Name+": "+f.Rule)
	}
	ev := map[string]any{
		"property": *id, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": nontriv,
			"rule":    "Cases are drawn by rapid generators (seeded) and, where listed, enumerated; non-trivial per facet -- " + strings.Join(rules, "; "),
			"samples": samples, "facets": facets, "saved_inputs_replayed": replayed, "known_findings_open": knownOpen,
		},
		"assumptions": []string{"Go 1.27.3 Unicode tables, regexp and regexp2 are trusted as part of the oracle", "inputs are well-formed UTF-8 unless the property says otherwise"},
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(violations),
	}
	if fuzzStats != nil {
		ev["coverage"].(map[string]any)["coverage_guided"] = fuzzStats
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(*root, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(*root, "evidence", *id+".json"), b, 0o644))

	// report, one replay file per distinct facet
	rc := 0
	seen := map[string]bool{}
	sort.SliceStable(violations, func(i, j int) bool { return len(violations[i].Case) < len(violations[j].Case) })
	for _, v := range violations {
		rc = 1
		if seen[v.Facet] {
			continue
		}
		seen[v.Facet] = true
		rp := filepath.Join(*root, "replays")
		must(os.MkdirAll(rp, 0o755))
		path := filepath.Join(rp, fmt.Sprintf("%s-%s-%016x.json", *id, v.Facet, hash64(string(v.Case))))
		rb, _ := json.MarshalIndent(&Replay{Property: *id, Facet: v.Facet, Case: v.Case, Msg: v.Msg}, "", " ")
		must(os.WriteFile(path, rb, 0o644))
		fmt.Printf("%s/%s: %s\n  case: %s\n", *id, v.Facet, head(v.Msg, 1500), head(string(v.Case), 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, path)
	}
	if rc == 0 && harnessErr != "" {
		fmt.Fprintln(os.Stderr, "harness error:", harnessErr)
		return 3
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", *id, *tier, *seed, evals, nontriv, len(violations), time.Since(start).Seconds())
	return rc
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
