package engine

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Fuzz fuzzes the facets of the property named by VERIF_FUZZ_PROP: the input
// is a facet number and the bits its generator draws from. Cases that fail are
// saved in VERIF_FUZZ_OUT, one file each.
func Fuzz(f *testing.F) {
	p := findProp(os.Getenv("VERIF_FUZZ_PROP"))
	dir := os.Getenv("VERIF_FUZZ_OUT")
	if p == nil || dir == "" {
		f.Skip("no property to fuzz")
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	var facets []*Facet
	for _, x := range p.Facets {
		if x.gen != nil && !x.Race {
			facets = append(facets, x)
		}
	}
	x := hash64(p.ID, fmt.Sprint(seed))
	for i := range facets {
		for _, n := range []int{64, 512, 4096, 4096, 16384} {
			b := make([]byte, n)
			for j := range b {
				x = x*6364136223846793005 + 1442695040888963407
				b[j] = byte(x >> 56)
				if n == 512 && j%8 > 0 { // small numbers
					b[j] = 0
				}
			}
			f.Add(byte(i), b)
		}
	}
	var c any
	var failure error
	var facet *Facet
	body := rapid.MakeFuzz(func(t *rapid.T) {
		c = facet.gen(t)
		if failure = runCase(facet, &Ctx{}, c); failure != nil {
			t.Fatalf("%v", failure)
		}
	})
	f.Fuzz(func(t *testing.T, which byte, bits []byte) {
		facet, failure = facets[int(which)%len(facets)], nil
		defer func() {
			if failure != nil {
				raw, err := json.Marshal(c)
				must(err)
				b, _ := json.Marshal(&Failure{Facet: facet.Name, Case: raw, Msg: failure.Error()})
				must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("%016x.json", hash64(string(raw)))), b, 0o644))
			}
		}()
		body(t, bits)
	})
}

var execs = regexp.MustCompile(`execs: (\d+).*new interesting: (\d+) \(total: (\d+)\)`)

// runFuzz runs the fuzzing binary; its failures are the smallest failing case
// per facet.
func runFuzz(bin, prop, dir, fuzzTime string, seed uint64) (failures []Failure, stats map[string]any, trouble string) {
	out := filepath.Join(dir, "fuzz-out")
	must(os.MkdirAll(out, 0o755))
	cmd := exec.Command(bin, "-test.run=^$", "-test.fuzz=^FuzzProp$", "-test.fuzzcachedir="+filepath.Join(dir, "fuzz-cache"),
		"-test.fuzztime="+fuzzTime, "-test.parallel=8", "-test.fuzzminimizetime=20s")
	cmd.Dir = out
	cmd.Env = append(os.Environ(), "VERIF_FUZZ_PROP="+prop, "VERIF_FUZZ_OUT="+out, fmt.Sprintf("VERIF_SEED=%d", seed), "GOMAXPROCS=8")
	var sb strings.Builder
	lw := &limitWriter{b: &sb, max: 4 << 20}
	cmd.Stdout, cmd.Stderr = lw, lw
	start := time.Now()
	err := cmd.Run()
	stats = map[string]any{"seconds": time.Since(start).Seconds()}
	if all := execs.FindAllStringSubmatch(sb.String(), -1); len(all) > 0 {
		last := all[len(all)-1]
		for i, k := range []string{"executions", "new_interesting", "corpus"} {
			stats[k], _ = strconv.Atoi(last[i+1])
		}
	}
	files, _ := filepath.Glob(filepath.Join(out, "*.json"))
	best := map[string]Failure{}
	for _, path := range files {
		b, rerr := os.ReadFile(path)
		var f Failure
		if rerr != nil || json.Unmarshal(b, &f) != nil {
			continue
		}
		if old, ok := best[f.Facet]; !ok || len(f.Case) < len(old.Case) {
			best[f.Facet] = f
		}
	}
	for _, f := range best {
		failures = append(failures, f)
	}
	sort.Slice(failures, func(i, j int) bool { return failures[i].Facet < failures[j].Facet })
	if err != nil && len(failures) == 0 {
		trouble = "fuzzing: " + err.Error() + ": " + head(sb.String(), 3000)
	}
	return failures, stats, trouble
}
