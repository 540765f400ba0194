// Package engine drives properties: seeded generation and shrinking with
// rapid, exhaustive enumeration of small cases, replay of saved cases,
// crash/hang containment in worker processes, and evidence.
package engine

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"runtime"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// Ctx collects what a case exercised.
type Ctx struct {
	labels     []string
	nontrivial bool
}

// Label classifies the case (counted per distinct label and case).
func (c *Ctx) Label(l string) {
	for _, x := range c.labels {
		if x == l {
			return
		}
	}
	c.labels = append(c.labels, l)
}

// NonTrivial marks the case as non-trivial by the rule of its facet.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// LabelIf labels when cond holds.
func (c *Ctx) LabelIf(cond bool, l string) {
	if cond {
		c.Label(l)
	}
}

// NonTrivialIf marks when cond holds.
func (c *Ctx) NonTrivialIf(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Facet is one executable check of a property.
type Facet struct {
	Name     string
	Rule     string
	Quick    int // random cases in the quick tier (whole run, over all shards)
	Thorough int
	Race     bool // run in the race-instrumented binary, cases traced

	gen    func(*rapid.T) any
	check  func(*Ctx, any) error
	decode func(json.RawMessage) (any, error)
	enum   func(tier string, yield func(any) bool)
}

// The counts of the facets are relative to each other; these scale them to
// the time there is.
const (
	quickFactor    = 8
	thoroughFactor = 4
)

// F builds a facet from a typed generator and a typed check. Cases must
// survive a JSON round trip.
func F[C any](name, rule string, quick, thorough int, gen func(*rapid.T) C, check func(*Ctx, C) error) *Facet {
	f := &Facet{Name: name, Rule: rule, Quick: quick * quickFactor, Thorough: thorough * thoroughFactor}
	if gen != nil {
		f.gen = func(t *rapid.T) any {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(interface{ OutOfScope() string }); ok {
						t.SkipNow() // the case is not one the property speaks about
					}
					panic(r)
				}
			}()
			return gen(t)
		}
	}
	f.check = func(c *Ctx, x any) error { return check(c, x.(C)) }
	f.decode = func(raw json.RawMessage) (any, error) {
		var c C
		err := json.Unmarshal(raw, &c)
		return c, err
	}
	return f
}

// Enum adds an exhaustive enumeration, run before the random cases.
func Enum[C any](f *Facet, enum func(tier string, yield func(C) bool)) *Facet {
	f.enum = func(tier string, yield func(any) bool) {
		enum(tier, func(c C) bool { return yield(c) })
	}
	return f
}

// Prop is a property with its facets.
type Prop struct {
	ID     string
	Facets []*Facet
}

var (
	props []*Prop
	mu    sync.Mutex
)

// Register adds a property.
func Register(id string, facets ...*Facet) {
	mu.Lock()
	defer mu.Unlock()
	props = append(props, &Prop{ID: id, Facets: facets})
}

func findProp(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func (p *Prop) facet(name string) *Facet {
	for _, f := range p.Facets {
		if f.Name == name {
			return f
		}
	}
	return nil
}

// runCase executes the check, turning a panic of the code under test into a
// failure.
func runCase(f *Facet, ctx *Ctx, c any) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if d, ok := r.(interface{ OutOfScope() string }); ok {
				ctx.nontrivial = false
				ctx.Label("out of scope: " + d.OutOfScope())
				err = nil
				return
			}
			if m, ok := r.(string); ok && strings.HasPrefix(m, "harness:") {
				panic(r) // trouble of the harness, not a verdict
			}
			buf := make([]byte, 8192)
			n := runtime.Stack(buf, false)
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(buf[:n])))
		}
	}()
	return f.check(ctx, c)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "gotokenizers") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}
