package props

import (
	"errors"
	"fmt"
	"reflect"
	"slices"
	"unicode"
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/bertnormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/lowercasenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/stripnormalizer"
	"pgregory.net/rapid"

	"verif/harness/engine"
	"verif/harness/gen"
	"verif/harness/ref"
)

// Norm is a normalizer in data form.
type Norm struct {
	K    string // lower strip bert seq fail append
	L, R bool   `json:",omitempty"`
	Bert int    `json:",omitempty"`
	Def  bool   `json:",omitempty"` // built with the default constructor
	Seq  []Norm `json:",omitempty"`
}

type failNorm struct{ err error }

func (f failNorm) Normalize(*NSt) error { return f.err }

// appendNorm is a normalizer of ours which is not idempotent.
type appendNorm struct{ s string }

func (a *appendNorm) Normalize(ns *NSt) error {
	ns.Append(a.s)
	return nil
}

const appended = "Éa "

var errNorm = errors.New("normalizer failed")

// lib builds the library's normalizer; failing members return errs[i].
func (n Norm) lib(errs *[]error) normalizers.Normalizer {
	switch n.K {
	case "lower":
		return lowercasenormalizer.NewLowerCaseNormalizer()
	case "strip":
		return stripnormalizer.NewStripNormalizer(n.L, n.R)
	case "bert":
		if n.Def {
			return bertnormalizer.DefaultBertNormalizer()
		}
		return bertnormalizer.NewBertNormalizer(n.Bert&1 != 0, n.Bert&2 != 0, n.Bert&4 != 0, n.Bert&8 != 0)
	case "seq":
		var ms []normalizers.Normalizer
		for i, m := range n.Seq {
			// a member given twice is one object
			same := slices.IndexFunc(n.Seq[:i], func(o Norm) bool { return m.fails() == 0 && reflect.DeepEqual(o, m) })
			if same >= 0 {
				ms = append(ms, ms[same])
				continue
			}
			ms = append(ms, m.lib(errs))
		}
		return sequencenormalizer.NewSequenceNormalizer(ms)
	case "append":
		return &appendNorm{appended}
	case "fail":
		e := fmt.Errorf("normalizer failure %d", len(*errs))
		*errs = append(*errs, e)
		return failNorm{e}
	}
	panic("harness: bad normalizer")
}

// apply runs the reference; it returns the index of the failing member met, or
// -1. next counts the failing members seen in construction order.
func (n Norm) apply(m *ref.NS, next *int) int {
	switch n.K {
	case "lower":
		m.Map(unicode.ToLower)
	case "strip":
		m.TrimLR(n.L, n.R)
	case "bert":
		b := n.Bert
		if n.Def {
			b = 15
		}
		ref.Bert(m, b&1 != 0, b&2 != 0, b&4 != 0, b&8 != 0)
	case "seq":
		for _, x := range n.Seq {
			if e := x.apply(m, next); e >= 0 {
				return e
			}
		}
	case "append":
		m.Append(appended)
	case "fail":
		return *next
	}
	return -1
}

// count the failing members inside (their construction order is depth-first).
func (n Norm) fails() int {
	if n.K == "fail" {
		return 1
	}
	c := 0
	for _, x := range n.Seq {
		c += x.fails()
	}
	return c
}

// firstFail is the index of the first failing member in depth-first order: the
// first one met is always the first constructed.
func (n Norm) run(m *ref.NS) bool {
	zero := 0
	return n.apply(m, &zero) >= 0
}

func drawNorm(t *rapid.T, depth int, fail bool) Norm {
	k := rapid.IntRange(0, 9).Draw(t, "norm")
	switch {
	case k < 2:
		return Norm{K: "lower"}
	case k < 5:
		return Norm{K: "strip", L: rapid.Bool().Draw(t, "l"), R: rapid.Bool().Draw(t, "r")}
	case k < 8:
		return Norm{K: "bert", Bert: rapid.IntRange(0, 15).Draw(t, "bert"), Def: rapid.IntRange(0, 5).Draw(t, "def") == 0}
	case k == 8 && fail:
		return Norm{K: "fail"}
	case depth > 0:
		n := Norm{K: "seq"}
		for range rapid.IntRange(0, 4).Draw(t, "nseq") {
			if k := len(n.Seq); k > 0 && rapid.IntRange(0, 3).Draw(t, "twice") == 0 {
				n.Seq = append(n.Seq, n.Seq[rapid.IntRange(0, k-1).Draw(t, "which")])
				continue
			}
			if rapid.IntRange(0, 7).Draw(t, "append") == 0 {
				n.Seq = append(n.Seq, Norm{K: "append"})
				continue
			}
			n.Seq = append(n.Seq, drawNorm(t, depth-1, fail))
		}
		return n
	}
	return Norm{K: "lower"}
}

// NormCase normalizes an edited text.
type NormCase struct {
	H Hist
	N Norm
}

// Block is a range of code points to sweep.
type Block struct {
	Lo, Hi rune
}

func enumBlocks(size rune) func(tier string, yield func(Block) bool) {
	return func(tier string, yield func(Block) bool) {
		for lo := rune(0); lo <= unicode.MaxRune; lo += size {
			if !yield(Block{lo, min(lo+size, unicode.MaxRune+1)}) {
				return
			}
		}
	}
}

// runes lists the characters of the block.
func (b Block) runes() []rune {
	var out []rune
	for r := b.Lo; r < b.Hi; r++ {
		if utf8.ValidRune(r) {
			out = append(out, r)
		}
	}
	return out
}

// sweepNorm checks a normalizer on every character of a block, all together
// and, on mismatch, one by one to name it.
func sweepNorm(b Block, n Norm) error {
	rs := b.runes()
	all := ""
	for i, r := range rs {
		if i%4 == 3 {
			all += " "
		}
		all += string(r)
	}
	one := func(text string) error {
		l, m := normalizedstring.FromString(text), ref.FromString(text)
		if err := n.lib(&[]error{}).Normalize(l); err != nil {
			return err
		}
		n.run(m)
		return cmpAll(l, m)
	}
	err := one(all)
	if err == nil {
		return nil
	}
	for _, r := range rs {
		if e := one("x" + string(r) + " y" + string(r)); e != nil {
			return fmt.Errorf("normalizer %+v on U+%04X: %w", n, r, e)
		}
	}
	return fmt.Errorf("normalizer %+v on block U+%04X: %w", n, b.Lo, err)
}

func init() {
	drawNC := func(depth int, only string) func(t *rapid.T) NormCase {
		return func(t *rapid.T) NormCase {
			c := NormCase{H: drawHist(gen.HistKinds, 3)(t)}
			if rapid.IntRange(0, 1).Draw(t, "fresh") == 0 {
				c.H.Ops = nil
			}
			c.N = drawNorm(t, depth, true)
			if only != "" {
				c.N = Norm{K: only, Bert: rapid.IntRange(0, 15).Draw(t, "bert")}
			}
			return c
		}
	}
	check := func(ctx *Ctx, c NormCase) error {
		l, m, err := applyAll(c.H, nil)
		if err != nil {
			return err
		}
		before := m.Text()
		var errs []error
		lib := c.N.lib(&errs)
		failed := c.N.run(m)
		ctx.NonTrivialIf(m.Text() != before)
		ctx.Label(c.N.K)
		ctx.LabelIf(failed, "member fails")
		err = lib.Normalize(l)
		if failed {
			if len(errs) == 0 || err != errs[0] {
				return fmt.Errorf("normalizer %+v on %+q: error %v, want %v", c.N, before, err, errs)
			}
		} else if err != nil {
			return fmt.Errorf("normalizer %+v on %+q: unexpected error %v", c.N, before, err)
		}
		if err := cmpAll(l, m); err != nil {
			return fmt.Errorf("normalizer %+v on %+q: %w", c.N, before, err)
		}
		return nil
	}
	engine.Register("C09",
		engine.Enum(engine.F("normalizers", "the normalizer changed the text", 300000, 4000000, drawNC(2, ""), check), enumHugeNorms(Norm{K: "lower"}, Norm{K: "strip", R: true}, Norm{K: "seq", Seq: []Norm{{K: "strip", L: true}, {K: "lower"}}})),
		lengths(4, 320, check, normsOf(Norm{K: "lower"}, Norm{K: "strip", L: true}, Norm{K: "seq", Seq: []Norm{{K: "strip", L: true, R: true}, {K: "lower"}}})),
		engine.Enum(engine.F("codepoints", "every code point, lowercase and strip", 0, 0, nil, func(ctx *Ctx, b Block) error {
			ctx.NonTrivial()
			for _, n := range []Norm{{K: "lower"}} {
				if err := sweepNorm(b, n); err != nil {
					return err
				}
			}
			for _, r := range b.runes() {
				for _, n := range []Norm{{K: "strip", L: true}, {K: "strip", R: true}, {K: "strip", L: true, R: true}} {
					text := string(r) + "a" + string(r) + "b" + string(r)
					l, m := normalizedstring.FromString(text), ref.FromString(text)
					if err := n.lib(nil).Normalize(l); err != nil {
						return err
					}
					n.run(m)
					if err := cmpAll(l, m); err != nil {
						return fmt.Errorf("normalizer %+v on U+%04X: %w", n, r, err)
					}
				}
			}
			return nil
		}), enumBlocks(64)),
	)
	engine.Register("C10",
		engine.Enum(engine.F("bert", "the normalizer changed the text", 300000, 4000000, drawNC(0, "bert"), check), enumHugeNorms(Norm{K: "bert", Def: true}, Norm{K: "bert", Bert: 2}, Norm{K: "bert", Bert: 4}, Norm{K: "bert", Bert: 15})),
		lengths(4, 320, check, normsOf(Norm{K: "bert", Def: true}, Norm{K: "bert", Bert: 3}, Norm{K: "bert", Bert: 4}, Norm{K: "bert", Bert: 15})),
		engine.Enum(engine.F("codepoints", "every code point under each of the 16 option sets", 0, 0, nil, func(ctx *Ctx, b Block) error {
			ctx.NonTrivial()
			for opt := 0; opt < 16; opt++ {
				if err := sweepNorm(b, Norm{K: "bert", Bert: opt}); err != nil {
					return err
				}
			}
			return sweepNorm(b, Norm{K: "bert", Def: true})
		}), enumBlocks(64)),
	)
}
