package gen

import (
	"fmt"
	"unicode"

	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// Op is one edit of a normalized string. A and B select positions modulo what
// exists when the edit is applied, so that any list of ops is a valid history.
type Op struct {
	K  string // filter map upper lower trim trimleft trimright trimlr prepend append replace transform slice
	S  S      `json:",omitempty"` // predicate / mapping name, text
	P  *Pat   `json:",omitempty"`
	A  int    `json:",omitempty"`
	B  int    `json:",omitempty"`
	O  bool   `json:",omitempty"` // use the original referential
	L  bool   `json:",omitempty"`
	R  bool   `json:",omitempty"`
	Ch []Chg  `json:",omitempty"`
	I  int    `json:",omitempty"` // initial offset of a transform

	// Lib, when set, is the pattern object to use for P.
	Lib splitpattern.SplitPattern `json:"-"`
}

// Chg is one requested rune change.
type Chg struct {
	R rune
	N int
}

// Maps are the named mappings.
var Maps = map[string]func(rune) rune{
	"id":   func(r rune) rune { return r },
	"x":    func(rune) rune { return 'x' },
	"wide": func(rune) rune { return '𝔾' },
	"tick": func(r rune) rune { return r%0x80 + 0x20 },
	"swap": func(r rune) rune {
		return map[rune]rune{'a': 'é', 'é': 'a', ' ': '▁', '▁': ' ', '你': 'b', 'b': '你', '😀': 'c', 'c': '😀'}[r] | boolRune(r)
	},
	"space": func(r rune) rune {
		if unicode.IsSpace(r) {
			return ' '
		}
		return r
	},
	"title": unicode.ToTitle,
	// some results are no characters: they are written as U+FFFD
	"invalid": func(r rune) rune {
		switch {
		case r%3 == 0:
			return 0xD800 + r%0x800
		case r%3 == 1:
			return 0x110000 + r
		}
		return r
	},
}

func boolRune(r rune) rune {
	switch r {
	case 'a', 'é', ' ', '▁', '你', 'b', '😀', 'c':
		return 0
	}
	return r
}

var mapNames = []string{"id", "x", "wide", "tick", "swap", "space", "title", "invalid"}

// DrawOp draws an edit; s is some text of the history (to make patterns hit).
func DrawOp(t *rapid.T, s string, kinds []string) Op {
	o := Op{K: rapid.SampledFrom(kinds).Draw(t, "op")}
	switch o.K {
	case "filter":
		o.S = S(PredName(t))
		if rapid.IntRange(0, 2).Draw(t, "one") > 0 {
			o.S = S("rune:" + string(RuneOf(t, s)))
		}
	case "map":
		o.S = S(rapid.SampledFrom(mapNames).Draw(t, "map"))
	case "trimlr":
		o.L, o.R = rapid.Bool().Draw(t, "l"), rapid.Bool().Draw(t, "r")
	case "prepend", "append":
		o.S = S(ShortText(t))
	case "replace":
		p := Pattern(t, s)
		o.P = &p
		if rapid.Bool().Draw(t, "same") {
			o.S = S(Substring(t, s))
		} else {
			o.S = S(ShortText(t))
		}
	case "transform":
		o.A, o.B = rapid.IntRange(0, 40).Draw(t, "a"), rapid.IntRange(0, 40).Draw(t, "b")
		if rapid.IntRange(0, 2).Draw(t, "whole") == 0 {
			o.A, o.B = 0, -1
		}
		o.O = rapid.IntRange(0, 4).Draw(t, "orig") == 0
		if rapid.IntRange(0, 2).Draw(t, "init") == 0 {
			o.I = rapid.IntRange(0, 3).Draw(t, "i")
		}
		for range rapid.IntRange(0, 5).Draw(t, "nch") {
			n := 0
			switch k := rapid.IntRange(0, 9).Draw(t, "chk"); {
			case k < 4:
			case k < 7:
				n = 1
			default:
				n = -rapid.IntRange(1, 3).Draw(t, "rm")
			}
			r := Rune(t)
			if rapid.IntRange(0, 39).Draw(t, "invalid") == 39 {
				r = rapid.SampledFrom([]rune{0xD800, 0xDFFF, 0x110000, 0x7FFFFFFF}).Draw(t, "norune")
			}
			o.Ch = append(o.Ch, Chg{R: r, N: n})
		}
	case "slice":
		o.A, o.B = rapid.IntRange(0, 30).Draw(t, "a"), rapid.IntRange(0, 30).Draw(t, "b")
		o.O = rapid.Bool().Draw(t, "orig")
	}
	return o
}

// EditKinds are the edits in place.
var EditKinds = []string{"filter", "filter", "map", "upper", "lower", "trim", "trimleft", "trimright", "trimlr", "prepend", "append", "replace", "replace", "transform", "transform", "transform"}

// HistKinds adds slicing.
var HistKinds = append(append([]string{}, EditKinds...), "slice", "slice")

// Ops draws a list of edits.
func Ops(t *rapid.T, s string, kinds []string, maxN int) []Op {
	var ops []Op
	if maxN >= 4 && rapid.IntRange(0, 250).Draw(t, "long") == 250 {
		return longOps(t, s)
	}
	for range rapid.IntRange(0, maxN).Draw(t, "nops") {
		o := DrawOp(t, s, kinds)
		if o.P != nil && rapid.IntRange(0, 1).Draw(t, "again") == 1 {
			// an earlier pattern again
			for _, e := range ops {
				if e.P != nil {
					o.P = e.P
				}
			}
		}
		ops = append(ops, o)
	}
	return ops
}

// longOps draws a long list of small edits: the text neither vanishes nor
// explodes.
func longOps(t *rapid.T, s string) []Op {
	kinds := []string{"filter", "map", "upper", "lower", "trimlr", "prepend", "append", "prepend", "append", "replace", "replace", "transform", "transform"}
	var ops []Op
	for range rapid.IntRange(7, 150).Draw(t, "nlong") {
		o := DrawOp(t, s, kinds)
		switch o.K {
		case "filter":
			o.S = S("rune:" + string(RuneOf(t, s)))
		case "replace":
			p := Pat{Kind: "rune", R: RuneOf(t, s)}
			o.P = &p
			if r := []rune(o.S); len(r) > 1 {
				o.S = S(string(r[:1]))
			}
		case "transform":
			if o.B >= 0 {
				o.B %= 4
			} else if len(o.Ch) < 3 {
				o.B = 2
			}
		}
		ops = append(ops, o)
	}
	return ops
}

func pred(name string) func(rune) bool {
	if len(name) > 5 && name[:5] == "rune:" {
		x := []rune(name[5:])[0]
		return func(r rune) bool { return r != x }
	}
	return Preds[name]
}

// Apply performs the op on both sides. When it slices it returns the slices;
// otherwise the same objects. kind describes what happened ("" when skipped).
func Apply(o Op, l *normalizedstring.NormalizedString, m *ref.NS) (*normalizedstring.NormalizedString, *ref.NS, string, error) {
	switch o.K {
	case "filter":
		f := pred(string(o.S))
		l.Filter(f)
		m.Filter(f)
	case "map":
		f := Maps[string(o.S)]
		l.Map(f)
		m.Map(f)
	case "upper":
		l.ToUpper()
		m.Map(unicode.ToUpper)
	case "lower":
		l.ToLower()
		m.Map(unicode.ToLower)
	case "trim":
		l.Trim()
		m.TrimLR(true, true)
	case "trimleft":
		l.TrimLeft()
		m.TrimLR(true, false)
	case "trimright":
		l.TrimRight()
		m.TrimLR(false, true)
	case "trimlr":
		l.TrimLeftRight(o.L, o.R)
		m.TrimLR(o.L, o.R)
	case "prepend":
		l.Prepend(string(o.S))
		m.Prepend(string(o.S))
	case "append":
		l.Append(string(o.S))
		m.Append(string(o.S))
	case "replace":
		caps := o.P.Caps(m.Text())
		found := 0
		for _, c := range caps {
			if c.M {
				found++
			}
		}
		// many insertions in a long text take quadratic time: not here
		if size := len(m.Text()) + found*len(o.S); found > 50 && (size > 1<<19 || found*size > 1<<30) {
			return l, m, "", nil
		}
		sp := o.Lib
		if sp == nil {
			sp = o.P.Lib()
		}
		if err := l.Replace(sp, string(o.S)); err != nil {
			return l, m, "", fmt.Errorf("Replace: unexpected error %v", err)
		}
		m.Replace(caps, string(o.S))
	case "transform":
		n := len(m.Cells)
		i := o.A % (n + 1)
		j := i + o.B%(n+1-i)
		if o.B < 0 {
			i, j = 0, n
		}
		var rng normalizedstring.Range
		starts := m.Starts()
		if o.O {
			a, b, ok := m.OrigRange(o.A, o.B)
			if !ok {
				return l, m, "", nil
			}
			s, e, found, _, _ := m.OrigToNorm(a, b)
			if !found {
				return l, m, "", nil
			}
			i, j = m.MustCell(s), m.MustCell(e)
			rng = normalizedstring.NewOriginalRange(a, b)
		} else {
			rng = normalizedstring.NewNormalizedRange(starts[i], starts[j])
		}
		k := min(o.I, j-i)
		left := j - i - k
		var lc []normalizedstring.RuneChange
		var mc []ref.Change
		for _, c := range o.Ch {
			n := c.N
			if n <= 0 {
				if left == 0 {
					n = 1
				} else {
					n = max(n, -(left - 1))
					left -= 1 - n
				}
			}
			lc = append(lc, normalizedstring.RuneChange{Rune: c.R, Change: n})
			mc = append(mc, ref.Change{R: c.R, N: n})
		}
		if o.B < 0 && !o.O {
			l.Transform(lc, k)
		} else {
			l.TransformRange(rng, lc, k)
		}
		m.Transform(i, j, mc, k)
	case "slice":
		ll, mm, ok, err := ApplySlice(o, l, m)
		if err != nil || !ok {
			return l, m, "", err
		}
		return ll, mm, "slice", nil
	default:
		panic("harness: bad op " + o.K)
	}
	return l, m, o.K, nil
}

// ApplySlice slices both sides; ok is false when the op selects nothing.
func ApplySlice(o Op, l *normalizedstring.NormalizedString, m *ref.NS) (*normalizedstring.NormalizedString, *ref.NS, bool, error) {
	var rng normalizedstring.Range
	var mm *ref.NS
	if o.O {
		a, b, ok := m.OrigBoundaryRange(o.A, o.B)
		if !ok {
			return nil, nil, false, nil
		}
		x, ok := m.SliceOrig(a, b)
		if !ok {
			return nil, nil, false, nil
		}
		mm = x
		rng = normalizedstring.NewOriginalRange(a, b)
	} else {
		n := len(m.Cells)
		if n == 0 {
			return nil, nil, false, nil
		}
		i := o.A % n
		j := i + 1 + o.B%(n-i)
		st := m.Starts()
		mm = m.Slice(st[i], st[j])
		rng = normalizedstring.NewNormalizedRange(st[i], st[j])
	}
	ll, ok := l.Slice(rng)
	if !ok || ll == nil {
		return nil, nil, false, fmt.Errorf("Slice(%#v) of %q refused", rng, m.Text())
	}
	return ll, mm, true, nil
}
