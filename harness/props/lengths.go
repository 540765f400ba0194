package props

import (
	"fmt"
	"strings"

	"verif/harness/engine"
	"verif/harness/gen"
)

// Sweeps over every length: what only goes wrong for texts of one length, or
// from some length on.

// LenBlock is a range of lengths.
type LenBlock struct{ Lo, Hi int }

// lengths makes the facet.
func lengths[C any](size, top int, check func(*Ctx, C) error, cases func(n int) []C) *engine.Facet {
	f := engine.F("lengths", "every length", 0, 0, nil, func(ctx *Ctx, b LenBlock) error {
		ctx.NonTrivial()
		for n := b.Lo; n < b.Hi; n++ {
			for _, c := range cases(n) {
				if err := check(&Ctx{}, c); err != nil {
					return fmt.Errorf("length %d: %w", n, err)
				}
			}
		}
		return nil
	})
	return engine.Enum(f, func(tier string, yield func(LenBlock) bool) {
		t := top
		if tier == "thorough" {
			t *= 3
		}
		for lo := 0; lo < t; lo += size {
			if !yield(LenBlock{lo, min(lo+size, t)}) {
				return
			}
		}
	})
}

// cycle gives the first n characters of a repeated text.
func cycle(s string, n int) string {
	r := []rune(s)
	var b strings.Builder
	for i := range n {
		b.WriteRune(r[i%len(r)])
	}
	return b.String()
}

// textsOf: n characters, n words, n matches.
func textsOf(n int) []S {
	return []S{
		S(strings.Repeat("a", n)),
		S(strings.Repeat("é", n)),
		S(strings.Repeat("b ", n)),
		S(strings.Repeat("-", n)),
		S(cycle("ab é-dcc 😀. 你A\u0301", n)),
		S(strings.Repeat(" ", n) + "b"),
		S("é" + strings.Repeat("😀", n) + "\t"),
	}
}

func histsOf(n int) (out []Hist) {
	lit := &gen.Pat{Kind: "literal", S: "-"}
	rn := &gen.Pat{Kind: "rune", R: ' '}
	for i, t := range textsOf(n) {
		for _, ops := range [][]gen.Op{
			{{K: "upper"}, {K: "append", S: "é!"}, {K: "trim"}, {K: "lower"}},
			{{K: "filter", S: "rune:é"}, {K: "prepend", S: "你 "}, {K: "map", S: "swap"}},
			{{K: "replace", P: lit, S: "é你"}, {K: "trimleft"}, {K: "replace", P: rn, S: ""}},
			{{K: "transform", A: n / 3, B: n/3 + 4, Ch: []gen.Chg{{R: 'é', N: 1}, {R: 'x', N: -1}, {R: 'z', N: 1}}}, {K: "trimright"}},
		} {
			out = append(out, Hist{t, ops})
		}
		// an affix of that length
		out = append(out, Hist{"é-b", []gen.Op{{K: []string{"prepend", "append"}[i%2], S: t}, {K: "filter", S: "rune:b"}}})
		out = append(out, Hist{"a-b- ", []gen.Op{{K: "replace", P: lit, S: t}, {K: "trim"}}})
	}
	return out
}

func slicedOf(n int) []Hist {
	out := histsOf(n)
	for i, h := range out {
		ops := append([]gen.Op(nil), h.Ops...)
		k := 1 + i%len(ops)
		ops = append(ops[:k:k], append([]gen.Op{{K: "slice", A: i % 5, B: n/2 + i%3, O: i%2 == 0}}, ops[k:]...)...)
		out = append(out, Hist{h.Text, ops})
	}
	return out
}

func rangesOf(n int) (out []RangeCase) {
	for i, h := range slicedOf(n) {
		if i%3 == n%3 {
			out = append(out, RangeCase{H: h, Q: [][2]int{{n - 1, 1}, {n / 2, n}, {0, n}, {1, n}}})
		}
	}
	return out
}

func lenPats() []gen.Pat {
	return []gen.Pat{{Kind: "literal", S: "-"}, {Kind: "rune", R: ' '}, {Kind: "regexp", S: "[b-d]+"}, {Kind: "regexp2", S: "[b-dé]+"},
		{Kind: "func", S: "space", Invert: 1}, {Kind: "literal", S: "aa"}, {Kind: "regexp", S: "é|a|"}}
}

func splitsOf(n int) (out []SplitCase) {
	for i, t := range textsOf(n) {
		for j, p := range lenPats() {
			out = append(out, SplitCase{H: Hist{Text: t}, P: p, B: (i + j + n) % 5})
		}
	}
	return out
}

func lenPatsOf(n int) (out []PatCase) {
	for _, p := range lenPats() {
		out = append(out, PatCase{P: p, Texts: textsOf(n)})
	}
	// a pattern of that length
	for _, t := range textsOf(n) {
		out = append(out, PatCase{P: gen.Pat{Kind: "literal", S: t}, Texts: []S{"x" + t + t + "y", t}})
	}
	return out
}

func normsOf(ns ...Norm) func(n int) []NormCase {
	return func(n int) (out []NormCase) {
		for _, t := range textsOf(n) {
			for _, x := range ns {
				out = append(out, NormCase{H: Hist{Text: t + "A\u0301\x00 "}, N: x})
			}
		}
		return out
	}
}

func presOf(ps ...Pre) func(n int) []PreCase {
	return func(n int) (out []PreCase) {
		for _, t := range textsOf(n) {
			for _, p := range ps {
				out = append(out, PreCase{H: Hist{Text: t}, P: p}, PreCase{H: Hist{Text: "x \t" + t + " 's"}, P: p})
			}
		}
		return out
	}
}

func phistsOf(n int) (out []PHist) {
	p := gen.Pattern1("literal", " ")
	up := gen.Op{K: "upper"}
	app := gen.Op{K: "append", S: "é"}
	for i, t := range textsOf(n) {
		out = append(out, PHist{H: Hist{Text: t}, Word: i%3 - 1, Type: 1, Steps: []PStep{
			{K: "split", Subs: []Sub{{K: "pattern", P: p, B: (i + n) % 5}}},
			{K: "normalize", Op: &up},
			{K: "tokenize", T: TokPlan{N: i % 3, Seeds: []int{5, n}}},
			{K: "normalize", Op: &app},
			{K: "view"},
			{K: "tokenize", T: TokPlan{N: -1, Seeds: []int{3, n / 2}}},
		}})
	}
	return out
}

func wpLenOf(n int) []WPCase {
	v := Vocab{}
	for _, s := range []string{"[UNK]", "a", "##a", "b", "##é", "é"} {
		v.add(s)
	}
	// entries of that length, next to shorter ones
	w := Vocab{Terms: append([]S(nil), v.Terms...)}
	for _, t := range []string{strings.Repeat("a", n), strings.Repeat("é", n), "##" + strings.Repeat("a", n), cycle("bé", n)} {
		w.add(t)
	}
	words := []S{S(strings.Repeat("a", n)), S(strings.Repeat("é", n)), S(strings.Repeat("a", n) + "é"), S(strings.Repeat("a", n) + "x"), S(cycle("bé", n) + strings.Repeat("a", n))}
	return []WPCase{
		{V: v, Unk: "[UNK]", Prefix: "##", Limit: 1 << 30, Words: words},
		{V: v, Unk: "[UNK]", Prefix: "##", Limit: n, Words: words},
		{V: w, Unk: "[UNK]", Prefix: "##", Limit: 1 << 30, Words: words},
		{V: w, Unk: "?", Prefix: S(strings.Repeat("a", n)), Limit: 100, Words: words},
	}
}

func bpeWordsOf(n int) []S {
	return []S{S(strings.Repeat("a", n)), S(strings.Repeat("é", n)), S(cycle("ab", n)), S(cycle("abé", n)), S(strings.Repeat("a", n) + "b"), S(cycle("aabé", n) + "é")}
}

func bpeLenOf(n int) []BPECase {
	b := BPE{M: []M{{"a", "b", 0}, {"a", "a", 1}, {"aa", "aa", 2}, {"ab", "ab", 3}, {"é", "é", 4}, {"éé", "éé", 5}, {"b", "é", 6}}, Cache: n % 2 * 10000}
	for _, s := range []S{"a", "b", "é", "ab", "aa", "aaaa", "abab", "éé", "éééé", "bé"} {
		b.V.add(string(s))
	}
	return []BPECase{{B: b, Words: bpeWordsOf(n), One: n%5 == 0}}
}

func affixedLenOf(n int) (out []BPECase) {
	words := append(bpeWordsOf(n), S(strings.Repeat("x", n)), S(cycle("axxb", n)), S(strings.Repeat("x", n)+"a"), S("a"+strings.Repeat("x", n)+"b"))
	for _, fuse := range []bool{false, true} {
		u := BPE{Unk: "[UNK]", Fuse: fuse, Cache: n % 2 * 10000, M: []M{{"a", "b", 0}}}
		for _, s := range []string{"[UNK]", "a", "b", "ab"} {
			u.V.add(s)
		}
		out = append(out, BPECase{B: u, Words: words})
		u.Unk = "?" // not in the vocabulary
		out = append(out, BPECase{B: u, Words: words})
		f := BPE{Unk: "[UNK]", Prefix: "##", Suffix: "</w>", Fuse: fuse}
		for _, s := range []string{"[UNK]", "a", "##b", "##a", "##b</w>", "##a</w>", "b", "##é"} {
			f.V.add(s)
		}
		out = append(out, BPECase{B: f, Words: words})
		// affixes of that length
		l := BPE{Unk: "[UNK]", Prefix: S(strings.Repeat("#", n)), Suffix: S(strings.Repeat("é", n)), Fuse: fuse}
		for _, s := range []S{"[UNK]", "a", l.Prefix + "b", l.Prefix + "a", l.Prefix + "b" + l.Suffix, "a" + l.Suffix} {
			l.V.add(string(s))
		}
		out = append(out, BPECase{B: l, Words: []S{"a", "ab", "aab", "b", "axb", "xxa"}})
	}
	return out
}

func pipesOf(n int) (out []Pipe) {
	v := Vocab{}
	for _, x := range []string{"[UNK]", "a", "b", "##b", "é", "##é", "-", " ", "c", "ab", "##éé", "z", "éé"} {
		v.add(x)
	}
	for i, t := range textsOf(n) {
		c := Pipe{Text: t, N: []Norm{{K: "bert", Def: true}}, Pre: []Pre{{K: "bert"}}, Word: i%3 - 1, Type: i}
		c.WP = &WPCase{V: v, Unk: "[UNK]", Prefix: "##", Limit: 100}
		d := Pipe{Text: t, N: []Norm{{K: "lower"}, {K: "strip", L: true, R: true}}, Pre: []Pre{{K: "word", Def: true}}, Word: -1}
		d.B = &BPE{V: v, M: []M{{"a", "b", 0}}, Unk: "[UNK]", Fuse: n%2 == 0}
		out = append(out, c, d)
	}
	return out
}

// badTextsOf: ill-formed bytes at the edges and inside.
func badTextsOf(n int) (out []S) {
	for _, t := range textsOf(n) {
		out = append(out, t+"\xff", "\xe4\xbd"+t+"\xf0\x9f b")
	}
	return append(out, S(strings.Repeat("\xff", n)), S(strings.Repeat("a\xc3", n)))
}
