package props

import (
	"strings"

	"verif/harness/gen"
)

// Texts of more than 65536 bytes, too costly for random generation: every
// check whose subject keeps positions runs a few. All are cheap to edit: what
// patterns look for is rare in them.
var hugeTexts = []string{
	"a-b " + strings.Repeat("é", 33000) + " c-d é-",
	strings.Repeat("x", 65530) + "-é b\u3000-\U0001F600 z",
	strings.Repeat("aé你\U0001F600", 6700) + " -b ",
}

func enumHugeHist(edits bool) func(tier string, yield func(Hist) bool) {
	lit := &gen.Pat{Kind: "literal", S: "-"}
	lists := [][]gen.Op{
		{{K: "map", S: "swap"}, {K: "append", S: "é!"}},
		{{K: "upper"}, {K: "prepend", S: "你"}, {K: "trim"}},
		{{K: "filter", S: "rune:b"}, {K: "replace", P: lit, S: "你b"}},
		{{K: "filter", S: "rune:é"}, {K: "lower"}},
		{{K: "filter", S: "ascii"}},
		{{K: "transform", A: 32990, B: 20, Ch: []gen.Chg{{R: 'é', N: 1}, {R: 'x', N: -1}, {R: 'z', N: 1}}}, {K: "append", S: "w"}},
	}
	slices := [][]gen.Op{
		{{K: "slice", A: 32000, B: 100000}, {K: "slice", A: 700, B: 350}, {K: "upper"}},
		{{K: "replace", P: lit, S: "-é-"}, {K: "slice", A: 9, B: 65000, O: true}, {K: "filter", S: "rune:d"}},
		{{K: "slice", A: 65532, B: 9, O: true}, {K: "append", S: "é"}},
	}
	return func(tier string, yield func(Hist) bool) {
		for _, s := range hugeTexts {
			ls := lists
			if !edits {
				ls = append(append([][]gen.Op(nil), lists...), slices...)
			}
			for _, ops := range ls {
				if !yield(Hist{S(s), ops}) {
					return
				}
			}
		}
	}
}

// both enumerates one after the other.
func both[C any](fs ...func(tier string, yield func(C) bool)) func(tier string, yield func(C) bool) {
	return func(tier string, yield func(C) bool) {
		on := true
		for _, f := range fs {
			f(tier, func(c C) bool {
				on = on && yield(c)
				return on
			})
			if !on {
				return
			}
		}
	}
}

func enumHugeRanges(tier string, yield func(RangeCase) bool) {
	enumHugeHist(false)(tier, func(h Hist) bool {
		return yield(RangeCase{H: h, Q: [][2]int{{65530, 9}, {65537, 2}, {32767, 32900}, {3, 65600}}})
	})
}

func enumHugeSplits(tier string, yield func(SplitCase) bool) {
	pats := []gen.Pat{{Kind: "literal", S: "-"}, {Kind: "rune", R: ' '}, {Kind: "regexp", S: "[b-d]+"}, {Kind: "regexp2", S: "[b-d]+"}, {Kind: "func", S: "space", Invert: 1}}
	for i, s := range hugeTexts {
		for j, p := range pats {
			if !yield(SplitCase{H: Hist{Text: S(s)}, P: p, B: (i + j) % 5}) {
				return
			}
		}
	}
}

func enumHugePats(tier string, yield func(PatCase) bool) {
	on := true
	enumHugeSplits(tier, func(c SplitCase) bool {
		on = yield(PatCase{P: c.P, Texts: []S{c.H.Text, "a-b", S(hugeTexts[0])}})
		return on
	})
	// matches of several characters all over, at every distance from round positions
	dense := S(strings.Repeat("ab é-dcc \U0001F600cbbé", 6000) + strings.Repeat("bcdé", 3000) + "-" + strings.Repeat("d", 70000))
	for _, p := range []gen.Pat{{Kind: "literal", S: "bé"}, {Kind: "literal", S: "bcdébcdé"}, {Kind: "rune", R: 'é'}, {Kind: "rune", R: '-', Invert: 1},
		{Kind: "regexp", S: "[b-d]+"}, {Kind: "regexp2", S: "[b-d]+"}, {Kind: "func", S: "space"}} {
		on = on && yield(PatCase{P: p, Texts: []S{dense, dense[1:]}})
	}
}

func enumHugeNorms(ns ...Norm) func(tier string, yield func(NormCase) bool) {
	return func(tier string, yield func(NormCase) bool) {
		for _, s := range hugeTexts {
			s += "\u0301 \t你  "
			for _, n := range ns {
				if !yield(NormCase{H: Hist{Text: S(s)}, N: n}) {
					return
				}
			}
		}
	}
}

func enumHugePre(ps ...Pre) func(tier string, yield func(PreCase) bool) {
	return func(tier string, yield func(PreCase) bool) {
		for _, s := range hugeTexts {
			for _, p := range ps {
				if !yield(PreCase{H: Hist{Text: S(s)}, P: p}) {
					return
				}
			}
		}
		// many pieces, except where every piece takes an edit of the whole text
		for _, p := range ps {
			n := 16500
			if p.K == "meta" {
				n = 1500
			}
			part := "b,é."
			if p.K == "split" || p.K == "delim" {
				n, part = n*2, "b é-"
			}
			s := strings.Repeat("a é. ", 1500) + strings.Repeat("bc 12é,d ", 300) + strings.Repeat(part, n)
			if !yield(PreCase{H: Hist{Text: S(s)}, P: p}) {
				return
			}
		}
	}
}

func enumHugePHist(tier string, yield func(PHist) bool) {
	p := gen.Pattern1("literal", " ")
	up := gen.Op{K: "upper"}
	texts := append(append([]string(nil), hugeTexts...), strings.Repeat("a é ", 700))
	for i, s := range texts {
		for _, n := range []int{-1, 3} {
			c := PHist{H: Hist{Text: S(s)}, Word: i - 1, Type: 1, Steps: []PStep{
				{K: "split", Subs: []Sub{{K: "pattern", P: p, B: i % 5}}},
				{K: "normalize", Op: &up},
				{K: "view"},
				{K: "tokenize", T: TokPlan{N: n, Seeds: []int{5, 65531}}},
			}}
			if !yield(c) {
				return
			}
		}
	}
}

func enumHugePipe(tier string, yield func(Pipe) bool) {
	for i, s := range append(append([]string(nil), hugeTexts...), strings.Repeat("ab é. ", 600), strings.Repeat("b a ", 35000)) {
		v := Vocab{}
		for _, x := range []string{"[UNK]", "a", "b", "##b", "é", "##é", "-", " ", "c", "ab", "##éé", "z", "éé"} {
			v.add(x)
		}
		c := Pipe{Text: S(s), N: []Norm{{K: "bert", Def: true}}, Pre: []Pre{{K: "bert"}}, Word: i - 1, Type: i}
		c.WP = &WPCase{V: v, Unk: "[UNK]", Prefix: "##", Limit: 100}
		if !yield(c) {
			return
		}
		c.WP = nil
		c.N = []Norm{{K: "lower"}, {K: "strip", L: true, R: true}}
		c.Pre = []Pre{{K: "word", Def: true}}
		c.B = &BPE{V: v, M: []M{{"a", "b", 0}}, Unk: "[UNK]", Fuse: i%2 == 0}
		if !yield(c) {
			return
		}
	}
}
