package props

import (
	"fmt"
	"unicode"

	"verif/harness/engine"
	"verif/harness/gen"
)

// Sweeps over every character.

// perRune turns a case for one character into a check of a block. The checks
// are those of the generated cases.
func perRune[C any](check func(*Ctx, C) error, cases func(r rune) []C) func(*Ctx, Block) error {
	return func(ctx *Ctx, b Block) error {
		ctx.NonTrivial()
		for _, r := range b.runes() {
			for _, c := range cases(r) {
				if err := check(&Ctx{}, c); err != nil {
					return fmt.Errorf("U+%04X: %w", r, err)
				}
			}
		}
		return nil
	}
}

// editsOf: every kind of edit of a text with r at the edges and inside.
func editsOf(r rune) []Hist {
	c := string(r)
	at := &gen.Pat{Kind: "rune", R: r}
	lit := &gen.Pat{Kind: "rune", R: 'b'}
	t := S(c + "a" + c + "b" + c)
	return []Hist{
		{t, []gen.Op{{K: "upper"}}},
		{t, []gen.Op{{K: "lower"}, {K: "trimleft"}, {K: "trimright"}}},
		{t, []gen.Op{{K: "trim"}, {K: "replace", P: at, S: "é"}}},
		{t, []gen.Op{{K: "filter", S: "rune:" + S(c)}, {K: "prepend", S: S(c)}, {K: "append", S: S(c)}, {K: "replace", P: lit, S: S(c)}}},
		{t, []gen.Op{{K: "map", S: "x"}, {K: "transform", A: 1, B: 2, Ch: []gen.Chg{{R: r, N: -1}, {R: r, N: 1}}}}},
	}
}

func patsOf(r rune) []PatCase {
	c := S(string(r))
	texts := []S{"a" + c + c + "b", c + "a" + c}
	out := []PatCase{
		{P: gen.Pat{Kind: "rune", R: r}, Texts: texts},
		{P: gen.Pat{Kind: "rune", R: 'a', Invert: 1}, Texts: texts},
		{P: gen.Pat{Kind: "func", S: "space"}, Texts: texts},
		{P: gen.Pat{Kind: "literal", S: c}, Texts: texts},
		{P: gen.Pat{Kind: "literal", S: c + "a", Invert: 1}, Texts: texts},
		{P: gen.Pat{Kind: "regexp", S: `\w+|[^\w\s]+`}, Texts: texts},
	}
	// the engine with backtracking reads ill-formed text and U+FFFD alike
	return append(out, PatCase{P: gen.Pat{Kind: "regexp2", S: `\w+|[^\w\s]+`}, Texts: texts})
}

// wordsOf: r known, unknown, first, inside and last.
func wpOf(r rune) []WPCase {
	c := S(string(r))
	words := []S{c, c + c + "a", "a" + c, "ab" + c + "ab", c + "ab"}
	known := Vocab{}
	for _, s := range []S{"[UNK]", "a", "##a", "ab", "##b", c, "##" + c} {
		known.add(string(s))
	}
	unknown := Vocab{}
	for _, s := range []string{"[UNK]", "a", "##a", "ab", "##b"} {
		unknown.add(s)
	}
	return []WPCase{
		{V: known, Unk: "[UNK]", Prefix: "##", Limit: 5, Words: words},
		{V: unknown, Unk: "[UNK]", Prefix: "##", Limit: 4, Words: words},
		{V: unknown, Unk: "[UNK]", Prefix: c, Limit: 5, Words: words},
	}
}

func bpeOf(r rune) []BPECase {
	if r == 'a' || r == 'b' {
		return nil
	}
	c := S(string(r))
	b := BPE{M: []M{{c, "b", 0}, {"a", c, 1}, {c, c, 2}, {"a" + c, c + "b", 3}}}
	for _, s := range []S{"a", "b", c, c + "b", "a" + c, c + c, "a" + c + c + "b"} {
		b.V.add(string(s))
	}
	return []BPECase{{B: b, Words: []S{c, "a" + c, "a" + c + c + "b", c + c + c, "b" + c + "a"}}}
}

func affixedOf(r rune) []BPECase {
	c := S(string(r))
	words := []S{c, c + c, "a" + c + c + "b", c + "a", "b" + c}
	b := BPE{Unk: "[UNK]", Prefix: "##", Suffix: "</w>", Fuse: r%2 == 0}
	for _, s := range []S{"[UNK]", "a", "##b</w>", "##a</w>", "b", "##" + c, "##" + c + "</w>"} {
		b.V.add(string(s))
	}
	u := BPE{Unk: "[UNK]", Fuse: r%2 == 1}
	for _, s := range []string{"[UNK]", "a", "b"} {
		u.V.add(s)
	}
	p := BPE{Unk: c, Prefix: c, Suffix: c}
	for _, s := range []S{c, "a", "b", c + "a", c + "b", "b" + c, c + "b" + c, c + c} {
		p.V.add(string(s))
	}
	return []BPECase{{B: b, Words: words}, {B: u, Words: words}, {B: p, Words: words}}
}

// sweep makes the facet.
func sweep[C any](size rune, check func(*Ctx, C) error, cases func(r rune) []C) *engine.Facet {
	f := engine.F("codepoints", "every code point", 0, 0, nil, perRune(check, cases))
	return engine.Enum(f, func(tier string, yield func(Block) bool) {
		n := 0
		for lo := rune(0); lo <= unicode.MaxRune; lo += size {
			// the planes without assigned characters are sampled in the quick tier
			if n++; tier != "thorough" && lo >= 0x32000 && !(lo >= 0xE0000 && lo < 0xE0200) && lo < 0x10F000 && n%16 != 0 {
				continue
			}
			if !yield(Block{lo, min(lo+size, unicode.MaxRune+1)}) {
				return
			}
		}
	})
}
