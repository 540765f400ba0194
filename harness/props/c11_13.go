package props

import (
	"fmt"
	"strings"

	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bertpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/metaspacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/runedelimiterpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacesplitpretokenizer"
	"pgregory.net/rapid"

	"verif/harness/engine"
	"verif/harness/gen"
	"verif/harness/ref"
)

// Pre is a pre-tokenizer in data form.
type Pre struct {
	K      string // split word delim bert byte meta
	R      rune   `json:",omitempty"`
	Re     S      `json:",omitempty"`
	Prefix bool   `json:",omitempty"`
	Trim   bool   `json:",omitempty"`
	Def    bool   `json:",omitempty"`
}

func (p Pre) lib() pretokenizers.PreTokenizer {
	switch p.K {
	case "split":
		return whitespacesplitpretokenizer.New()
	case "word":
		if p.Def {
			return whitespacepretokenizer.NewDefault()
		}
		return whitespacepretokenizer.New(gen.Regexp2(string(p.Re)))
	case "delim":
		return runedelimiterpretokenizer.New(p.R)
	case "bert":
		return bertpretokenizer.New()
	case "byte":
		if p.Def {
			if p.Prefix && p.Trim {
				return bytelevelpretokenizer.NewDefault()
			}
			return bytelevelpretokenizer.New(bytelevelpretokenizer.DefaultSplittingRegexp, p.Prefix, p.Trim)
		}
		return bytelevelpretokenizer.New(gen.Regexp2(string(p.Re)), p.Prefix, p.Trim)
	case "meta":
		if p.Def {
			return metaspacepretokenizer.NewDefault()
		}
		return metaspacepretokenizer.New(p.R, p.Prefix)
	}
	panic("harness: bad pretokenizer")
}

func (p Pre) prefix() bool {
	if p.K == "meta" && p.Def {
		return true
	}
	return p.Prefix
}

func (p Pre) finder() ref.Finder {
	switch {
	case p.K == "byte" && p.Def:
		return ref.FindGPT2
	case p.K == "word" && p.Def:
		return ref.FindRuns(ref.WordClass)
	}
	return ref.FindRegexp2(gen.Regexp2(string(p.Re)))
}

func (p Pre) mark() rune {
	if p.Def {
		return '▁'
	}
	return p.R
}

// ref gives the pieces of one string (which it may edit, like the library).
func (p Pre) ref(m *ref.NS) []*ref.NS {
	switch p.K {
	case "split":
		return ref.SpaceSplitPieces(m)
	case "word":
		return ref.MatchPieces(m, p.finder())
	case "delim":
		return ref.DelimiterPieces(m, p.R)
	case "bert":
		return ref.BertPieces(m)
	case "byte":
		return ref.ByteLevelPieces(m, p.finder(), p.prefix())
	case "meta":
		return ref.MetaspacePieces(m, p.mark(), p.prefix())
	}
	panic("harness: bad pretokenizer")
}

func (p Pre) refAll(ms []*ref.NS) []*ref.NS {
	var out []*ref.NS
	for _, m := range ms {
		out = append(out, p.ref(m)...)
	}
	return out
}

func drawPre(t *rapid.T, s string, kinds []string) Pre {
	p := Pre{K: rapid.SampledFrom(kinds).Draw(t, "pre")}
	switch p.K {
	case "delim":
		p.R = gen.RuneOf(t, s)
	case "word":
		p.Def = rapid.IntRange(0, 2).Draw(t, "def") > 0
		if !p.Def {
			p.Re = S(gen.RegexpSource(t, s, true))
		}
	case "byte":
		p.Def = rapid.IntRange(0, 2).Draw(t, "def") > 0
		p.Prefix = rapid.Bool().Draw(t, "prefix")
		p.Trim = rapid.Bool().Draw(t, "trim")
		if !p.Def {
			p.Re = S(gen.RegexpSource(t, s, true))
		}
	case "meta":
		p.Def = rapid.IntRange(0, 2).Draw(t, "def") == 0
		if !p.Def {
			p.Prefix = rapid.Bool().Draw(t, "prefix")
			p.R = rapid.SampledFrom([]rune("▁▁_éa😀 ")).Draw(t, "mark")
			if rapid.IntRange(0, 2).Draw(t, "own") == 0 {
				p.R = gen.RuneOf(t, s)
			}
		}
	}
	return p
}

// PreCase pre-tokenizes an edited text, possibly already cut by First.
type PreCase struct {
	H     Hist
	First []Pre `json:",omitempty"`
	P     Pre
}

func drawPreCase(kinds []string) func(t *rapid.T) PreCase {
	return func(t *rapid.T) PreCase {
		s := gen.Text(t)
		c := PreCase{H: Hist{Text: S(s)}}
		if rapid.IntRange(0, 2).Draw(t, "edited") == 0 {
			c.H.Ops = gen.Ops(t, s, gen.HistKinds, 3)
		}
		if rapid.IntRange(0, 3).Draw(t, "first") == 0 {
			c.First = append(c.First, drawPre(t, s, []string{"split", "word", "delim", "bert", "meta", "byte"}))
		}
		c.P = drawPre(t, s, kinds)
		return c
	}
}

// runPre runs both sides; before is the list of texts given to the last one.
func runPre(c PreCase) (pts *pretokenizedstring.PreTokenizedString, before, after []*ref.NS, err error) {
	l, m, err := applyAll(c.H, nil)
	if err != nil {
		return nil, nil, nil, err
	}
	pts = pretokenizedstring.FromNormalizedString(l)
	ms := []*ref.NS{m}
	for _, f := range c.First {
		ms = f.refAll(ms)
		if err := f.lib().PreTokenize(pts); err != nil {
			return nil, nil, nil, err
		}
	}
	for _, m := range ms {
		before = append(before, m.Clone())
	}
	after = c.P.refAll(ms)
	if err := c.P.lib().PreTokenize(pts); err != nil {
		return nil, nil, nil, fmt.Errorf("%+v on %+q: unexpected error %v", c.P, mtexts(before), err)
	}
	return pts, before, after, nil
}

func checkPre(ctx *Ctx, c PreCase) error {
	pts, before, after, err := runPre(c)
	if err != nil {
		return err
	}
	ctx.Label(c.P.K)
	ctx.LabelIf(len(c.First) > 0, "already cut")
	ctx.LabelIf(len(c.H.Ops) > 0, "edited")
	ctx.NonTrivialIf(len(after) > len(before))
	what := fmt.Sprintf("%+v on %+q", c.P, mtexts(before))
	if err := cmpViews(pts, after); err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	if err := cmpList(what, pieces(pts), after); err != nil {
		return err
	}
	// stated without the model: original text at the offsets
	if len(c.H.Ops) == 0 && len(c.First) == 0 {
		lastS, last := 0, 0
		whole := ""
		for _, s := range pts.GetOriginalByteSplits() {
			o := s.Offsets
			// an inserted prefix shares the range of the first character
			if o.Start < lastS || o.End < last || (o.Start < last && !c.P.prefix()) || o.End < o.Start || o.End > len(c.H.Text) {
				return fmt.Errorf("%s: offsets %v out of order or range", what, o)
			}
			src := string(c.H.Text)[o.Start:o.End]
			lastS, last = o.Start, o.End
			whole += s.String
			if s.String == "" {
				return fmt.Errorf("%s: empty piece", what)
			}
			switch c.P.K {
			case "byte", "meta":
			default:
				if src != s.String {
					return fmt.Errorf("%s: piece %+q reported at %v, where the text is %+q", what, s.String, o, src)
				}
			}
		}
		switch c.P.K {
		case "byte":
			dec := []byte{}
			for _, r := range whole {
				b, ok := ref.Unalphabet[r]
				if !ok {
					return fmt.Errorf("%s: %+q is not in the byte alphabet", what, r)
				}
				dec = append(dec, b)
			}
			want := string(c.H.Text)
			if c.P.prefix() && want != "" && !ref.IsSpace([]rune(want)[0]) {
				want = " " + want
			}
			if string(dec) != want {
				return fmt.Errorf("%s: decodes to %+q, want %+q", what, dec, want)
			}
		case "meta":
			mk := string(c.P.mark())
			want := string(c.H.Text)
			if c.P.prefix() && want != "" && !strings.HasPrefix(want, mk) && !ref.IsSpace([]rune(want)[0]) {
				want = mk + want
			}
			want = strings.ReplaceAll(want, " ", mk)
			if whole != want {
				return fmt.Errorf("%s: pieces concatenate to %+q, want %+q", what, whole, want)
			}
			for i, s := range pts.Splits() {
				t := s.NormalizedString.Get()
				if (i > 0 && !strings.HasPrefix(t, mk)) || strings.LastIndex(t, mk) > 0 {
					return fmt.Errorf("%s: piece %d is %+q", what, i, t)
				}
			}
		}
	}
	return nil
}

// sweepPre runs every character of a block through pre-tokenizers.
func sweepPre(ps ...Pre) func(ctx *Ctx, b Block) error {
	return func(ctx *Ctx, b Block) error {
		ctx.NonTrivial()
		rs := b.runes()
		for _, p := range ps {
			text := ""
			for i, r := range rs {
				text += []string{"", "a", " ", "1", "-", "  "}[i%6] + string(r)
			}
			err := sweepOne(p, text)
			if err == nil {
				err = sweepOne(p, string(rs))
			}
			if err == nil && len(rs) > 0 && rs[0] >= 0x3100 {
				continue
			}
			// one by one at the start, in the middle and at the end
			for _, r := range rs {
				for _, s := range []string{string(r), "a" + string(r) + "a", " " + string(r) + "." + string(r) + " ", string(r) + string(r)} {
					if e := sweepOne(p, s); e != nil {
						return fmt.Errorf("U+%04X: %w", r, e)
					}
				}
			}
			if err != nil {
				return fmt.Errorf("block U+%04X: %w", b.Lo, err)
			}
		}
		return nil
	}
}

func sweepOne(p Pre, text string) error {
	return checkPre(&Ctx{}, PreCase{H: Hist{Text: S(text)}, P: p})
}

func init() {
	rule := "the pre-tokenizer cut the text in more pieces than it was"
	engine.Register("C11",
		engine.Enum(engine.F("pieces", rule, 300000, 4000000, drawPreCase([]string{"split", "word", "word", "delim", "bert", "bert"}), checkPre), enumHugePre(Pre{K: "split"}, Pre{K: "word", Def: true}, Pre{K: "delim", R: '-'}, Pre{K: "bert"})),
		lengths(4, 320, checkPre, presOf(Pre{K: "split"}, Pre{K: "word", Def: true}, Pre{K: "delim", R: '-'}, Pre{K: "bert"})),
		engine.Enum(engine.F("codepoints", "every code point", 0, 0, nil,
			sweepPre(Pre{K: "split"}, Pre{K: "word", Def: true}, Pre{K: "bert"})), enumBlocks(64)),
		engine.Enum(engine.F("classes", "every code point: \\w and \\s of the default regexps against the property's classes", 0, 0, nil, func(ctx *Ctx, b Block) error {
			ctx.NonTrivial()
			for _, r := range b.runes() {
				w, _ := whitespacepretokenizer.DefaultWordRegexp.MatchString(string(r))
				if w == ref.IsSpace(r) {
					return fmt.Errorf("U+%04X: word regexp matches %v, white space %v", r, w, ref.IsSpace(r))
				}
			}
			return nil
		}), enumBlocks(1024)),
	)
	engine.Register("C12",
		engine.Enum(engine.F("pieces", rule, 300000, 4000000, drawPreCase([]string{"byte"}), checkPre), enumHugePre(Pre{K: "byte", Def: true}, Pre{K: "byte", Def: true, Prefix: true, Trim: true})),
		lengths(4, 320, checkPre, presOf(Pre{K: "byte", Def: true}, Pre{K: "byte", Def: true, Prefix: true, Trim: true})),
		engine.Enum(engine.F("codepoints", "every code point, with and without prefix", 0, 0, nil,
			sweepPre(Pre{K: "byte", Def: true}, Pre{K: "byte", Def: true, Prefix: true, Trim: true})), enumBlocks(64)),
		engine.Enum(engine.F("small", "every short text over a telling alphabet", 0, 0, nil, checkPre), func(tier string, yield func(PreCase) bool) {
			n := 4
			if tier == "thorough" {
				n = 6
			}
			for _, s := range smallTexts([]string{"a", " ", "1", "'s", "\u3000", "é", "-"}, n) {
				for _, pf := range []bool{false, true} {
					if !yield(PreCase{H: Hist{Text: S(s)}, P: Pre{K: "byte", Def: true, Prefix: pf}}) {
						return
					}
				}
			}
		}),
	)
	engine.Register("C13",
		engine.Enum(engine.F("pieces", rule, 300000, 4000000, drawPreCase([]string{"meta"}), checkPre), enumHugePre(Pre{K: "meta", Def: true}, Pre{K: "meta", R: 'é'})),
		lengths(4, 320, checkPre, presOf(Pre{K: "meta", Def: true}, Pre{K: "meta", R: 'é'})),
		engine.Enum(engine.F("codepoints", "every code point, default configuration", 0, 0, nil,
			sweepPre(Pre{K: "meta", Def: true})), enumBlocks(64)),
		engine.Enum(engine.F("small", "every short text over a telling alphabet", 0, 0, nil, checkPre), func(tier string, yield func(PreCase) bool) {
			n := 5
			if tier == "thorough" {
				n = 7
			}
			for _, s := range smallTexts([]string{"a", " ", "▁", "é", "\t"}, n) {
				for _, pf := range []bool{false, true} {
					if !yield(PreCase{H: Hist{Text: S(s)}, P: Pre{K: "meta", R: '▁', Prefix: pf}}) {
						return
					}
				}
			}
		}),
	)
}

var _ = normalizedstring.FromString
