package props

import (
	"fmt"
	"reflect"
	"slices"
	"strings"
	"sync"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/runedelimiterpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"pgregory.net/rapid"

	"verif/harness/engine"
	"verif/harness/gen"
	"verif/harness/ref"
)

// Components of the library that fail by themselves: a regexp2 that runs out
// of time, a model without its unknown token.

// Slow is a text and a regexp2 that has (practically) no time: it fails as
// soon as a match takes more than a thousand steps, whatever the clock says.
type Slow struct {
	Pre  S // a first split, never slow
	Text S
	Re   S
	B    int
	Repl S
}

var slowRegexps = []string{
	`x|(?:a+)+b`, `\s+|(?:a|aa)+b`, `[^a]|(?:a+)+b`, `é|(?:a?a?)*!`, `(?:a+)+b`, `x`, `\s|(?:aa?)+$`, `(?:x|é)(?=x)|(?:a+)+b`, `(?<!a)a{3}(?!a)|(?:a+)+b|\s`,
}

func drawSlow(t *rapid.T) Slow {
	c := Slow{Pre: S(rapid.SampledFrom([]string{"", "x é", "é"}).Draw(t, "pre"))}
	var b strings.Builder
	for range rapid.IntRange(0, 5).Draw(t, "n") {
		switch rapid.IntRange(0, 4).Draw(t, "seg") {
		case 0:
			b.WriteString(strings.Repeat("a", rapid.IntRange(1, 5).Draw(t, "few")) + rapid.SampledFrom([]string{"c", "b", "é"}).Draw(t, "end"))
		case 1:
			b.WriteString(strings.Repeat("a", rapid.IntRange(15, 60).Draw(t, "many")) + rapid.SampledFrom([]string{"c", "é", "x", "b"}).Draw(t, "end"))
		default:
			b.WriteString(rapid.SampledFrom([]string{"x", "é", " ", "xx ", "é😀", "a x"}).Draw(t, "head"))
		}
	}
	c.Text = S(b.String())
	c.Re = S(rapid.SampledFrom(slowRegexps).Draw(t, "re"))
	c.B = rapid.IntRange(0, 4).Draw(t, "b")
	c.Repl = S(rapid.SampledFrom([]string{"", "x", "é", "ab"}).Draw(t, "repl"))
	return c
}

var slowCache sync.Map

func slowRegexp(s string) *regexp2.Regexp {
	if r, ok := slowCache.Load(s); ok {
		return r.(*regexp2.Regexp)
	}
	r := regexp2.MustCompile(s, regexp2.None)
	r.MatchTimeout = 1
	slowCache.Store(s, r)
	return r
}

// directly asks regexp2 itself: the matches, or its error.
func directly(r *regexp2.Regexp, s string) (out [][2]int, err error) {
	at := []int{}
	for i := range s {
		at = append(at, i)
	}
	at = append(at, len(s))
	m, err := r.FindStringMatch(s)
	for m != nil && err == nil {
		out = append(out, [2]int{at[m.Index], at[m.Index+m.Length]})
		m, err = r.FindNextMatch(m)
	}
	return out, err
}

func sameError(got, want error) error {
	if (got == nil) != (want == nil) || got != nil && got.Error() != want.Error() {
		return fmt.Errorf("error %v, want %v", got, want)
	}
	return nil
}

func checkSlow(ctx *Ctx, c Slow) error {
	s := string(c.Text)
	r := slowRegexp(string(c.Re))
	matches, wantErr := directly(r, s)
	if s == "" {
		wantErr = nil
	}
	ctx.NonTrivialIf(wantErr != nil && len(matches) > 0)
	ctx.LabelIf(wantErr != nil, "out of time")
	ctx.LabelIf(wantErr != nil && len(matches) > 0, "out of time after a match")
	want := ref.Partition(s, matches)
	for inv := range 3 {
		sp := splitpattern.SplitPattern(splitpattern.FromRegexp2(r))
		for range inv {
			sp = splitpattern.Invert(sp)
		}
		caps := want
		if inv == 1 {
			caps = ref.InvertCaps(want)
		}
		got, err := sp.FindMatches(s)
		if err := sameError(err, wantErr); err != nil {
			return fmt.Errorf("%q on %q, inverted %d times: %w", string(c.Re), s, inv, err)
		}
		if err == nil {
			if len(got) != len(caps) {
				return fmt.Errorf("%q on %q, inverted %d times: %v, want %v", string(c.Re), s, inv, got, caps)
			}
			for i, x := range got {
				if x.Offsets.Start != caps[i].S || x.Offsets.End != caps[i].E || x.IsMatch != caps[i].M {
					return fmt.Errorf("%q on %q, inverted %d times: %v, want %v", string(c.Re), s, inv, got, caps)
				}
			}
		}
		l, m := normalizedstring.FromString(s), ref.FromString(s)
		ls, err := l.Split(sp, normalizedstring.SplitDelimiterBehavior(c.B))
		if err := sameError(err, wantErr); err != nil {
			return fmt.Errorf("Split of %q by %q: %w", s, string(c.Re), err)
		}
		if err != nil && len(ls) > 0 {
			return fmt.Errorf("Split of %q by %q: fails, giving %d pieces", s, string(c.Re), len(ls))
		}
		if err := cmpAll(l, m); err != nil {
			return fmt.Errorf("after Split: %w", err)
		}
		err = l.Replace(sp, string(c.Repl))
		if err := sameError(err, wantErr); err != nil {
			return fmt.Errorf("Replace in %q of %q: %w", s, string(c.Re), err)
		}
		if err == nil {
			m.Replace(caps, string(c.Repl))
		}
		if err := cmpAll(l, m); err != nil {
			return fmt.Errorf("after Replace of %q (error %v): %w", string(c.Re), err, err)
		}
	}
	// through the pre-tokenizers, the slow text in the second split
	pres := []pretokenizers.PreTokenizer{
		whitespacepretokenizer.New(r),
		bytelevelpretokenizer.New(r, false, false),
		bytelevelpretokenizer.New(r, true, true),
	}
	for i, p := range pres {
		pts := pretokenizedstring.FromString(string(c.Pre) + "|" + s)
		if err := runedelimiterpretokenizer.New('|').PreTokenize(pts); err != nil {
			return err
		}
		before := append([]pretokenizedstring.Split(nil), pts.Splits()...)
		texts := []string{}
		for _, x := range before {
			texts = append(texts, x.NormalizedString.Get())
		}
		var wantErr error
		for _, x := range texts {
			if i == 2 && x != "" && !strings.HasPrefix(x, " ") {
				x = " " + x
			}
			if _, e := directly(r, x); e != nil && wantErr == nil && x != "" {
				wantErr = e
			}
		}
		err := p.PreTokenize(pts)
		if err := sameError(err, wantErr); err != nil {
			return fmt.Errorf("pre-tokenizer %d with %q on %q: %w", i, string(c.Re), texts, err)
		}
		if err == nil {
			continue
		}
		after := pts.Splits()
		if len(after) != len(before) {
			return fmt.Errorf("pre-tokenizer %d failed: %d splits, were %d", i, len(after), len(before))
		}
		for j := range after {
			if after[j].NormalizedString != before[j].NormalizedString || after[j].Tokens != nil {
				return fmt.Errorf("pre-tokenizer %d failed: split %d changed", i, j)
			}
			if got := after[j].NormalizedString.Get(); i < 2 && got != texts[j] {
				return fmt.Errorf("pre-tokenizer %d failed: split %d is now %q, was %q", i, j, got, texts[j])
			}
		}
		// now with a working component: as if it had never failed
		if i < 2 {
			fresh := pretokenizedstring.FromString(string(c.Pre) + "|" + s)
			if err := runedelimiterpretokenizer.New('|').PreTokenize(fresh); err != nil {
				return err
			}
			for _, q := range []*pretokenizedstring.PreTokenizedString{pts, fresh} {
				if err := bytelevelpretokenizer.New(gen.Regexp2("x"), false, false).PreTokenize(q); err != nil {
					return err
				}
			}
			if a, b := pts.GetOriginalByteSplits(), fresh.GetOriginalByteSplits(); !reflect.DeepEqual(a, b) {
				return fmt.Errorf("pre-tokenizer %d failed, then another: %v, without the failure %v", i, a, b)
			}
		}
	}
	return nil
}

// ModelFail tokenizes the words of a text by a model that may lack its
// unknown token, or whose merges lead to an id without a term.
type ModelFail struct {
	W *WPCase  `json:",omitempty"`
	B *BPECase `json:",omitempty"`
	// Lost: the id of this merge is not in the vocabulary (1-based)
	Lost int `json:",omitempty"`
}

func drawModelFail(t *rapid.T) ModelFail {
	if rapid.Bool().Draw(t, "bpe") {
		b := drawBPECase(t)
		lost := 0
		if n := len(b.B.M); n > 0 && rapid.IntRange(0, 3).Draw(t, "lose") > 0 {
			lost = rapid.IntRange(1, n).Draw(t, "lost")
		} else {
			b.B.Unk = "[absent]"
		}
		b.B.Cache = rapid.SampledFrom([]int{0, 1, 10000}).Draw(t, "cache")
		for range rapid.IntRange(0, 2).Draw(t, "more") {
			b.Words = append(b.Words, S(gen.ShortText(t)))
		}
		if rapid.Bool().Draw(t, "another") {
			b.Words = append(b.Words, S(gen.NonEmptyText(t)))
		}
		return ModelFail{B: &b, Lost: lost}
	}
	w := drawWP(t)
	if rapid.IntRange(0, 3).Draw(t, "absent") > 0 {
		w.Unk = "[absent]"
	}
	if rapid.IntRange(0, 3).Draw(t, "start") > 0 && len(w.V.Terms) == len(w.V.ref()) {
		// let the first words succeed
		w.V.IDs = nil
		w.Words = append([]S{S(gen.FromPalette(t, gen.Palette(t), rapid.IntRange(1, 3).Draw(t, "n")))}, w.Words...)
		for _, x := range w.Words[:rapid.IntRange(1, len(w.Words)).Draw(t, "covered")] {
			for _, r := range string(x) {
				w.V.add(string(r))
				w.V.add(string(w.Prefix) + string(r))
			}
		}
	}
	return ModelFail{W: &w}
}

func checkModelFail(ctx *Ctx, c ModelFail) error {
	var words []S
	var build func() models.Model
	if c.W != nil {
		words = c.W.Words
		build = func() models.Model {
			return wordpiecemodel.New(c.W.V.lib(), string(c.W.Unk), string(c.W.Prefix), c.W.Limit)
		}
	} else {
		words = c.B.Words
		b := c.B.B
		table := b.table()
		if c.Lost > 0 {
			table[c.Lost-1].ID = 1<<40 + 1
		}
		build = func() models.Model {
			return bpemodel.New(b.V.lib(), mergeMap(table), b.Cache, 0, string(b.Unk), string(b.Prefix), string(b.Suffix), b.Fuse)
		}
		if c.Lost > 0 {
			conf := b.conf()
			conf.Merges = ref.MergeTable(table)
			m := build()
			for _, w := range words {
				toks, _, _, _ := conf.Tokenize(string(w))
				lost := slices.ContainsFunc(toks, func(t ref.Tok) bool { return t.ID == 1<<40+1 })
				if got, err := m.Tokenize(string(w)); (err != nil) != lost {
					return fmt.Errorf("%s: %q gives %v, error %v, though the ids are %v", js(c), string(w), got, err, toks)
				}
			}
		}
	}
	var text []string
	for _, w := range words {
		text = append(text, string(w))
	}
	start := func() (*pretokenizedstring.PreTokenizedString, error) {
		pts := pretokenizedstring.FromString(strings.ToValidUTF8(strings.Join(text, "|"), "?"))
		return pts, runedelimiterpretokenizer.New('|').PreTokenize(pts)
	}
	pts, err := start()
	if err != nil {
		return err
	}
	m, single := build(), build()
	err = pts.Tokenize(func(n *NSt) ([]models.Token, error) { return m.Tokenize(n.Get()) })
	var wantErr error
	for i, x := range pts.Splits() {
		if wantErr != nil {
			if x.Tokens != nil {
				return fmt.Errorf("%s: split %d has tokens, though tokenization had failed", js(c), i)
			}
			continue
		}
		toks, e := single.Tokenize(x.NormalizedString.Get())
		if e != nil {
			wantErr = e
			ctx.NonTrivialIf(i > 0)
			ctx.Label("failed")
			ctx.LabelIf(c.Lost > 0, "failed by an id without a term")
			if len(toks) > 0 {
				return fmt.Errorf("%s: tokens %v along with the error %v", js(c), toks, e)
			}
			if x.Tokens != nil {
				return fmt.Errorf("%s: split %d has tokens, though its tokenization failed", js(c), i)
			}
			continue
		}
		if x.Tokens == nil || len(*x.Tokens) != len(toks) || len(toks) > 0 && !reflect.DeepEqual(*x.Tokens, toks) {
			return fmt.Errorf("%s: split %d has tokens %v, alone %v", js(c), i, x.Tokens, toks)
		}
	}
	if err := sameError(err, wantErr); err != nil {
		return fmt.Errorf("%s: Tokenize: %w (the model's own)", js(c), err)
	}
	if wantErr == nil {
		return nil
	}
	if e, err := pts.IntoEncoding(-1, 0); err == nil {
		return fmt.Errorf("%s: encoding %v of a string not tokenized", js(c), e)
	}
	// the same model again: fails again, on the same split
	err = pts.Tokenize(func(n *NSt) ([]models.Token, error) { return m.Tokenize(n.Get()) })
	if err := sameError(err, wantErr); err != nil {
		return fmt.Errorf("%s: second Tokenize: %w", js(c), err)
	}
	// a component that works
	works := func(n *NSt) ([]models.Token, error) {
		toks, err := single.Tokenize(n.Get())
		if err != nil {
			toks = []models.Token{{ID: -7, Value: n.Get()}}
			toks[0].Offsets.End = n.Len()
		}
		return toks, nil
	}
	fresh, err := start()
	if err != nil {
		return err
	}
	var encs []*encodings.Encoding
	for _, p := range []*pretokenizedstring.PreTokenizedString{pts, fresh} {
		if err := p.Tokenize(works); err != nil {
			return fmt.Errorf("%s: working component: error %v", js(c), err)
		}
		e, err := p.IntoEncoding(-1, 3)
		if err != nil {
			return fmt.Errorf("%s: IntoEncoding: %v", js(c), err)
		}
		encs = append(encs, e)
	}
	if !reflect.DeepEqual(encs[0], encs[1]) {
		return fmt.Errorf("%s: encoding after a failure %+v, without %+v", js(c), encs[0], encs[1])
	}
	return nil
}

func c26Real() []*engine.Facet {
	return []*engine.Facet{
		engine.F("timeouts", "the regexp runs out of time after a first match", 4000, 80000, drawSlow, checkSlow),
		engine.F("models", "a split behind the first one cannot be tokenized", 30000, 800000, drawModelFail, checkModelFail),
	}
}
