package props

import (
	"fmt"
	"slices"
	"strings"

	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"

	"verif/harness/engine"
)

// Many is a text of N words, more than any counter of few bits can tell apart,
// taken through every operation of a pre-tokenized string. Every Given-th
// word is given its tokens by a split.
type Many struct {
	N, Given, Behaviour int
}

func enumMany(tier string, yield func(Many) bool) {
	for _, c := range []Many{{70000, 5, 0}, {40000, 3, 1}, {300, 2, 0}, {66000, 1 << 30, 1}} {
		if !yield(c) {
			return
		}
	}
	if tier == "thorough" {
		yield(Many{1 << 20, 7, 0})
	}
}

func manyFacet(encoding bool) *engine.Facet {
	return engine.Enum(engine.F("many", "thousands of splits", 0, 0, nil, func(ctx *Ctx, c Many) error {
		return checkMany(ctx, c, encoding)
	}), enumMany)
}

type manySplit struct {
	text string
	at   strutils.ByteOffsets
	toks []models.Token // nil: none
	base int            // bytes of the text before what was appended
}

func checkMany(ctx *Ctx, c Many, encoding bool) error {
	ctx.NonTrivial()
	var b strings.Builder
	var want []manySplit
	add := func(s string, keep bool) {
		if keep {
			want = append(want, manySplit{text: s, at: strutils.ByteOffsets{Start: b.Len(), End: b.Len() + len(s)}, base: len(s)})
		}
		b.WriteString(s)
	}
	for i := range c.N {
		add([]string{"a", "é", "你b", "x\u0301y", "\U0001F600"}[i%5], true)
		add(" ", c.Behaviour == int(normalizedstring.SplitDelimiterIsolated))
	}
	pts := pretokenizedstring.FromString(b.String())
	views := func(when string) error {
		ob, nb, sp := pts.GetOriginalByteSplits(), pts.GetNormalizedByteSplits(), pts.Splits()
		if len(ob) != len(want) || len(nb) != len(want) || len(sp) != len(want) {
			return fmt.Errorf("%s: %d, %d, %d splits, want %d", when, len(ob), len(nb), len(sp), len(want))
		}
		p := 0
		for i, w := range want {
			if ob[i].String != w.text || ob[i].Offsets != w.at {
				return fmt.Errorf("%s: original split %d is %+q %v, want %+q %v", when, i, ob[i].String, ob[i].Offsets, w.text, w.at)
			}
			if nb[i].String != w.text || nb[i].Offsets != (strutils.ByteOffsets{Start: p, End: p + len(w.text)}) {
				return fmt.Errorf("%s: normalized split %d is %+q %v, want %+q at %d", when, i, nb[i].String, nb[i].Offsets, w.text, p)
			}
			p += len(w.text)
			for _, t := range []*[]models.Token{ob[i].Tokens, nb[i].Tokens, sp[i].Tokens} {
				if (t == nil) != (w.toks == nil) || (t != nil && !slices.Equal(*t, w.toks)) {
					return fmt.Errorf("%s: split %d has tokens %v, want %v", when, i, t, w.toks)
				}
			}
		}
		return nil
	}

	err := pts.Split(func(i int, ns *NSt) ([]pretokenizedstring.Split, error) {
		nss, err := ns.Split(splitpattern.FromRune(' '), normalizedstring.SplitDelimiterBehavior(c.Behaviour))
		return pretokenizedstring.SplitsFromNormalizedStrings(nss), err
	})
	if err != nil {
		return fmt.Errorf("cut at spaces: unexpected error %v", err)
	}
	if err := views("cut at spaces"); err != nil {
		return err
	}

	// some get their tokens, some are cut after their first character
	var next []manySplit
	var calls []int
	for round, given := range []bool{true, false} {
		next, calls = nil, nil
		var wantCalls []int
		for i, w := range want {
			if w.toks != nil {
				next = append(next, w)
				continue
			}
			wantCalls = append(wantCalls, i)
			k := len(string([]rune(w.text)[0]))
			switch {
			case given && i%c.Given == 0:
				w.toks = []models.Token{{ID: i, Value: "given", Offsets: strutils.ByteOffsets{Start: 0, End: k}}}
				next = append(next, w)
			case !given && k < len(w.text):
				l, r := w, w
				l.text, r.text = w.text[:k], w.text[k:]
				l.base, r.base = len(l.text), len(r.text)
				l.at.End, r.at.Start = w.at.Start+k, w.at.Start+k
				next = append(next, l, r)
			default:
				next = append(next, w)
			}
		}
		err = pts.Split(func(i int, ns *NSt) ([]pretokenizedstring.Split, error) {
			calls = append(calls, i)
			k := len(string([]rune(ns.Get())[0]))
			if given && i%c.Given == 0 {
				ts := []models.Token{{ID: i, Value: "given", Offsets: strutils.ByteOffsets{Start: 0, End: k}}}
				return []pretokenizedstring.Split{{NormalizedString: ns, Tokens: &ts}}, nil
			}
			if !given && k < ns.Len() {
				l, _ := ns.Slice(normalizedstring.NewNormalizedRange(0, k))
				r, ok := ns.Slice(normalizedstring.NewNormalizedRange(k, ns.Len()))
				if !ok {
					return nil, fmt.Errorf("slice of %+q refused", ns.Get())
				}
				return pretokenizedstring.SplitsFromNormalizedStrings([]*NSt{l, r}), nil
			}
			return pretokenizedstring.SplitsFromNormalizedStrings([]*NSt{ns}), nil
		})
		if err != nil {
			return fmt.Errorf("split %d: unexpected error %v", round+2, err)
		}
		if !slices.Equal(calls, wantCalls) {
			return fmt.Errorf("split %d: called for other splits than those without tokens, or with other indexes: %d calls, want %d%s", round+2, len(calls), len(wantCalls), firstDiff(calls, wantCalls))
		}
		want = next
		if err := views(fmt.Sprintf("split %d", round+2)); err != nil {
			return err
		}
	}

	n := 0
	if err := pts.Normalize(func(ns *NSt) error { n++; ns.Append("!"); return nil }); err != nil {
		return fmt.Errorf("Normalize: unexpected error %v", err)
	}
	open := 0
	for i := range want {
		if want[i].toks == nil {
			want[i].text += "!"
			open++
		}
	}
	if n != open {
		return fmt.Errorf("Normalize: %d calls, want %d", n, open)
	}
	if err := views("normalized"); err != nil {
		return err
	}

	k := 0
	tok := func(text string) []models.Token {
		k++
		return []models.Token{{ID: k, Value: text, Offsets: strutils.ByteOffsets{Start: 0, End: len(text)}}}
	}
	if err := pts.Tokenize(func(ns *NSt) ([]models.Token, error) { return tok(ns.Get()), nil }); err != nil {
		return fmt.Errorf("Tokenize: unexpected error %v", err)
	}
	k = 0
	for i := range want {
		if want[i].toks == nil {
			want[i].toks = tok(want[i].text)
		}
	}
	if err := views("tokenized"); err != nil {
		return err
	}
	if !encoding {
		return nil
	}
	for _, word := range []int{-1, 70001} {
		e, err := pts.IntoEncoding(word, 66000)
		if err != nil {
			return fmt.Errorf("IntoEncoding: unexpected error %v", err)
		}
		for _, n := range []int{e.Len(), len(e.IDs), len(e.Tokens), len(e.Offsets), len(e.Words), len(e.TypeIDs), len(e.SpecialTokensMask), len(e.AttentionMask)} {
			if n != len(want) {
				return fmt.Errorf("encoding of %d tokens has lists of %d", len(want), n)
			}
		}
		for i, w := range want {
			t := w.toks[0]
			wi := word
			if wi < 0 {
				wi = i
			}
			at := strutils.ByteOffsets{Start: w.at.Start, End: w.at.Start + min(t.Offsets.End, w.base)}
			if e.IDs[i] != t.ID || e.Tokens[i] != t.Value || e.Offsets[i] != at || e.Words[i] != wi || e.TypeIDs[i] != 66000 || e.SpecialTokensMask[i] != 0 || e.AttentionMask[i] != 1 {
				return fmt.Errorf("token %d of the encoding: %d %+q %v word %d type %d, want %d %+q %v word %d", i, e.IDs[i], e.Tokens[i], e.Offsets[i], e.Words[i], e.TypeIDs[i], t.ID, t.Value, at, wi)
			}
		}
	}
	return views("encoded")
}

func firstDiff(got, want []int) string {
	for i := range min(len(got), len(want)) {
		if got[i] != want[i] {
			return fmt.Sprintf("; call %d has index %d, want %d", i, got[i], want[i])
		}
	}
	return ""
}
