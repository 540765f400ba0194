package props

import (
	"errors"
	"fmt"
	"reflect"
	"slices"

	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"pgregory.net/rapid"

	"verif/harness/engine"
	"verif/harness/gen"
	"verif/harness/ref"
)

// Sub is what a split callback does with one string.
type Sub struct {
	K    string   // pattern same edit cut none
	P    *gen.Pat `json:",omitempty"`
	B    int      `json:",omitempty"`
	Op   *gen.Op  `json:",omitempty"`
	A    int      `json:",omitempty"`
	Toks bool     `json:",omitempty"` // attach tokens to every second piece
	Fill bool     `json:",omitempty"` // interleave empty pieces
}

// PStep is an operation on a pre-tokenized string.
type PStep struct {
	K    string  // split normalize tokenize view
	Subs []Sub   `json:",omitempty"`
	Op   *gen.Op `json:",omitempty"`
	T    TokPlan `json:",omitempty"`
	Fail int     `json:",omitempty"` // fail at that callback (1-based)
}

// TokPlan describes the tokens given to a string: N tokens, positions and ids
// derived from the seeds.
type TokPlan struct {
	N     int
	Seeds []int
}

// PHist is a history.
type PHist struct {
	H     Hist
	Steps []PStep
	Word  int
	Type  int
}

type msplit struct {
	m    *ref.NS
	toks *[]ref.Tok
}

func (p TokPlan) tokens(text string, salt int) []ref.Tok {
	out := []ref.Tok{}
	if len(text) == 0 {
		return out
	}
	if p.N < 0 { // one per character, the way models do
		at := 0
		for i, c := range ref.Chars(text) {
			out = append(out, ref.Tok{ID: i + salt, Val: c, S: at, E: at + len(c)})
			at += len(c)
		}
		return out
	}
	for i := range p.N {
		x, y := 7*i+salt, 3*i+1
		if len(p.Seeds) > 0 {
			x += p.Seeds[i%len(p.Seeds)]
			y += p.Seeds[(i+1)%len(p.Seeds)]
		}
		s := x % len(text)
		e := s + 1 + y%(len(text)-s)
		out = append(out, ref.Tok{ID: x * 31, Val: fmt.Sprintf("t%d-%d", salt, i), S: s, E: e})
	}
	return out
}

func libToks(ts []ref.Tok) []models.Token {
	out := make([]models.Token, 0, len(ts))
	for _, t := range ts {
		out = append(out, models.Token{ID: t.ID, Value: t.Val, Offsets: strutils.ByteOffsets{Start: t.S, End: t.E}})
	}
	return out
}

func drawSub(t *rapid.T, s string, pure bool) Sub {
	u := Sub{}
	switch k := rapid.IntRange(0, 9).Draw(t, "sub"); {
	case k < 5:
		p := gen.Pattern(t, s)
		u.K, u.P, u.B = "pattern", &p, rapid.IntRange(0, 4).Draw(t, "b")
	case k == 5:
		u.K = "same"
	case k < 8 && !pure:
		o := gen.DrawOp(t, s, gen.EditKinds)
		u.K, u.Op = "edit", &o
	case k == 8:
		u.K = "none"
	default:
		u.K, u.A = "cut", rapid.IntRange(0, 20).Draw(t, "at")
	}
	u.Toks = rapid.IntRange(0, 4).Draw(t, "toks") == 0
	u.Fill = rapid.IntRange(0, 4).Draw(t, "fill") == 0
	return u
}

func drawTokPlan(t *rapid.T) TokPlan {
	p := TokPlan{N: rapid.IntRange(-1, 4).Draw(t, "ntok")}
	if p.N > 0 {
		p.Seeds = rapid.SliceOfN(rapid.IntRange(0, 50), 1, 4).Draw(t, "seeds")
	}
	return p
}

func drawPHist(t *rapid.T, final string, pure bool) PHist {
	s := gen.Text(t)
	several := rapid.IntRange(0, 3).Draw(t, "several") > 0
	if several {
		s = gen.NonEmptyText(t)
	}
	c := PHist{H: Hist{Text: S(s)}, Word: rapid.IntRange(-2, 3).Draw(t, "word"), Type: rapid.IntRange(-1, 2).Draw(t, "type")}
	if rapid.Bool().Draw(t, "edited") {
		c.H.Ops = gen.Ops(t, s, gen.HistKinds, 3)
	}
	if several {
		u := Sub{K: "pattern", P: &gen.Pat{Kind: "rune", R: gen.RuneOf(t, s)}, B: rapid.IntRange(1, 4).Draw(t, "b")}
		c.Steps = append(c.Steps, PStep{K: "split", Subs: []Sub{u}})
	}
	maxSteps := 5
	if rapid.IntRange(0, 200).Draw(t, "long") == 200 {
		maxSteps = 40
	}
	for range rapid.IntRange(1, maxSteps).Draw(t, "nsteps") {
		st := PStep{}
		switch k := rapid.IntRange(0, 9).Draw(t, "step"); {
		case k < 5:
			st.K = "split"
			for range rapid.IntRange(1, 3).Draw(t, "nsub") {
				st.Subs = append(st.Subs, drawSub(t, s, pure))
			}
		case k < 7:
			o := gen.DrawOp(t, s, gen.EditKinds)
			st.K, st.Op = "normalize", &o
		case k < 9:
			st.K, st.T = "tokenize", drawTokPlan(t)
		default:
			st.K = "view"
		}
		c.Steps = append(c.Steps, st)
	}
	if final != "" {
		c.Steps = append(c.Steps, PStep{K: final, T: drawTokPlan(t)})
	}
	return c
}

// sub performs one callback on both sides.
func (u Sub) run(index int, l *NSt, m *ref.NS) (ls []pretokenizedstring.Split, ms []msplit, err error) {
	var nl []*NSt
	var nm []*ref.NS
	switch u.K {
	case "pattern":
		nm = m.Split(u.P.Caps(m.Text()), u.B)
		nl, err = l.Split(u.P.Lib(), normalizedstring.SplitDelimiterBehavior(u.B))
		if err != nil {
			return nil, nil, err
		}
		nl = dropEmpty(nl)
		if len(nl) != len(nm) {
			return nil, nil, fmt.Errorf("pieces %+q, want %+q", texts(nl), mtexts(nm))
		}
	case "same":
		nl, nm = []*NSt{l}, []*ref.NS{m}
	case "edit":
		if _, _, _, err := gen.Apply(*u.Op, l, m); err != nil {
			return nil, nil, err
		}
		nl, nm = []*NSt{l}, []*ref.NS{m}
	case "cut":
		if n := len(m.Cells); n > 0 {
			st := m.Starts()
			k := u.A % n
			for _, p := range [][2]int{{0, st[k]}, {st[k], st[n]}} {
				x, ok := l.Slice(normalizedstring.NewNormalizedRange(p[0], p[1]))
				if p[0] == p[1] {
					if ok {
						nl, nm = append(nl, x), append(nm, &ref.NS{})
					}
					continue
				}
				if !ok {
					return nil, nil, fmt.Errorf("slice %v of %+q refused", p, m.Text())
				}
				nl, nm = append(nl, x), append(nm, m.Slice(p[0], p[1]))
			}
		}
	case "none":
	}
	if u.Toks {
		for i := range nl {
			if u.Fill {
				ls = append(ls, pretokenizedstring.Split{NormalizedString: normalizedstring.FromString("")})
			}
			sp := pretokenizedstring.Split{NormalizedString: nl[i]}
			mm := msplit{m: nm[i]}
			if i%2 == 0 {
				tk := TokPlan{N: 2}.tokens(nm[i].Text(), index)
				lt := libToks(tk)
				sp.Tokens, mm.toks = &lt, &tk
			}
			ls, ms = append(ls, sp), append(ms, mm)
		}
	} else {
		var all []*NSt
		for i := range nl {
			if u.Fill {
				all = append(all, normalizedstring.FromString(""))
			}
			all = append(all, nl[i])
			ms = append(ms, msplit{m: nm[i]})
		}
		ls = pretokenizedstring.SplitsFromNormalizedStrings(all)
	}
	var keep []msplit
	for _, x := range ms {
		if x.m.Text() != "" {
			keep = append(keep, x)
		}
	}
	return ls, keep, nil
}

type pstate struct {
	pts *pretokenizedstring.PreTokenizedString
	ms  []msplit
}

func (s *pstate) mlist() []*ref.NS {
	var out []*ref.NS
	for _, x := range s.ms {
		out = append(out, x.m)
	}
	return out
}

func sameToks(what string, got *[]models.Token, want *[]ref.Tok) error {
	if (got == nil) != (want == nil) {
		return fmt.Errorf("%s: tokens attached: %v, want %v", what, got != nil, want != nil)
	}
	if got == nil {
		return nil
	}
	if err := cmpToks(*got, *want); err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	return nil
}

func (s *pstate) compare() error {
	for range 2 { // twice: views change nothing
		if err := cmpViews(s.pts, s.mlist()); err != nil {
			return err
		}
		ob, nb, sp := s.pts.GetOriginalByteSplits(), s.pts.GetNormalizedByteSplits(), s.pts.Splits()
		if len(sp) != len(s.ms) {
			return fmt.Errorf("%d splits, want %d", len(sp), len(s.ms))
		}
		for i, x := range s.ms {
			for _, g := range []*[]models.Token{ob[i].Tokens, nb[i].Tokens, sp[i].Tokens} {
				if err := sameToks(fmt.Sprintf("split %d %+q", i, x.m.Text()), g, x.toks); err != nil {
					return err
				}
			}
			if err := cmpAll(sp[i].NormalizedString, x.m); err != nil {
				return fmt.Errorf("split %d: %w", i, err)
			}
		}
	}
	return nil
}

type call struct {
	i int
	s string
}

var errInjected = errors.New("injected failure")

// step runs one operation; a positive Fail makes that callback fail.
func (s *pstate) step(ctx *Ctx, st PStep) error {
	var want, got []call
	var inner error
	for i, x := range s.ms {
		if x.toks == nil {
			want = append(want, call{i, x.m.Text()})
		}
	}
	failAt := st.Fail
	if failAt > len(want) {
		failAt = 0
	}
	if failAt > 0 {
		want = want[:failAt]
		ctx.Label("fails " + st.K)
	}
	beforeSplits := s.pts.Splits()
	var before []pretokenizedstring.Split
	before = append(before, beforeSplits...)
	// position of the k-th call in the model
	var at []int
	for i, x := range s.ms {
		if x.toks == nil {
			at = append(at, i)
		}
	}
	failing := func(i int, l *NSt) bool {
		got = append(got, call{i, l.Get()})
		return failAt > 0 && len(got) == failAt
	}
	newMS := append([]msplit(nil), s.ms...)
	repl := map[int][]msplit{}
	var err error
	switch st.K {
	case "split":
		err = s.pts.Split(func(i int, l *NSt) ([]pretokenizedstring.Split, error) {
			k := len(got)
			if failing(i, l) {
				if l.Len()%2 == 0 {
					return []pretokenizedstring.Split{{NormalizedString: l}, {NormalizedString: l}}, errInjected
				}
				return nil, errInjected
			}
			if k >= len(at) {
				inner = fmt.Errorf("callback called %d times, want %d", k+1, len(at))
				return nil, nil
			}
			ls, ms, e := st.Subs[k%len(st.Subs)].run(at[k], l, s.ms[at[k]].m)
			if e != nil && inner == nil {
				inner = e
			}
			repl[at[k]] = ms
			return ls, nil
		})
		if failAt == 0 {
			newMS = nil
			for i, x := range s.ms {
				if x.toks != nil {
					newMS = append(newMS, x)
				} else {
					newMS = append(newMS, repl[i]...)
				}
			}
		}
	case "normalize":
		err = s.pts.Normalize(func(l *NSt) error {
			k := len(got)
			i := -1
			if k < len(at) {
				i = at[k]
			}
			if failing(i, l) {
				return errInjected
			}
			if i >= 0 {
				if _, _, _, e := gen.Apply(*st.Op, l, s.ms[i].m); e != nil && inner == nil {
					inner = e
				}
			}
			return nil
		})
	case "tokenize":
		err = s.pts.Tokenize(func(l *NSt) ([]models.Token, error) {
			k := len(got)
			i := -1
			if k < len(at) {
				i = at[k]
			}
			if failing(i, l) {
				if l.Len()%2 == 0 {
					return []models.Token{{ID: 1, Value: "t"}}, errInjected
				}
				return nil, errInjected
			}
			if i < 0 {
				return nil, nil
			}
			tk := st.T.tokens(s.ms[i].m.Text(), i)
			newMS[i] = msplit{m: s.ms[i].m, toks: &tk}
			if st.T.N == 0 {
				return nil, nil
			}
			return libToks(tk), nil
		})
	case "view":
		_, _ = s.pts.IntoEncoding(-1, 0)
		return s.compare()
	}
	if inner != nil {
		return inner
	}
	if len(got) != len(want) {
		return fmt.Errorf("%s called back for %v, want %v", st.K, got, want)
	}
	for i := range got {
		if got[i].s != want[i].s || (st.K == "split" && got[i].i != want[i].i) {
			return fmt.Errorf("%s called back for %v, want %v", st.K, got, want)
		}
	}
	if failAt == 0 {
		if err != nil {
			return fmt.Errorf("%s: unexpected error %v", st.K, err)
		}
		s.ms = newMS
		return s.compare()
	}
	if err != errInjected {
		return fmt.Errorf("%s: error %v, want the callback's own", st.K, err)
	}
	// the list of splits is as it was
	after := s.pts.Splits()
	if len(after) != len(before) {
		return fmt.Errorf("failed %s: %d splits, were %d", st.K, len(after), len(before))
	}
	done := map[int]bool{}
	for k := 0; k < failAt-1; k++ {
		done[at[k]] = true
	}
	for i := range after {
		if after[i].NormalizedString != before[i].NormalizedString {
			return fmt.Errorf("failed %s: split %d is another string", st.K, i)
		}
		if s.ms[i].toks == nil && after[i].Tokens != nil && !(st.K == "tokenize" && done[i]) {
			return fmt.Errorf("failed %s: split %d got tokens", st.K, i)
		}
	}
	return nil
}

func newPState(c PHist) (*pstate, error) {
	l, m, err := applyAll(c.H, nil)
	if err != nil {
		return nil, err
	}
	s := &pstate{pts: pretokenizedstring.FromNormalizedString(l), ms: []msplit{{m: m}}}
	if len(c.H.Ops) == 0 {
		s.pts = pretokenizedstring.FromString(string(c.H.Text))
	}
	return s, nil
}

func checkPHist(ctx *Ctx, c PHist) error {
	s, err := newPState(c)
	if err != nil {
		return err
	}
	if err := s.compare(); err != nil {
		return err
	}
	for i, st := range c.Steps {
		mixed, un := false, false
		for _, x := range s.ms {
			mixed, un = mixed || x.toks != nil, un || x.toks == nil
		}
		ctx.NonTrivialIf(st.K != "view" && (len(s.ms) > 1 || (mixed && un)))
		ctx.LabelIf(mixed && un && st.K != "view", st.K+" with some splits tokenized")
		ctx.Label(st.K)
		if err := s.step(ctx, st); err != nil {
			return fmt.Errorf("step %d (%s): %w", i, st.K, err)
		}
	}
	return nil
}

// checkEnc compares the encoding with the model.
func checkEnc(ctx *Ctx, c PHist) error {
	s, err := newPState(c)
	if err != nil {
		return err
	}
	for i, st := range c.Steps {
		if err := s.step(ctx, st); err != nil {
			return fmt.Errorf("step %d (%s): %w", i, st.K, err)
		}
	}
	for _, w := range []int{c.Word, -1, 0} {
		if err := cmpEnc(ctx, s, w, c.Type); err != nil {
			return err
		}
	}
	return s.compare()
}

func cmpEnc(ctx *Ctx, s *pstate, word, typ int) error {
	enc, err := s.pts.IntoEncoding(word, typ)
	untok := false
	for _, x := range s.ms {
		untok = untok || x.toks == nil
	}
	if untok {
		ctx.Label("untokenized split")
		if err == nil {
			return fmt.Errorf("IntoEncoding succeeds with an untokenized split")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("IntoEncoding: unexpected error %v", err)
	}
	want := &encodings.Encoding{}
	for i, x := range s.ms {
		w := word
		if w < 0 {
			w = i
		}
		for _, t := range *x.toks {
			a, b := x.m.NormToOrig(t.S, t.E)
			ctx.NonTrivialIf(a+x.m.Shift != t.S)
			want.IDs = append(want.IDs, t.ID)
			want.Tokens = append(want.Tokens, t.Val)
			want.Offsets = append(want.Offsets, strutils.ByteOffsets{Start: a + x.m.Shift, End: b + x.m.Shift})
			want.Words = append(want.Words, w)
			want.TypeIDs = append(want.TypeIDs, typ)
			want.SpecialTokensMask = append(want.SpecialTokensMask, 0)
			want.AttentionMask = append(want.AttentionMask, 1)
		}
	}
	ctx.LabelIf(len(s.ms) == 0, "no split")
	return cmpEncoding(enc, want)
}

func cmpEncoding(enc, want *encodings.Encoding) error {
	n := len(want.IDs)
	if enc == nil {
		return fmt.Errorf("IntoEncoding returns no encoding")
	}
	if enc.Len() != n || enc.IsEmpty() != (n == 0) {
		return fmt.Errorf("encoding of %d tokens reports Len %d IsEmpty %v: %+v, want %+v", n, enc.Len(), enc.IsEmpty(), enc, want)
	}
	for _, f := range []struct {
		name string
		g, w any
		gn   int
	}{
		{"IDs", enc.IDs, want.IDs, len(enc.IDs)}, {"Tokens", enc.Tokens, want.Tokens, len(enc.Tokens)},
		{"Offsets", enc.Offsets, want.Offsets, len(enc.Offsets)}, {"Words", enc.Words, want.Words, len(enc.Words)},
		{"TypeIDs", enc.TypeIDs, want.TypeIDs, len(enc.TypeIDs)},
		{"SpecialTokensMask", enc.SpecialTokensMask, want.SpecialTokensMask, len(enc.SpecialTokensMask)},
		{"AttentionMask", enc.AttentionMask, want.AttentionMask, len(enc.AttentionMask)},
	} {
		if f.gn != n || (n > 0 && !reflect.DeepEqual(f.g, f.w)) {
			return fmt.Errorf("encoding %s: %v, want %v", f.name, f.g, f.w)
		}
	}
	if len(enc.Overflowing) != 0 {
		return fmt.Errorf("encoding has %d overflowing parts", len(enc.Overflowing))
	}
	return nil
}

// ---- C26 ----

type failPattern struct{ err error }

// FindMatches fails, sometimes after having found something.
func (f failPattern) FindMatches(s string) ([]splitpattern.Capture, error) {
	if len(s)%2 == 0 {
		return nil, f.err
	}
	n := len(ref.Chars(s)[0])
	return []splitpattern.Capture{{Offsets: strutils.ByteOffsets{End: n}, IsMatch: true}, {Offsets: strutils.ByteOffsets{Start: n, End: len(s)}}}, f.err
}

// checkFail: steps may fail (Fail > 0); a failed split or tokenization is
// repeated without the failure and must then give what it would have given.
func checkFail(ctx *Ctx, c PHist) error {
	s, err := newPState(c)
	if err != nil {
		return err
	}
	// failing patterns leave the string alone
	l := s.pts.Splits()[0].NormalizedString
	for i, sp := range []splitpattern.SplitPattern{failPattern{errInjected}, splitpattern.Invert(failPattern{errInjected}), splitpattern.Invert(splitpattern.Invert(failPattern{errInjected}))} {
		if caps, err := sp.FindMatches("x"); err != errInjected {
			return fmt.Errorf("failing pattern inverted %d times: %v, %v", i, caps, err)
		}
		if err := l.Replace(sp, "y"); err != errInjected {
			return fmt.Errorf("Replace with a failing pattern: error %v", err)
		}
		for b := 0; b < 5; b++ {
			if ls, err := l.Split(sp, normalizedstring.SplitDelimiterBehavior(b)); err != errInjected || len(ls) > 0 {
				return fmt.Errorf("Split with a failing pattern: %v, error %v", ls, err)
			}
		}
		if err := cmpAll(l, s.ms[0].m); err != nil {
			return fmt.Errorf("after a failing pattern: %w", err)
		}
	}
	for i, st := range c.Steps {
		ncalls := 0
		for _, x := range s.ms {
			if x.toks == nil {
				ncalls++
			}
		}
		ctx.NonTrivialIf(st.Fail > 1 && st.Fail <= ncalls)
		if err := s.step(ctx, st); err != nil {
			return fmt.Errorf("step %d (%s, failing at call %d): %w", i, st.K, st.Fail, err)
		}
		if st.Fail == 0 || st.Fail > ncalls {
			continue
		}
		if st.K == "normalize" {
			// normalizations done before the failure stay
			if err := s.compare(); err != nil {
				return fmt.Errorf("step %d, after a failed normalization: %w", i, err)
			}
			continue
		}
		if err := s.retry(st); err != nil {
			return fmt.Errorf("step %d (%s, failed at call %d, repeated): %w", i, st.K, st.Fail, err)
		}
	}
	return nil
}

// retry repeats a failed split or tokenization with a working callback.
func (s *pstate) retry(st PStep) error {
	var err error
	var inner error
	switch st.K {
	case "split":
		// the callbacks are pure: nothing has changed
		if err := s.compare(); err != nil {
			return fmt.Errorf("after the failure: %w", err)
		}
		st.Fail = 0
		return s.step(&Ctx{}, st)
	case "tokenize":
		// the splits without tokens now, and their places
		var open []int
		for i, x := range s.pts.Splits() {
			if x.Tokens == nil && i < len(s.ms) {
				open = append(open, i)
			}
		}
		err = s.pts.Tokenize(func(l *NSt) ([]models.Token, error) {
			if len(open) == 0 || l.Get() != s.ms[open[0]].m.Text() {
				inner = fmt.Errorf("called back for %+q, which is not the next split without tokens", l.Get())
				return nil, nil
			}
			i := open[0]
			open = open[1:]
			if st.T.N == 0 {
				return nil, nil
			}
			return libToks(st.T.tokens(s.ms[i].m.Text(), i)), nil
		})
		if err != nil || inner != nil {
			return fmt.Errorf("errors %v, %v", err, inner)
		}
		for i, x := range s.ms {
			if x.toks == nil {
				tk := st.T.tokens(x.m.Text(), i)
				s.ms[i].toks = &tk
			}
		}
		return s.compare()
	}
	return nil
}

func drawFail(t *rapid.T) PHist {
	c := drawPHist(t, "", true)
	if rapid.Bool().Draw(t, "final") {
		c.Steps = append(c.Steps, PStep{K: "tokenize", T: drawTokPlan(t)})
	}
	for i := range c.Steps {
		for j := range c.Steps[i].Subs {
			// an attached token makes a repeated callback skip it: keep callbacks pure
			c.Steps[i].Subs[j].Toks = c.Steps[i].Subs[j].Toks && c.Steps[i].Subs[j].K != "same"
		}
		if rapid.IntRange(0, 2).Draw(t, "fails") > 0 {
			c.Steps[i].Fail = rapid.IntRange(1, 4).Draw(t, "failat")
		}
	}
	return c
}

func init() {
	engine.Register("C14",
		engine.Enum(engine.F("history", "an operation runs on at least two splits, or on a mix of tokenized and untokenized ones", 150000, 2500000,
			func(t *rapid.T) PHist { return drawPHist(t, "", false) }, checkPHist), enumHugePHist),
		manyFacet(false),
		lengths(4, 240, checkPHist, phistsOf),
	)
	engine.Register("C15",
		engine.Enum(engine.F("encoding", "a token whose original offsets differ from its offsets in its split", 150000, 2500000, func(t *rapid.T) PHist {
			final := "tokenize"
			if rapid.IntRange(0, 9).Draw(t, "untok") == 0 {
				final = ""
			}
			return drawPHist(t, final, false)
		}, checkEnc), enumHugePHist),
		manyFacet(true),
		lengths(4, 240, checkEnc, phistsOf),
		engine.F("flat", "at least two tokens", 20000, 500000, drawFlat, checkFlat),
	)
	engine.Register("C26", append([]*engine.Facet{
		engine.F("failures", "an operation fails at its second callback or later", 150000, 2500000, drawFail, checkFail),
	}, c26Real()...)...)
}

// Flat is a list of encodable tokens.
type Flat struct{ T []encodings.EncodableToken }

func drawFlat(t *rapid.T) Flat {
	n := rapid.IntRange(0, 8).Draw(t, "n")
	f := Flat{}
	for range n {
		f.T = append(f.T, encodings.EncodableToken{
			ID: rapid.IntRange(-1, 9).Draw(t, "id"), Token: rapid.SampledFrom([]string{"", "a", "é", "[UNK]", "##b"}).Draw(t, "tok"),
			Offsets:   strutils.ByteOffsets{Start: rapid.IntRange(0, 9).Draw(t, "s"), End: rapid.IntRange(0, 9).Draw(t, "e")},
			WordIndex: rapid.IntRange(-1, 3).Draw(t, "w"), TypeID: rapid.IntRange(0, 2).Draw(t, "ty"),
		})
	}
	return f
}

func checkFlat(ctx *Ctx, f Flat) error {
	ctx.NonTrivialIf(len(f.T) > 1)
	want := &encodings.Encoding{}
	for _, t := range f.T {
		want.IDs = append(want.IDs, t.ID)
		want.Tokens = append(want.Tokens, t.Token)
		want.Offsets = append(want.Offsets, t.Offsets)
		want.Words = append(want.Words, t.WordIndex)
		want.TypeIDs = append(want.TypeIDs, t.TypeID)
		want.SpecialTokensMask = append(want.SpecialTokensMask, 0)
		want.AttentionMask = append(want.AttentionMask, 1)
	}
	if err := cmpEncoding(encodings.EncodingFromEncodableTokens(f.T), want); err != nil {
		return err
	}
	// put together from lists
	built := *want
	built.SpecialTokensMask, built.AttentionMask = nil, nil
	for i := range f.T {
		built.SpecialTokensMask = append(built.SpecialTokensMask, i%2)
		built.AttentionMask = append(built.AttentionMask, i%3)
	}
	if len(f.T)%2 == 1 {
		built.Overflowing = []*encodings.Encoding{want}
	}
	b := built
	got := encodings.NewEncoding(b.IDs, b.TypeIDs, b.Tokens, b.Words, b.Offsets, b.SpecialTokensMask, b.AttentionMask, b.Overflowing)
	same := got != nil && slices.Equal(got.IDs, built.IDs) && slices.Equal(got.TypeIDs, built.TypeIDs) && slices.Equal(got.Tokens, built.Tokens) &&
		slices.Equal(got.Words, built.Words) && slices.Equal(got.Offsets, built.Offsets) && slices.Equal(got.SpecialTokensMask, built.SpecialTokensMask) &&
		slices.Equal(got.AttentionMask, built.AttentionMask) && len(got.Overflowing) == len(built.Overflowing)
	for i := range built.Overflowing {
		same = same && reflect.DeepEqual(got.Overflowing[i], built.Overflowing[i])
	}
	if !same || got.Len() != len(f.T) || got.IsEmpty() != (len(f.T) == 0) {
		return fmt.Errorf("NewEncoding of %+v gives %+v", built, got)
	}
	for _, e := range []*encodings.Encoding{encodings.NewDefaultEncoding(), encodings.NewEncodingWithCapacity(len(f.T))} {
		if err := cmpEncoding(e, &encodings.Encoding{}); err != nil {
			return fmt.Errorf("new encoding: %w", err)
		}
	}
	return nil
}
