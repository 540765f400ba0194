// Package props states the properties as executable checks.
package props

import (
	"fmt"
	"reflect"
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"pgregory.net/rapid"

	"verif/harness/engine"
	"verif/harness/gen"
	"verif/harness/ref"
)

type (
	NSt  = normalizedstring.NormalizedString
	Ctx  = engine.Ctx
	S    = gen.S
	Hist struct {
		Text S
		Ops  []gen.Op
	}
)

func drawHist(kinds []string, maxN int) func(t *rapid.T) Hist {
	return func(t *rapid.T) Hist {
		s := gen.Text(t)
		return Hist{S(s), gen.Ops(t, s, kinds, maxN)}
	}
}

func multibyte(s string) bool { return len(s) != utf8.RuneCountInString(s) }

// cmpText compares the normalized texts.
func cmpText(l *NSt, m *ref.NS) error {
	if got, want := l.Get(), m.Text(); got != want {
		return fmt.Errorf("text %+q, want %+q", got, want)
	}
	return nil
}

// byteAligns observes the alignment of every byte through the public API.
func byteAligns(l *NSt) ([]ref.Align, error) {
	out := []ref.Align{}
	for i := 0; i < l.Len(); i++ {
		r, ok := l.CoerceRangeToOriginal(normalizedstring.NewNormalizedRange(i, i+1))
		if !ok {
			return nil, fmt.Errorf("byte %d of %+q has no original range", i, l.Get())
		}
		out = append(out, ref.Align{S: r.Start(), E: r.End()})
	}
	return out, nil
}

// cmpAligns compares texts and alignments of every byte.
func cmpAligns(l *NSt, m *ref.NS) error {
	if err := cmpText(l, m); err != nil {
		return err
	}
	got, err := byteAligns(l)
	if err != nil {
		return err
	}
	want := m.ByteAligns()
	for i := range want {
		if got[i] != want[i] {
			return fmt.Errorf("byte %d of %+q (original %+q) is aligned to %v, want %v", i, m.Text(), m.Orig, got[i], want[i])
		}
	}
	return nil
}

// cmpOrig compares original and offsets.
func cmpOrig(l *NSt, m *ref.NS) error {
	if got := l.GetOriginal(); got != m.Orig {
		return fmt.Errorf("original %+q, want %+q (normalized %+q)", got, m.Orig, m.Text())
	}
	if got := l.OriginalLen(); got != len(m.Orig) {
		return fmt.Errorf("OriginalLen %d, want %d", got, len(m.Orig))
	}
	if o := l.OriginalOffsets(); o.Start != m.Shift || o.End != m.Shift+len(m.Orig) {
		return fmt.Errorf("original offsets %v, want [%d %d] (normalized %+q, original %+q)", o, m.Shift, m.Shift+len(m.Orig), m.Text(), m.Orig)
	}
	return nil
}

func cmpAll(l *NSt, m *ref.NS) error {
	if err := cmpOrig(l, m); err != nil {
		return err
	}
	return cmpAligns(l, m)
}

func cmpList(what string, ls []*NSt, ms []*ref.NS) error {
	if len(ls) != len(ms) {
		return fmt.Errorf("%s: %d pieces %+q, want %d %+q", what, len(ls), texts(ls), len(ms), mtexts(ms))
	}
	for i := range ls {
		if err := cmpAll(ls[i], ms[i]); err != nil {
			return fmt.Errorf("%s: piece %d of %+q: %w", what, i, mtexts(ms), err)
		}
	}
	return nil
}

func texts(ls []*NSt) []string {
	out := []string{}
	for _, l := range ls {
		out = append(out, l.Get())
	}
	return out
}

func mtexts(ms []*ref.NS) []string {
	out := []string{}
	for _, m := range ms {
		out = append(out, m.Text())
	}
	return out
}

func dropEmpty(ls []*NSt) []*NSt {
	out := []*NSt{}
	for _, l := range ls {
		if !l.IsEmpty() {
			out = append(out, l)
		}
	}
	return out
}

// pieces lists the normalized strings of a pre-tokenized string.
func pieces(p *pretokenizedstring.PreTokenizedString) []*NSt {
	out := []*NSt{}
	for _, s := range p.Splits() {
		out = append(out, s.NormalizedString)
	}
	return out
}

// cmpViews checks both byte-split views against the model pieces.
func cmpViews(p *pretokenizedstring.PreTokenizedString, ms []*ref.NS) error {
	ob, nb := p.GetOriginalByteSplits(), p.GetNormalizedByteSplits()
	if len(ob) != len(ms) || len(nb) != len(ms) {
		return fmt.Errorf("%d original and %d normalized byte splits, want %d %+q (got %+v)", len(ob), len(nb), len(ms), mtexts(ms), ob)
	}
	off := 0
	for i, m := range ms {
		t := m.Text()
		if ob[i].String != t || ob[i].Offsets.Start != m.Shift || ob[i].Offsets.End != m.Shift+len(m.Orig) {
			return fmt.Errorf("original byte split %d is %+q %v, want %+q [%d %d]", i, ob[i].String, ob[i].Offsets, t, m.Shift, m.Shift+len(m.Orig))
		}
		if nb[i].String != t || nb[i].Offsets.Start != off || nb[i].Offsets.End != off+len(t) {
			return fmt.Errorf("normalized byte split %d is %+q %v, want %+q [%d %d]", i, nb[i].String, nb[i].Offsets, t, off, off+len(t))
		}
		off += len(t)
	}
	return nil
}

// origAligns reads the opaque table through reflection (positions only).
func origAligns(l *NSt) []ref.Align {
	v := reflect.ValueOf(l.OriginalAlignments())
	out := []ref.Align{}
	for i := 0; i < v.Len(); i++ {
		out = append(out, ref.Align{S: int(v.Index(i).Field(0).Int()), E: int(v.Index(i).Field(1).Int())})
	}
	return out
}

func toks(ts []models.Token) []ref.Tok {
	out := []ref.Tok{}
	for _, t := range ts {
		out = append(out, ref.Tok{ID: t.ID, Val: t.Value, S: t.Offsets.Start, E: t.Offsets.End})
	}
	return out
}

func cmpToks(got []models.Token, want []ref.Tok) error {
	g := toks(got)
	if len(g) != len(want) {
		return fmt.Errorf("tokens %+v, want %+v", g, want)
	}
	for i := range g {
		if g[i] != want[i] {
			return fmt.Errorf("token %d is %+v, want %+v (all: %+v, want %+v)", i, g[i], want[i], g, want)
		}
	}
	return nil
}

// applyAll runs a history on both sides, calling each after every effective op.
func applyAll(h Hist, each func(kind string, l *NSt, m *ref.NS) error) (*NSt, *ref.NS, error) {
	l, m := normalizedstring.FromString(string(h.Text)), ref.FromString(string(h.Text))
	// one object for every use of a pattern
	libs := map[gen.Pat]splitpattern.SplitPattern{}
	for i, o := range h.Ops {
		var kind string
		var err error
		if o.P != nil {
			if libs[*o.P] == nil {
				libs[*o.P] = o.P.Lib()
			}
			o.Lib = libs[*o.P]
		}
		l, m, kind, err = gen.Apply(o, l, m)
		if err != nil {
			return nil, nil, err
		}
		if kind == "" || each == nil {
			continue
		}
		if err := each(kind, l, m); err != nil {
			return nil, nil, fmt.Errorf("after op %d (%s): %w", i, o.K, err)
		}
	}
	return l, m, nil
}

// ---- small exhaustive histories ----

func smallTexts(alpha []string, maxLen int) []string {
	out := []string{""}
	prev := []string{""}
	for range maxLen {
		var next []string
		for _, p := range prev {
			for _, a := range alpha {
				next = append(next, p+a)
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

var smallOps = func() []gen.Op {
	rp := func(s string) *gen.Pat { return &gen.Pat{Kind: "literal", S: S(s)} }
	re := func(s string) *gen.Pat { return &gen.Pat{Kind: "regexp", S: S(s)} }
	ops := []gen.Op{
		{K: "filter", S: "rune:a"}, {K: "filter", S: "wide"}, {K: "filter", S: "ascii"}, {K: "filter", S: "none"},
		{K: "map", S: "swap"}, {K: "map", S: "wide"}, {K: "upper"}, {K: "lower"},
		{K: "trim"}, {K: "trimleft"}, {K: "trimright"}, {K: "trimlr"},
		{K: "prepend", S: "é"}, {K: "prepend", S: " x"}, {K: "prepend", S: ""},
		{K: "append", S: "😀"}, {K: "append", S: "y "}, {K: "append", S: ""},
		{K: "replace", P: rp("a"), S: "你b"}, {K: "replace", P: rp("é"), S: ""}, {K: "replace", P: rp(" "), S: "▁"},
		{K: "replace", P: re(`a*`), S: "-"}, {K: "replace", P: re(`.`), S: "zé"}, {K: "replace", P: re(`^`), S: "x"},
		{K: "transform", B: -1, Ch: []gen.Chg{{'x', 0}, {'é', 0}, {'z', -3}}},
		{K: "transform", B: -1, Ch: []gen.Chg{{'é', 1}, {'y', -1}, {'w', 1}}},
		{K: "transform", B: -1, I: 1, Ch: []gen.Chg{{'x', 0}, {'y', 1}}},
		{K: "transform", B: -1, I: 2, Ch: []gen.Chg{{'é', 1}}},
		{K: "transform", B: -1},
	}
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			ops = append(ops, gen.Op{K: "transform", A: a, B: b, Ch: []gen.Chg{{'é', 1}, {'x', -1}, {'z', 1}}})
			ops = append(ops, gen.Op{K: "transform", A: a, B: b, I: 1})
		}
		ops = append(ops, gen.Op{K: "transform", A: a, B: 1, O: true, Ch: []gen.Chg{{'你', 0}, {'x', 1}}})
		ops = append(ops, gen.Op{K: "slice", A: a, B: 1}, gen.Op{K: "slice", A: a, B: 1, O: true})
	}
	return ops
}()

func enumHist(tier string, yield func(Hist) bool) {
	n := 2
	if tier == "thorough" {
		n = 3
	}
	for _, s := range smallTexts([]string{"a", " ", "é", "\u3000"}, n) {
		for _, o1 := range smallOps {
			if !yield(Hist{S(s), []gen.Op{o1}}) {
				return
			}
			for _, o2 := range smallOps {
				if !yield(Hist{S(s), []gen.Op{o1, o2}}) {
					return
				}
			}
		}
	}
	for _, s := range smallTexts([]string{"a", "é", "\u3000", "😀"}, n+1) {
		for _, o1 := range smallOps {
			if !yield(Hist{S(s), []gen.Op{o1}}) {
				return
			}
		}
	}
}

// lazy is a text computed when printed.
type lazy func() string

func (l lazy) String() string { return l() }
