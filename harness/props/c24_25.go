package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"pgregory.net/rapid"

	"verif/harness/engine"
	"verif/harness/gen"
	"verif/harness/ref"
)

// Pipe is a whole pipeline on one text.
type Pipe struct {
	Text S
	N    []Norm `json:",omitempty"` // before pre-tokenization
	Pre  []Pre
	Late []Norm  `json:",omitempty"` // on each piece, after it
	WP   *WPCase `json:",omitempty"`
	B    *BPE    `json:",omitempty"`
	Word int
	Type int
}

// stages runs the reference up to the model.
func (c Pipe) stages() []*ref.NS {
	m := ref.FromString(string(c.Text))
	for _, n := range c.N {
		n.run(m)
	}
	ms := []*ref.NS{m}
	for _, p := range c.Pre {
		ms = p.refAll(ms)
	}
	for _, n := range c.Late {
		for _, m := range ms {
			n.run(m)
		}
	}
	return ms
}

func drawPipe(t *rapid.T) Pipe {
	s := gen.Text(t)
	c := Pipe{Text: S(s), Word: rapid.IntRange(-2, 1).Draw(t, "word"), Type: rapid.IntRange(0, 2).Draw(t, "type")}
	if rapid.IntRange(0, 3).Draw(t, "normed") > 0 {
		c.N = append(c.N, drawNorm(t, 1, false))
	}
	for range rapid.IntRange(0, 2).Draw(t, "npre") {
		c.Pre = append(c.Pre, drawPre(t, s, []string{"split", "word", "delim", "bert", "byte", "meta"}))
	}
	if rapid.IntRange(0, 5).Draw(t, "late") == 0 {
		c.Late = append(c.Late, drawNorm(t, 1, false))
	}
	var pieces []string
	for _, m := range c.stages() {
		if x := m.Text(); x != "" {
			pieces = append(pieces, x)
		}
	}
	wordpiece := rapid.Bool().Draw(t, "wordpiece")
	v := Vocab{}
	unk := "[UNK]"
	v.add(unk)
	prefix := rapid.SampledFrom([]string{"##", "##", "", "@"}).Draw(t, "prefix")
	suffix := ""
	var ms []M
	keep := rapid.IntRange(0, 9).Draw(t, "keep")
	if !wordpiece {
		prefix = rapid.SampledFrom([]string{"", "", "", "##"}).Draw(t, "bprefix")
		suffix = rapid.SampledFrom([]string{"", "", "", "</w>"}).Draw(t, "suffix")
	}
	for _, p := range pieces {
		for _, r := range p {
			if v.size() < 60 && rapid.IntRange(0, 9).Draw(t, "letter") <= keep {
				v.add(string(r))
				v.add(prefix + string(r))
				v.add(string(r) + suffix)
				v.add(prefix + string(r) + suffix)
			}
		}
	}
	for range rapid.IntRange(0, 8).Draw(t, "nterms") {
		if len(pieces) == 0 {
			break
		}
		rs := []rune(pieces[rapid.IntRange(0, len(pieces)-1).Draw(t, "piece")])
		i := rapid.IntRange(0, len(rs)-1).Draw(t, "from")
		j := min(len(rs), i+rapid.IntRange(1, 4).Draw(t, "n"))
		if wordpiece {
			x := string(rs[i:j])
			if i > 0 {
				x = prefix + x
			}
			v.add(x)
			continue
		}
		k := min(len(rs), j+rapid.IntRange(1, 3).Draw(t, "n2"))
		l, r := string(rs[i:j]), string(rs[j:k])
		if i > 0 && prefix != "" {
			l = prefix + l
		}
		r = prefix + r
		if k == len(rs) {
			r += suffix
		}
		v.add(l)
		v.add(r)
		v.add(l + r[len(prefix):])
		ms = append(ms, M{S(l), S(r), rapid.IntRange(0, 9).Draw(t, "rank")})
	}
	v.drawIDs(t)
	if wordpiece {
		c.WP = &WPCase{V: v, Unk: S(unk), Prefix: S(prefix), Limit: rapid.SampledFrom([]int{100, 100, 5}).Draw(t, "limit")}
	} else {
		c.B = &BPE{V: v, M: ms, Unk: S(unk), Prefix: S(prefix), Suffix: S(suffix), Strip: len(prefix), Fuse: rapid.Bool().Draw(t, "fuse"), Cache: 10000}
	}
	return c
}

func (v Vocab) size() int { return len(v.Terms) }

func (c Pipe) model() models.Model {
	if c.WP != nil {
		return wordpiecemodel.New(c.WP.V.lib(), string(c.WP.Unk), string(c.WP.Prefix), c.WP.Limit)
	}
	return c.B.lib(0)
}

// encode runs the library.
func (c Pipe) encode() (*encodings.Encoding, error) {
	l := normalizedstring.FromString(string(c.Text))
	for _, n := range c.N {
		if err := n.lib(&[]error{}).Normalize(l); err != nil {
			return nil, fmt.Errorf("normalizer: %w", err)
		}
	}
	pts := pretokenizedstring.FromNormalizedString(l)
	for _, p := range c.Pre {
		if err := p.lib().PreTokenize(pts); err != nil {
			return nil, fmt.Errorf("pre-tokenizer: %w", err)
		}
	}
	for _, n := range c.Late {
		x := n.lib(&[]error{})
		if err := pts.Normalize(x.Normalize); err != nil {
			return nil, fmt.Errorf("late normalizer: %w", err)
		}
	}
	m := c.model()
	err := pts.Tokenize(func(ns *NSt) ([]models.Token, error) { return m.Tokenize(ns.Get()) })
	if err != nil {
		return nil, fmt.Errorf("model: %w", err)
	}
	return pts.IntoEncoding(c.Word, c.Type)
}

func checkPipe(ctx *Ctx, c Pipe) error {
	ms := c.stages()
	want := &encodings.Encoding{}
	for i, m := range ms {
		var ts []ref.Tok
		var err error
		if c.WP != nil {
			ts, err = ref.WordPiece(c.WP.V.ref(), string(c.WP.Unk), string(c.WP.Prefix), c.WP.Limit, m.Text())
		} else {
			ts, _, _, err = c.B.conf().Tokenize(m.Text())
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
		w := c.Word
		if w < 0 {
			w = i
		}
		for _, t := range ts {
			a, b := m.NormToOrig(t.S, t.E)
			want.IDs = append(want.IDs, t.ID)
			want.Tokens = append(want.Tokens, t.Val)
			want.Offsets = append(want.Offsets, strutils.ByteOffsets{Start: a + m.Shift, End: b + m.Shift})
			want.Words = append(want.Words, w)
			want.TypeIDs = append(want.TypeIDs, c.Type)
			want.SpecialTokensMask = append(want.SpecialTokensMask, 0)
			want.AttentionMask = append(want.AttentionMask, 1)
		}
	}
	enc, err := c.encode()
	if err != nil {
		return fmt.Errorf("unexpected error %v", err)
	}
	if err := cmpEncoding(enc, want); err != nil {
		return fmt.Errorf("%s: %w", js(c), err)
	}
	ctx.NonTrivialIf(len(ms) > 1 && len(want.IDs) > len(ms))
	ctx.LabelIf(c.WP != nil, "wordpiece")
	ctx.LabelIf(c.B != nil, "bpe")
	for _, p := range c.Pre {
		ctx.Label("pre " + p.K)
	}
	// stated without the model
	s := string(c.Text)
	ls, le := 0, 0
	for i, o := range enc.Offsets {
		if o.Start < ls || o.End < le || o.Start > o.End || o.End > len(s) {
			return fmt.Errorf("%s: offsets %v run backwards or out of the text", js(c), enc.Offsets)
		}
		ls, le = o.Start, o.End
		src, ok := c.again(s[o.Start:o.End])
		if !ok || enc.Tokens[i] == "[UNK]" {
			continue
		}
		tok := enc.Tokens[i]
		if c.WP != nil {
			if p := string(c.WP.Prefix); strings.HasPrefix(tok, p) && src != tok {
				tok = tok[len(p):]
			}
		} else if c.B.Prefix != "" || c.B.Suffix != "" {
			continue
		}
		ctx.Label("token compared with its original text, normalized again")
		if src != tok {
			return fmt.Errorf("%s: token %d %+q has offsets %v, where the text normalized again is %+q", js(c), i, tok, o, src)
		}
	}
	return nil
}

// again normalizes a piece of the original on its own; ok is false when the
// pipeline is not character-wise.
func (c Pipe) again(src string) (string, bool) {
	chinese := false
	var charwise func(n Norm) bool
	charwise = func(n Norm) bool {
		switch n.K {
		case "lower":
			return true
		case "bert":
			chinese = chinese || n.Def || n.Bert&2 != 0
			return true
		case "seq":
			for _, x := range n.Seq {
				if !charwise(x) {
					return false
				}
			}
			return true
		}
		return false
	}
	spaces := false
	for _, p := range c.Pre {
		switch p.K {
		case "byte", "meta":
			return "", false
		case "word":
			if !p.Def {
				return "", false
			}
			spaces = true
		case "split", "bert":
			spaces = true
		}
	}
	m := ref.FromString(src)
	for _, n := range append(append([]Norm(nil), c.N...), c.Late...) {
		if !charwise(n) {
			return "", false
		}
		n.run(m)
	}
	if chinese {
		if !spaces || len(c.Late) > 0 {
			return "", false
		}
		return strings.TrimSpace(m.Text()), true
	}
	return m.Text(), true
}

// ---- C25 ----

// illFormed tells the start of every character; an ill-formed byte is one.
func charStarts(s string) []bool {
	b := make([]bool, len(s)+1)
	p := 0
	for _, c := range ref.Chars(s) {
		b[p] = true
		p += len(c)
	}
	b[len(s)] = true
	return b
}

// wellFormed replaces each ill-formed byte by U+FFFD.
func wellFormed(s string) string { return string([]rune(s)) }

// cellRunes is the text of the model, each ill-formed byte as U+FFFD.
func cellRunes(m *ref.NS) string {
	var b strings.Builder
	for _, c := range m.Cells {
		b.WriteRune(c.Rune())
	}
	return b.String()
}

func checkBadPattern(ctx *Ctx, c PatCase) error {
	sp := c.P.Lib()
	for _, x := range c.Texts {
		s := string(x)
		if c.P.Kind == "regexp2" {
			c.P.Finder()(s) // out of scope when regexp2 itself panics
		}
		ctx.NonTrivialIf(!utf8.ValidString(s))
		ctx.Label(c.P.Kind)
		starts := charStarts(s)
		caps, err := sp.FindMatches(s)
		if err != nil {
			ctx.Label("error")
			continue
		}
		p := 0
		for _, k := range refCaps(caps) {
			if k.S != p || k.E < k.S || k.E > len(s) {
				return fmt.Errorf("%s %+q on %+q: captures are not contiguous: %v", c.P.Kind, string(c.P.S)+string(c.P.R), s, caps)
			}
			if !starts[k.S] || !starts[k.E] {
				return fmt.Errorf("%s %+q on %+q: captures cut a character: %v", c.P.Kind, string(c.P.S)+string(c.P.R), s, caps)
			}
			single := (c.P.Kind == "rune" || c.P.Kind == "func") && k.M == (c.P.Invert%2 == 0) && len(s) > 0
			if single && utf8.RuneCountInString(s[k.S:k.E]) != 1 {
				return fmt.Errorf("%s %+q on %+q: a match is not one character: %v", c.P.Kind, string(c.P.S)+string(c.P.R), s, caps)
			}
			p = k.E
		}
		if p != len(s) {
			return fmt.Errorf("%s %+q on %+q: captures do not cover it: %v", c.P.Kind, string(c.P.S)+string(c.P.R), s, caps)
		}
		// splitting by it
		for b := range 5 {
			l := normalizedstring.FromString(s)
			ls, err := l.Split(sp, normalizedstring.SplitDelimiterBehavior(b))
			if err != nil {
				ctx.Label("split error")
				continue
			}
			whole, want := "", s
			for _, x := range ls {
				if err := weak(x, ""); err != nil {
					return fmt.Errorf("%s %+q on %+q, behaviour %d: %w", c.P.Kind, string(c.P.S)+string(c.P.R), s, b, err)
				}
				o := x.OriginalOffsets()
				if o.Start < 0 || o.Start > o.End || o.End > len(s) || (!x.IsEmpty() && s[o.Start:o.End] != x.GetOriginal()) {
					return fmt.Errorf("%s %+q on %+q, behaviour %d: piece %+q has offsets %v", c.P.Kind, string(c.P.S)+string(c.P.R), s, b, x.Get(), o)
				}
				whole += x.Get()
			}
			if b == 0 {
				want = ""
				for _, k := range caps {
					if !k.IsMatch {
						want += s[k.Offsets.Start:k.Offsets.End]
					}
				}
			}
			if whole != want {
				return fmt.Errorf("%s %+q on %+q, behaviour %d: pieces %+q", c.P.Kind, string(c.P.S)+string(c.P.R), s, b, texts(ls))
			}
		}
	}
	return nil
}

// weak checks what holds whatever the bytes; orig is the expected original
// ("" for any).
func weak(l *NSt, orig string) error {
	if orig != "" && l.GetOriginal() != orig {
		return fmt.Errorf("original is now %+q, was %+q", l.GetOriginal(), orig)
	}
	if l.Len() != len(l.Get()) || l.OriginalLen() != len(l.GetOriginal()) || l.IsEmpty() != (l.Get() == "") {
		return fmt.Errorf("lengths %d, %d of %+q, %+q", l.Len(), l.OriginalLen(), l.Get(), l.GetOriginal())
	}
	al, err := byteAligns(l)
	if err != nil {
		return err
	}
	last := ref.Align{}
	for i, a := range al {
		if a.S < last.S || a.E < last.E || a.S > a.E || a.E > l.OriginalLen() {
			return fmt.Errorf("byte %d of %+q is aligned to %v after %v (original %+q)", i, l.Get(), a, last, l.GetOriginal())
		}
		last = a
	}
	if n := len(l.OriginalAlignments()); n != l.OriginalLen() {
		return fmt.Errorf("%d original alignments for %+q", n, l.GetOriginal())
	}
	return nil
}

func checkBadEdit(ctx *Ctx, h Hist) error {
	s := string(h.Text)
	ctx.NonTrivialIf(!utf8.ValidString(s))
	l, m := normalizedstring.FromString(s), ref.FromString(s)
	if err := cmpAll(l, m); err != nil {
		return err
	}
	starts := charStarts(s)
	for i := -1; i <= len(s)+1; i++ {
		want := i >= 0 && i <= len(s) && starts[i]
		if got := strutils.IsRuneBoundary(s, i); got != want {
			return fmt.Errorf("IsRuneBoundary(%+q, %d) = %v", s, i, got)
		}
	}
	// any range: retrieval and slicing succeed or refuse
	for a := -1; a <= min(l.Len(), 12)+1; a++ {
		for b := a - 1; b <= min(l.Len(), 12)+1; b++ {
			for _, r := range []normalizedstring.Range{normalizedstring.NewNormalizedRange(a, b), normalizedstring.NewOriginalRange(a, b)} {
				if x, ok := l.Slice(r); ok {
					if err := weak(x, ""); err != nil {
						return fmt.Errorf("slice %#v of %+q: %w", r, s, err)
					}
				}
				l.GetRange(r)
				l.GetOriginalRange(r)
			}
		}
	}
	for i, o := range h.Ops {
		if l.Get() != m.Text() || string([]rune(l.Get())) != cellRunes(m) {
			// also when ill-formed neighbours merged in one character
			ctx.Label("texts differ in the form of ill-formed bytes")
			break
		}
		if o.K == "replace" && strings.ContainsRune(string(o.P.S)+string(o.P.R), utf8.RuneError) {
			continue
		}
		before := m.Orig
		var err error
		var kind string
		l, m, kind, err = gen.Apply(o, l, m)
		if err != nil {
			return fmt.Errorf("op %d (%s): %w", i, o.K, err)
		}
		if kind == "slice" {
			before = ""
		}
		if err := weak(l, before); err != nil {
			return fmt.Errorf("after op %d (%s): %w", i, o.K, err)
		}
		if l.Get() == m.Text() {
			if err := cmpAll(l, m); err != nil {
				return fmt.Errorf("after op %d (%s): %w", i, o.K, err)
			}
		} else if string([]rune(l.Get())) != cellRunes(m) && wellFormed(l.Get()) != wellFormed(m.Text()) {
			return fmt.Errorf("after op %d (%s): text %+q, want %+q", i, o.K, l.Get(), m.Text())
		}
	}
	return nil
}

// badOffsets checks the views of a pre-tokenized string.
func badOffsets(pts *pretokenizedstring.PreTokenizedString, s string) error {
	for _, x := range pts.GetOriginalByteSplits() {
		if o := x.Offsets; o.Start < 0 || o.Start > o.End || o.End > len(s) {
			return fmt.Errorf("split %+q has offsets %v in a text of %d bytes", x.String, o, len(s))
		}
	}
	p := 0
	for _, x := range pts.GetNormalizedByteSplits() {
		if x.Offsets.Start != p || x.Offsets.End != p+len(x.String) {
			return fmt.Errorf("split %+q has normalized offsets %v, want %d", x.String, x.Offsets, p)
		}
		p = x.Offsets.End
	}
	for _, x := range pts.Splits() {
		if err := weak(x.NormalizedString, ""); err != nil {
			return err
		}
	}
	return nil
}

func checkBadPipe(ctx *Ctx, c Pipe) error {
	s := string(c.Text)
	ctx.NonTrivialIf(!utf8.ValidString(s))
	// pre-tokenizers, alone
	for _, p := range c.Pre {
		pts := pretokenizedstring.FromString(s)
		if err := p.lib().PreTokenize(pts); err != nil {
			if p.K == "byte" && !p.Prefix {
				return fmt.Errorf("%+v on %+q: error %v", p, s, err)
			}
			ctx.Label("pre-tokenizer error")
			continue
		}
		if err := badOffsets(pts, s); err != nil {
			return fmt.Errorf("%+v on %+q: %w", p, s, err)
		}
		if p.K == "byte" && !p.Prefix {
			var dec []byte
			for _, x := range pts.Splits() {
				for _, r := range x.NormalizedString.Get() {
					b, ok := ref.Unalphabet[r]
					if !ok {
						return fmt.Errorf("%+v on %+q: %+q is not in the byte alphabet", p, s, r)
					}
					dec = append(dec, b)
				}
			}
			ctx.Label("byte-level, no prefix")
			if string(dec) != s {
				return fmt.Errorf("%+v on %+q: decodes to %+q", p, s, dec)
			}
		}
	}
	// model, alone
	m := c.model()
	for _, w := range []string{s, s[:len(s)/2], s[len(s)/2:]} {
		ts, err := m.Tokenize(w)
		if err != nil {
			ctx.Label("model error")
			continue
		}
		p := 0
		for _, t := range ts {
			o := t.Offsets
			if o.Start != p || o.Start > o.End || o.End > len(w) {
				return fmt.Errorf("%s: tokens of %+q do not tile it: %+v", js(c), w, ts)
			}
			p = o.End
		}
		if p != len(w) {
			return fmt.Errorf("%s: tokens of %+q do not tile it: %+v", js(c), w, ts)
		}
	}
	// all together
	enc, err := c.encode()
	if err != nil {
		ctx.Label("encoding error")
	} else {
		for _, o := range enc.Offsets {
			if o.Start < 0 || o.Start > o.End || o.End > len(s) {
				return fmt.Errorf("%s: offsets %v in a text of %d bytes", js(c), o, len(s))
			}
		}
	}
	// offset conversion
	n := utf8.RuneCountInString(s)
	if len(s) > 60 {
		return nil
	}
	conv := strutils.NewBytesToRuneOffsetConverter(s)
	at := make([]int, len(s)+1)
	p := 0
	for i, ch := range ref.Chars(s) {
		for range len(ch) {
			at[p] = i
			p++
		}
	}
	at[len(s)] = n
	for a := 0; a <= len(s); a++ {
		for b := a; b <= len(s); b++ {
			got := conv.Convert(strutils.ByteOffsets{Start: a, End: b})
			if got.Start != at[a] || got.End != at[b] {
				return fmt.Errorf("bytes [%d %d] of %+q convert to %v, want [%d %d]", a, b, s, got, at[a], at[b])
			}
		}
	}
	return nil
}

func drawBadPipe(t *rapid.T) Pipe {
	s := gen.Bytes(t)
	c := Pipe{Text: S(s), Word: -1}
	for range rapid.IntRange(0, 2).Draw(t, "nnorm") {
		c.N = append(c.N, drawNorm(t, 1, false))
	}
	for range rapid.IntRange(1, 2).Draw(t, "npre") {
		p := drawPre(t, s, []string{"split", "word", "delim", "bert", "byte", "byte", "meta"})
		if p.K == "byte" || p.K == "word" {
			p.Def, p.Re = true, ""
		}
		c.Pre = append(c.Pre, p)
	}
	v := Vocab{}
	v.add("[UNK]")
	chars := ref.Chars(s)
	for _, ch := range chars {
		switch rapid.IntRange(0, 5).Draw(t, "term") {
		case 0:
			v.add(ch)
		case 1:
			v.add(wellFormed(ch))
		case 2:
			v.add("##" + ch)
		}
	}
	var ms []M
	for range rapid.IntRange(0, 5).Draw(t, "nm") {
		if len(chars) < 2 {
			break
		}
		i := rapid.IntRange(0, len(chars)-2).Draw(t, "at")
		l, r := wellFormed(chars[i]), wellFormed(chars[i+1])
		v.add(l)
		v.add(r)
		v.add(l + r)
		v.add(chars[i] + chars[i+1])
		ms = append(ms, M{S(l), S(r), i})
	}
	if rapid.Bool().Draw(t, "wordpiece") {
		c.WP = &WPCase{V: v, Unk: "[UNK]", Prefix: "##", Limit: 100}
	} else {
		c.B = &BPE{V: v, M: ms, Unk: "[UNK]", Fuse: rapid.Bool().Draw(t, "fuse"), Cache: 10000}
	}
	return c
}

func init() {
	engine.Register("C24",
		engine.Enum(engine.F("pipeline", "several pieces, and more tokens than pieces", 150000, 2500000, drawPipe, checkPipe), enumHugePipe),
		lengths(4, 240, checkPipe, pipesOf),
	)
	bad := "the text is ill-formed"
	engine.Register("C25",
		engine.F("patterns", bad, 80000, 2500000, func(t *rapid.T) PatCase {
			s := gen.Bytes(t)
			p := gen.Pattern(t, strings.ToValidUTF8(s, ""))
			return PatCase{P: p, Texts: []S{S(s)}}
		}, checkBadPattern),
		engine.Enum(engine.F("editing", bad, 80000, 2500000, func(t *rapid.T) Hist {
			s := gen.Bytes(t)
			h := Hist{Text: S(s)}
			for range rapid.IntRange(0, 5).Draw(t, "nops") {
				o := gen.DrawOp(t, strings.ToValidUTF8(s, ""), gen.HistKinds)
				if (o.K == "prepend" || o.K == "append" || o.K == "replace") && rapid.IntRange(0, 3).Draw(t, "badcontent") == 0 {
					o.S = S(gen.Bytes(t))
				}
				h.Ops = append(h.Ops, o)
			}
			return h
		}, checkBadEdit), func(tier string, yield func(Hist) bool) {
			n := 3
			if tier == "thorough" {
				n = 5
			}
			for _, s := range smallTexts([]string{"a", "\xe2", "\x96", "\xff", "é"}, n) {
				if !yield(Hist{Text: S(s)}) {
					return
				}
			}
		}),
		engine.F("pipeline", bad, 60000, 2000000, drawBadPipe, checkBadPipe),
		lengths(4, 240, checkBadPattern, func(n int) (out []PatCase) {
			for _, t := range badTextsOf(n) {
				for _, p := range lenPats() {
					out = append(out, PatCase{P: p, Texts: []S{t}})
				}
			}
			return out
		}),
	)
}
