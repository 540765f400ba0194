package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
	"pgregory.net/rapid"

	"verif/harness/engine"
	"verif/harness/gen"
	"verif/harness/ref"
)

// Comp is a component in data form; exactly one field is set.
type Comp struct {
	Pat *gen.Pat `json:",omitempty"`
	N   *Norm    `json:",omitempty"`
	Pre *Pre     `json:",omitempty"`
	WP  *WPCase  `json:",omitempty"`
	B   *BPE     `json:",omitempty"`
}

func (c Comp) kind() string {
	switch {
	case c.Pat != nil:
		return "pattern " + c.Pat.Kind
	case c.N != nil:
		return "normalizer " + c.N.K
	case c.Pre != nil:
		return "pre-tokenizer " + c.Pre.K
	case c.WP != nil:
		return "wordpiece"
	}
	return "bpe"
}

// object is a built component.
type object struct {
	c      Comp
	sp     splitpattern.SplitPattern
	n      normalizers.Normalizer
	pre    pretokenizers.PreTokenizer
	m      models.Model
	vocab  *vocabulary.Vocabulary
	merges *bpemodel.MergeMap
	terms  map[string]int
	table  map[[2]int]ref.Merge
}

func (c Comp) build() *object { return c.buildWith(parts{}) }

// parts are the vocabularies and merges that models have in common.
type parts map[string]any

func part[T any](p parts, key string, make func() T) T {
	if x, ok := p[key]; ok {
		return x.(T)
	}
	x := make()
	p[key] = x
	return x
}

func (c Comp) buildWith(shared parts) *object {
	o := &object{c: c}
	switch {
	case c.Pat != nil:
		o.sp = c.Pat.Lib()
	case c.N != nil:
		o.n = c.N.lib(&[]error{})
	case c.Pre != nil:
		o.pre = c.Pre.lib()
	case c.WP != nil:
		o.vocab, o.terms = part(shared, js(c.WP.V), c.WP.V.lib), c.WP.V.ref()
		o.m = wordpiecemodel.New(o.vocab, string(c.WP.Unk), string(c.WP.Prefix), c.WP.Limit)
	case c.B != nil:
		o.vocab, o.terms = part(shared, js(c.B.V), c.B.V.lib), c.B.V.ref()
		o.table = ref.MergeTable(c.B.table())
		o.merges = part(shared, js(c.B.V)+js(c.B.M)+fmt.Sprint(c.B.Strip), func() *bpemodel.MergeMap { return mergeMap(c.B.table()) })
		o.m = bpemodel.New(o.vocab, o.merges, c.B.Cache, 0, string(c.B.Unk), string(c.B.Prefix), string(c.B.Suffix), c.B.Fuse)
	}
	return o
}

// run gives the result in text form, and spoils what the component returned.
func (o *object) run(s string) string {
	var b strings.Builder
	switch {
	case o.sp != nil:
		caps, err := o.sp.FindMatches(s)
		fmt.Fprint(&b, refCaps(caps), err)
		for i := range caps {
			caps[i] = splitpattern.Capture{Offsets: strutils.ByteOffsets{Start: -1, End: 99}, IsMatch: !caps[i].IsMatch}
		}
	case o.n != nil:
		l := normalizedstring.FromString(s)
		err := o.n.Normalize(l)
		al, _ := byteAligns(l)
		fmt.Fprintf(&b, "%+q %v %v", l.Get(), al, err)
		b.WriteString(encodeAndSpoil(pretokenizedstring.FromNormalizedString(l)))
		l.Prepend("spoil")
		oa := l.OriginalAlignments()
		for i := range oa {
			oa[i] = normalizedstring.AlignmentRange{}
		}
	case o.pre != nil:
		pts := pretokenizedstring.FromString(s)
		err := o.pre.PreTokenize(pts)
		for _, p := range pts.GetOriginalByteSplits() {
			fmt.Fprintf(&b, "%+q %v;", p.String, p.Offsets)
		}
		fmt.Fprint(&b, err)
		b.WriteString(encodeAndSpoil(pts))
		for _, p := range pts.Splits() {
			p.NormalizedString.Append("spoil")
		}
		for _, p := range pts.GetOriginalByteSplits() {
			if p.Tokens != nil && len(*p.Tokens) > 0 {
				(*p.Tokens)[0] = models.Token{ID: -3, Value: "spoilt"}
			}
		}
	default:
		ts, err := o.m.Tokenize(s)
		if errors.Is(err, bpemodel.ErrUnknownTokenOutOfVocabulary) || errors.Is(err, wordpiecemodel.ErrUnknownTokenOutOfVocabulary) {
			return ref.ErrUnk.Error()
		}
		fmt.Fprint(&b, toks(ts), err)
		for i := range ts {
			ts[i].ID = 1<<40 + i
			ts[i].Value = "spoilt"
			ts[i].Offsets = strutils.ByteOffsets{Start: -7, End: -9}
		}
		if cap(ts) > len(ts) {
			ts = append(ts, models.Token{ID: -5, Value: "spoilt"})
		}
	}
	return b.String()
}

// encodeAndSpoil encodes each split as a token, giving the encoding in text
// form, and overwrites the encoding.
func encodeAndSpoil(pts *pretokenizedstring.PreTokenizedString) string {
	err := pts.Tokenize(func(l *NSt) ([]models.Token, error) {
		if l.IsEmpty() {
			return nil, nil
		}
		return []models.Token{{ID: l.Len(), Value: l.Get(), Offsets: strutils.ByteOffsets{End: l.Len()}}}, nil
	})
	if err != nil {
		return " fails to tokenize: " + err.Error()
	}
	e, err := pts.IntoEncoding(-1, 2)
	if err != nil {
		return " fails to encode: " + err.Error()
	}
	out := encodingText(e)
	for i := range e.IDs {
		e.IDs[i], e.TypeIDs[i], e.Tokens[i], e.Words[i] = -9, -9, "spoilt", -9
		e.Offsets[i], e.SpecialTokensMask[i], e.AttentionMask[i] = strutils.ByteOffsets{Start: -9, End: -99}, -9, -9
	}
	e.IDs, e.TypeIDs, e.Tokens, e.Words = append(e.IDs, 0), append(e.TypeIDs, 0), append(e.Tokens, "[PAD]"), append(e.Words, -1)
	e.Offsets, e.SpecialTokensMask, e.AttentionMask = append(e.Offsets, strutils.ByteOffsets{}), append(e.SpecialTokensMask, 1), append(e.AttentionMask, 0)
	e.Overflowing = append(e.Overflowing, e)
	return out
}

func encodingText(e *encodings.Encoding) string {
	list := func(x []int) []int { return append([]int{}, x...) }
	return fmt.Sprint(" encoded ", list(e.IDs), list(e.TypeIDs), fmt.Sprintf("%+q", append([]string{}, e.Tokens...)), list(e.Words),
		append([]strutils.ByteOffsets{}, e.Offsets...), list(e.SpecialTokensMask), list(e.AttentionMask), len(e.Overflowing))
}

// refEncoding is what encodeAndSpoil must give for the pieces.
func refEncoding(pieces []*ref.NS) string {
	e := &encodings.Encoding{}
	for i, p := range pieces {
		al := p.ByteAligns()
		if len(al) == 0 {
			continue
		}
		e.IDs, e.TypeIDs, e.Tokens, e.Words = append(e.IDs, len(al)), append(e.TypeIDs, 2), append(e.Tokens, p.Text()), append(e.Words, i)
		e.Offsets = append(e.Offsets, strutils.ByteOffsets{Start: p.Shift + al[0].S, End: p.Shift + al[len(al)-1].E})
		e.SpecialTokensMask, e.AttentionMask = append(e.SpecialTokensMask, 0), append(e.AttentionMask, 1)
	}
	return encodingText(e)
}

// want is the same from the reference model.
func (c Comp) want(s string) string {
	var b strings.Builder
	switch {
	case c.Pat != nil:
		fmt.Fprint(&b, c.Pat.Caps(s), nil)
	case c.N != nil:
		m := ref.FromString(s)
		c.N.run(m)
		fmt.Fprintf(&b, "%+q %v %v", m.Text(), m.ByteAligns(), error(nil))
		b.WriteString(refEncoding([]*ref.NS{m}))
	case c.Pre != nil:
		pieces := c.Pre.ref(ref.FromString(s))
		for _, p := range pieces {
			fmt.Fprintf(&b, "%+q %v;", p.Text(), strutils.ByteOffsets{Start: p.Shift, End: p.Shift + len(p.Orig)})
		}
		fmt.Fprint(&b, nil)
		b.WriteString(refEncoding(pieces))
	default:
		var ts []ref.Tok
		var err error
		if c.WP != nil {
			ts, err = ref.WordPiece(c.WP.V.ref(), string(c.WP.Unk), string(c.WP.Prefix), c.WP.Limit, s)
		} else {
			ts, _, _, err = c.B.conf().Tokenize(s)
		}
		if err != nil {
			return ref.ErrUnk.Error()
		}
		if ts == nil {
			ts = []ref.Tok{}
		}
		fmt.Fprint(&b, ts, nil)
	}
	return b.String()
}

// intact checks that using the model changed neither vocabulary nor merges.
func (o *object) intact() error {
	if o.vocab == nil {
		return nil
	}
	if o.vocab.Size() != len(o.terms) {
		return fmt.Errorf("vocabulary of %d terms now has %d", len(o.terms), o.vocab.Size())
	}
	for t, id := range o.terms {
		if got, ok := o.vocab.GetID(t); !ok || got != id {
			return fmt.Errorf("vocabulary now gives %d, %v for %+q, was %d", got, ok, t, id)
		}
		if got, ok := o.vocab.GetString(id); !ok || got != t {
			return fmt.Errorf("vocabulary now gives %+q, %v for %d, was %+q", got, ok, id, t)
		}
	}
	if o.merges != nil {
		now := map[[2]int]ref.Merge{}
		for p, v := range *o.merges {
			now[[2]int{p[0], p[1]}] = ref.Merge{L: p[0], R: p[1], Rank: v.Rank, ID: v.ID}
		}
		if len(now) != len(o.table) || (len(now) > 0 && !reflect.DeepEqual(now, o.table)) {
			return fmt.Errorf("merges are now %v, were %v", now, o.table)
		}
	}
	return nil
}

// fresh asks a new process for the result of a fresh component; used only when
// a result differs from the reference, to tell a stateful component from one
// that is merely different.
func fresh(c Comp, s string) string {
	self, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	in, err := json.Marshal(&freshReq{c, S(s)})
	if err != nil {
		panic("harness: " + err.Error())
	}
	cmd := exec.Command(self, "fresh")
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.Output()
	if err != nil {
		return "fails: " + err.Error()
	}
	return string(out)
}

type freshReq struct {
	C Comp
	S S
}

func init() {
	engine.Command("fresh", func() int {
		var r freshReq
		if err := json.NewDecoder(os.Stdin).Decode(&r); err != nil {
			return 2
		}
		fmt.Print(r.C.build().run(string(r.S)))
		return 0
	})
}

var (
	agreed   int
	agreedMu sync.Mutex
)

// differs reports whether got is a violation: not what a fresh component, in a
// process of its own, answers.
func differs(ctx *Ctx, c Comp, s, got, want string) error {
	if got == want {
		return nil
	}
	agreedMu.Lock()
	n := agreed
	agreedMu.Unlock()
	if n > 300 {
		ctx.Label("differs from the reference, not asked")
		return nil
	}
	f := fresh(c, s)
	if f == got {
		agreedMu.Lock()
		agreed++
		agreedMu.Unlock()
		ctx.Label("differs from the reference, like a fresh component")
		return nil
	}
	return fmt.Errorf("%s %s on %+q: %s, a fresh one gives %s", c.kind(), js(c), s, got, f)
}

// Reuse is a list of calls on shared components.
type Reuse struct {
	C      []Comp
	Inputs []S
	Calls  [][2]int // component, input
}

func drawComp(t *rapid.T, kind int, s string) Comp {
	switch kind {
	case 0:
		p := gen.Pattern(t, s)
		return Comp{Pat: &p}
	case 1:
		n := drawNorm(t, 2, false)
		return Comp{N: &n}
	case 2:
		p := drawPre(t, s, []string{"split", "word", "delim", "bert", "byte", "meta"})
		return Comp{Pre: &p}
	case 3:
		w := drawWP(t)
		w.Words = nil
		for _, r := range s {
			if rapid.IntRange(0, 3).Draw(t, "letter") > 0 {
				w.V.IDs = nil
				w.V.add(string(r))
				w.V.add(string(w.Prefix) + string(r))
			}
		}
		return Comp{WP: &w}
	}
	b, _ := drawBPE(t, true)
	for _, r := range s {
		if rapid.IntRange(0, 3).Draw(t, "letter") > 0 {
			b.V.add(string(r))
		}
	}
	b.Unk, b.Fuse = "?", rapid.Bool().Draw(t, "fuse")
	b.V.add("?")
	rs := []rune(s)
	for range rapid.IntRange(0, 5).Draw(t, "more") {
		if len(rs) < 2 || b.Strip > 0 {
			break
		}
		i := rapid.IntRange(0, len(rs)-2).Draw(t, "at")
		j := i + rapid.IntRange(1, min(3, len(rs)-1-i)).Draw(t, "l")
		k := j + rapid.IntRange(1, min(3, len(rs)-j)).Draw(t, "r")
		l, r := string(rs[i:j]), string(rs[j:k])
		b.V.add(l)
		b.V.add(r)
		b.V.add(l + r)
		b.M = append(b.M, M{S(l), S(r), rapid.IntRange(0, 9).Draw(t, "rank")})
	}
	b.Cache = rapid.SampledFrom([]int{0, 1, 2, 3, 5, 100, 10000}).Draw(t, "capacity")
	return Comp{B: &b}
}

// drawTwin draws another model over the same vocabulary (and merges), with
// other options.
func drawTwin(t *rapid.T, x Comp) Comp {
	if x.WP != nil {
		w := *x.WP
		w.Prefix = S(rapid.SampledFrom([]string{string(w.Prefix), "", "##", "a"}).Draw(t, "prefix2"))
		w.Unk = S(rapid.SampledFrom([]string{string(w.Unk), "[UNK]", "a"}).Draw(t, "unk2"))
		w.Limit = rapid.SampledFrom([]int{w.Limit, 1, 3, 100}).Draw(t, "limit2")
		return Comp{WP: &w}
	}
	b := *x.B
	b.Prefix = S(rapid.SampledFrom([]string{string(b.Prefix), "", "##", "é"}).Draw(t, "prefix2"))
	b.Suffix = S(rapid.SampledFrom([]string{string(b.Suffix), "", "</w>", "a"}).Draw(t, "suffix2"))
	b.Fuse = rapid.Bool().Draw(t, "fuse2")
	b.Cache = rapid.SampledFrom([]int{0, 1, 2, 10000}).Draw(t, "capacity2")
	if rapid.IntRange(0, 3).Draw(t, "piecetwin") == 3 {
		return Comp{WP: &WPCase{V: b.V, Unk: "?", Prefix: b.Prefix, Limit: 100}}
	}
	return Comp{B: &b}
}

func drawReuse(t *rapid.T) Reuse {
	s := gen.Text(t)
	if rapid.IntRange(0, 2).Draw(t, "shortword") > 0 && utf8.RuneCountInString(s) > 12 {
		s = string([]rune(s)[:12])
	}
	c := Reuse{Inputs: []S{S(s)}}
	for range rapid.IntRange(1, 5).Draw(t, "ninputs") {
		base := string(c.Inputs[rapid.IntRange(0, len(c.Inputs)-1).Draw(t, "base")])
		rs := []rune(base)
		var v string
		switch rapid.IntRange(0, 9).Draw(t, "variant") {
		case 0:
			v = strings.ToUpper(base)
		case 1:
			v = strings.ToLower(base)
		case 2:
			v = base + gen.ShortText(t)
		case 3:
			v = gen.ShortText(t) + base
		case 4:
			v = string(rs[:len(rs)/2])
		case 5:
			v = string(rs[len(rs)/2:])
		case 6: // a permutation: same length, same letters
			for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
				rs[i], rs[j] = rs[j], rs[i]
			}
			v = string(rs)
		case 7:
			v = ""
		case 8:
			v = gen.FromPalette(t, []string{"a", "b", base, " "}, rapid.IntRange(0, 4).Draw(t, "mix"))
		default:
			v = gen.Text(t)
		}
		c.Inputs = append(c.Inputs, S(strings.ToValidUTF8(v, "")))
	}
	all := ""
	for _, x := range c.Inputs {
		all += string(x)
	}
	kind := rapid.IntRange(0, 6).Draw(t, "kind")
	for range rapid.IntRange(1, 3).Draw(t, "ncomp") {
		c.C = append(c.C, drawComp(t, min(kind, 4), all))
		if x := c.C[len(c.C)-1]; len(c.C) < 4 && (x.B != nil || x.WP != nil) && rapid.IntRange(0, 2).Draw(t, "twin") == 2 {
			c.C = append(c.C, drawTwin(t, x))
		}
	}
	for range rapid.IntRange(2, 20).Draw(t, "ncalls") {
		c.Calls = append(c.Calls, [2]int{rapid.IntRange(0, len(c.C)-1).Draw(t, "c"), rapid.IntRange(0, len(c.Inputs)-1).Draw(t, "i")})
	}
	return c
}

func checkReuse(ctx *Ctx, c Reuse) error {
	var objs []*object
	shared := parts{}
	for _, x := range c.C {
		objs = append(objs, x.buildWith(shared))
		ctx.Label(x.kind())
	}
	seen := map[[2]int]bool{}
	used := map[int]bool{}
	for i, call := range c.Calls {
		comp, s := c.C[call[0]], string(c.Inputs[call[1]])
		want := comp.want(s)
		ctx.NonTrivialIf(used[call[0]])
		ctx.LabelIf(seen[call], "same input again")
		seen[call], used[call[0]] = true, true
		if err := differs(ctx, comp, s, objs[call[0]].run(s), want); err != nil {
			return fmt.Errorf("call %d: %w", i, err)
		}
	}
	for _, o := range objs {
		if err := o.intact(); err != nil {
			return err
		}
	}
	return nil
}

// checkRace shares the components between goroutines. It is their first use
// (in the process too, at the first case of a kind); one goroutine has
// components of its own.
func checkRace(ctx *Ctx, c Reuse) error {
	var objs []*object
	shared := parts{}
	for _, x := range c.C {
		objs = append(objs, x.buildWith(shared))
		ctx.Label(x.kind())
	}
	const g = 4
	type res struct {
		call [2]int
		got  string
	}
	out := make([][]res, g)
	panics := make([]any, g)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := range g {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[k] = recover() }()
			objs := objs
			<-start
			if k == g-1 {
				own := parts{}
				objs = nil
				for _, x := range c.C {
					objs = append(objs, x.buildWith(own))
				}
			}
			for i := range c.Calls {
				call := c.Calls[(i+k*len(c.Calls)/g)%len(c.Calls)]
				out[k] = append(out[k], res{call, objs[call[0]].run(string(c.Inputs[call[1]]))})
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, p := range panics {
		if p != nil {
			return fmt.Errorf("panic when shared by goroutines: %v", p)
		}
	}
	ctx.NonTrivialIf(len(c.Calls) > 2)
	wants := map[[2]int]string{}
	for i, x := range c.C {
		for j, s := range c.Inputs {
			wants[[2]int{i, j}] = x.want(string(s))
		}
	}
	for k := range out {
		for _, r := range out[k] {
			if err := differs(ctx, c.C[r.call[0]], string(c.Inputs[r.call[1]]), r.got, wants[r.call]); err != nil {
				return fmt.Errorf("shared by goroutines: %w", err)
			}
		}
	}
	for _, o := range objs {
		if err := o.intact(); err != nil {
			return err
		}
	}
	return nil
}

// Long is a long run of distinct words through one model.
type Long struct {
	Kind  string
	Cache int
	N     int
	Seed  int
}

func (c Long) word(i int) string {
	x := uint64(i)*2862933555777941757 + uint64(c.Seed)
	n := 1 + int(x>>60)%9
	w := fmt.Sprintf("%d", i)
	for range n {
		x = x*6364136223846793005 + 1442695040888963407
		w += []string{"a", "b", "é", "你", "ab", "c"}[(x>>33)%6]
	}
	return w
}

func checkLong(ctx *Ctx, c Long) error {
	ctx.NonTrivial()
	comp := Comp{}
	v := Vocab{}
	for _, t := range []string{"?", "a", "b", "é", "你", "0", "1", "2", "3", "4", "5", "6", "7", "8", "ab", "aé", "你a", "abab", "12"} {
		v.add(t)
		v.add("##" + t)
	}
	switch c.Kind {
	case "bpe":
		comp.B = &BPE{V: v, Unk: "?", Cache: c.Cache, Fuse: true, M: []M{{"a", "b", 1}, {"ab", "ab", 2}, {"a", "é", 0}, {"你", "a", 3}, {"1", "2", 4}}}
	case "wordpiece":
		comp.WP = &WPCase{V: v, Unk: "?", Prefix: "##", Limit: 12}
	case "literal", "regexp", "regexp2":
		comp.Pat = &gen.Pat{Kind: c.Kind, S: "ab"}
	case "rune":
		comp.Pat = &gen.Pat{Kind: "rune", R: 'b'}
	case "func":
		comp.Pat = &gen.Pat{Kind: "func", S: "wide", Invert: 1}
	case "lower", "bert":
		comp.N = &Norm{K: c.Kind, Bert: 15}
	case "seq":
		comp.N = &Norm{K: "seq", Seq: []Norm{{K: "strip", L: true, R: true}, {K: "lower"}}}
	case "byte", "word", "meta", "split", "bertpre":
		comp.Pre = &Pre{K: strings.TrimSuffix(c.Kind, "pre"), Def: true}
	case "delim":
		comp.Pre = &Pre{K: "delim", R: 'é'}
	}
	o := comp.build()
	want := comp.want
	if comp.B != nil {
		conf := comp.B.conf()
		want = func(w string) string {
			ts, _, _, _ := conf.Tokenize(w)
			return fmt.Sprint(ts, nil)
		}
	} else if comp.WP != nil {
		terms := v.ref()
		want = func(w string) string {
			ts, _ := ref.WordPiece(terms, "?", "##", 12, w)
			return fmt.Sprint(ts, nil)
		}
	}
	one := func(i int) error {
		w := c.word(i)
		return differs(ctx, comp, w, o.run(w), want(w))
	}
	for i := range c.N {
		if err := one(i); err != nil {
			return err
		}
		if i%3 == 0 {
			if err := one(i * 7 % (i + 1)); err != nil {
				return err
			}
		}
	}
	for i := c.N - 1; i >= 0; i -= 2 {
		if err := one(i); err != nil {
			return err
		}
	}
	return o.intact()
}

func init() {
	race := engine.F("race", "several calls per goroutine", 1000, 40000, drawReuse, checkRace)
	race.Race = true
	engine.Register("C20",
		engine.F("reuse", "a component is called a second time", 80000, 2000000, drawReuse, checkReuse),
		engine.Enum(engine.F("long", "thousands of distinct words, above and below the cache capacity", 0, 0, nil, checkLong), func(tier string, yield func(Long) bool) {
			n := 12000
			if tier == "thorough" {
				n = 40000
			}
			// so many that a 32-bit key of the inputs is likely to collide
			for i, k := range []string{"bpe", "wordpiece", "literal", "regexp", "regexp2", "lower", "bert", "byte", "word", "meta"} {
				if !yield(Long{k, 1 << 20, 96000, 20 + i}) {
					return
				}
			}
			for i, k := range []string{"rune", "func", "seq", "split", "bertpre", "delim"} {
				if !yield(Long{k, 0, 30000, 40 + i}) {
					return
				}
			}
			for i, cap := range []int{10000, 1, 100, 5000, 0, 1 << 16} {
				if !yield(Long{"bpe", cap, n, i}) {
					return
				}
			}
			yield(Long{"wordpiece", 0, n, 9})
		}),
		race,
	)
}
