package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
	"pgregory.net/rapid"

	"verif/harness/engine"
	"verif/harness/gen"
	"verif/harness/ref"
)

// Vocab is a vocabulary in data form; without IDs the terms are added in
// order, with IDs they are loaded from a JSON file.
type Vocab struct {
	Terms []S
	IDs   []int `json:",omitempty"`
}

func (v *Vocab) add(t string) {
	for _, x := range v.Terms {
		if string(x) == t {
			return
		}
	}
	v.Terms = append(v.Terms, S(t))
}

func (v Vocab) ref() map[string]int {
	m := map[string]int{}
	for i, t := range v.Terms {
		if v.IDs != nil {
			m[string(t)] = v.IDs[i]
		} else {
			m[string(t)] = i
		}
	}
	return m
}

func (v Vocab) lib() *vocabulary.Vocabulary {
	if v.IDs == nil {
		l := vocabulary.NewVocabulary()
		for _, t := range v.Terms {
			l.AddTerm(string(t))
		}
		return l
	}
	b, err := json.Marshal(v.ref())
	if err != nil {
		panic("harness: " + err.Error())
	}
	var l *vocabulary.Vocabulary
	withFile(string(b), func(path string) { l, err = vocabulary.FromJSONFile(path) })
	if err != nil {
		panic(fmt.Errorf("loading the vocabulary %s: %v", b, err))
	}
	return l
}

var (
	fileMu sync.Mutex
	fileNo int
)

var fileNames = []string{"merges.txt", "vocab.json", "noext", "é-你.json", "a b.txt", "UPPER.JSON", ".hidden", "100%d.txt",
	"merges.txt.gz", strings.Repeat("long-", 40) + ".json", "aaaa", "x😀"}

// withFile runs f on a scratch file with that content. The names come round
// again, so that a file often differs from the last one of its name.
func withFile(content string, f func(path string)) {
	fileMu.Lock()
	defer fileMu.Unlock()
	fileNo = (fileNo + 1) % 3
	h := fnv.New32a()
	h.Write([]byte(content))
	name := filepath.Join(scratch(), fmt.Sprintf("verif-%d-%d-%s", os.Getpid(), fileNo, fileNames[h.Sum32()%uint32(len(fileNames))]))
	defer os.Remove(name)
	if err := os.WriteFile(name, []byte(content), 0o600); err != nil {
		panic("harness: " + err.Error())
	}
	f(name)
}

// drawIDs sometimes gives a vocabulary ids that are not its positions.
func (v *Vocab) drawIDs(t *rapid.T) {
	if rapid.IntRange(0, 7).Draw(t, "ids") != 0 || len(v.Terms) == 0 {
		return
	}
	for _, x := range v.Terms {
		if !utf8.ValidString(string(x)) {
			return
		}
	}
	mul, off := rapid.SampledFrom([]int{1, 3, -1, 1000003, 1 << 16, 1 << 32}).Draw(t, "mul"), rapid.SampledFrom([]int{0, 1, 7, -5, 1 << 33}).Draw(t, "off")
	for i := range v.Terms {
		v.IDs = append(v.IDs, i*mul+off)
	}
}

// ---- C16 ----

// WPCase tokenizes words with a WordPiece model.
type WPCase struct {
	V      Vocab
	Unk    S
	Prefix S
	Limit  int
	Def    bool `json:",omitempty"`
	Words  []S
}

func drawWP(t *rapid.T) WPCase {
	c := WPCase{Unk: "[UNK]", Prefix: "##", Limit: 100}
	pal := gen.Palette(t)
	draw := func() string {
		n := rapid.IntRange(0, 8).Draw(t, "wn")
		if rapid.IntRange(0, 15).Draw(t, "long") == 0 {
			n = rapid.IntRange(9, 110).Draw(t, "wl")
		}
		if rapid.IntRange(0, 1999).Draw(t, "verylong") == 1999 {
			w := []rune(gen.Long(t, pal))
			return string(w[:min(len(w), 400)]) // the model itself is cubic
		}
		return gen.FromPalette(t, pal, n)
	}
	for range rapid.IntRange(1, 4).Draw(t, "nw") {
		c.Words = append(c.Words, S(draw()))
	}
	if rapid.IntRange(0, 3).Draw(t, "conf") == 0 {
		c.Prefix = S(rapid.SampledFrom([]string{"", "#", "é", "a", "▁▁", "\u3000", "😀#"}).Draw(t, "prefix"))
	}
	if rapid.IntRange(0, 3).Draw(t, "lim") == 0 {
		c.Limit = rapid.IntRange(0, 8).Draw(t, "limit")
		if rapid.IntRange(0, 3).Draw(t, "nolimit") == 3 {
			c.Limit = rapid.IntRange(101, 300).Draw(t, "biglimit")
		}
		if w := string(c.Words[0]); rapid.Bool().Draw(t, "near") {
			c.Limit = max(0, utf8.RuneCountInString(w)+rapid.IntRange(-1, 1).Draw(t, "by"))
		}
	}
	if rapid.Bool().Draw(t, "letters") {
		for _, w := range c.Words {
			for _, r := range string(w) {
				c.V.add(string(r))
				c.V.add(string(c.Prefix) + string(r))
			}
		}
	}
	for range rapid.IntRange(0, 10).Draw(t, "nt") {
		w := []rune(string(c.Words[rapid.IntRange(0, len(c.Words)-1).Draw(t, "of")]))
		if len(w) == 0 {
			continue
		}
		i := 0
		if rapid.IntRange(0, 2).Draw(t, "mid") > 0 {
			i = rapid.IntRange(0, len(w)-1).Draw(t, "from")
		}
		s := string(w[i:min(len(w), i+rapid.IntRange(1, 5).Draw(t, "n"))])
		if (i > 0) != (rapid.IntRange(0, 5).Draw(t, "odd") == 0) {
			s = string(c.Prefix) + s
		}
		c.V.add(s)
	}
	switch rapid.IntRange(0, 5).Draw(t, "unk") {
	case 0: // absent from the vocabulary (perhaps)
	case 1:
		c.Unk = S(rapid.SampledFrom([]string{"", "a", "é", "##"}).Draw(t, "unkterm"))
		if rapid.Bool().Draw(t, "in") {
			c.V.add(string(c.Unk))
		}
	default:
		c.V.add(string(c.Unk))
	}
	c.V.drawIDs(t)
	return c
}

func checkWP(ctx *Ctx, c WPCase) error {
	v := c.V.ref()
	m := wordpiecemodel.New(c.V.lib(), string(c.Unk), string(c.Prefix), c.Limit)
	if c.Def {
		m, v = wordpiecemodel.NewDefault(), map[string]int{}
		c.Unk, c.Prefix, c.Limit = "[UNK]", "##", 100
	}
	for _, w := range c.Words {
		want, wantErr := ref.WordPiece(v, string(c.Unk), string(c.Prefix), c.Limit, string(w))
		got, err := m.Tokenize(string(w))
		what := lazy(func() string {
			return fmt.Sprintf("word %+q, vocabulary %+q, unknown %+q, prefix %+q, limit %d", string(w), ref.SortedTerms(v), string(c.Unk), string(c.Prefix), c.Limit)
		})
		ctx.LabelIf(wantErr != nil, "unknown token absent")
		ctx.LabelIf(utf8.RuneCountInString(string(w)) > c.Limit, "over the limit")
		if wantErr != nil {
			if !errors.Is(err, wordpiecemodel.ErrUnknownTokenOutOfVocabulary) {
				return fmt.Errorf("%s: error %v (tokens %+v), want ErrUnknownTokenOutOfVocabulary", what, err, got)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("%s: unexpected error %v", what, err)
		}
		if err := cmpToks(got, want); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		ctx.NonTrivialIf(len(want) > 1)
		ctx.LabelIf(len(want) > 1, "several pieces")
		ctx.LabelIf(len(want) > 1 && multibyte(string(w)), "several pieces, multi-byte")
		if len(want) == 1 && want[0].Val == string(c.Unk) && utf8.RuneCountInString(string(w)) <= c.Limit {
			ctx.Label("unknown")
			for i := range string(w) {
				if _, ok := v[string(w)[:i]]; ok && i > 0 {
					ctx.NonTrivial()
					ctx.Label("unknown after a matching start")
					break
				}
			}
		}
	}
	return nil
}

func enumWP(tier string, yield func(WPCase) bool) {
	alpha := []string{"a", "é"}
	n := 3
	if tier == "thorough" {
		n = 4
	}
	words := []S{}
	for _, s := range smallTexts(alpha, n+1) {
		words = append(words, S(s))
	}
	if !yield(WPCase{Def: true, Words: words}) {
		return
	}
	terms := []string{}
	for _, s := range smallTexts(alpha, 2)[1:] {
		terms = append(terms, s, "#"+s)
	}
	// every vocabulary over the short terms
	for mask := 0; mask < 1<<len(terms); mask++ {
		if tier != "thorough" && mask%3 != 0 {
			continue
		}
		v := Vocab{}
		for i, s := range terms {
			if mask>>i&1 == 1 {
				v.add(s)
			}
		}
		for _, unk := range []string{"?", "a"} {
			v2 := Vocab{Terms: append([]S(nil), v.Terms...)}
			if mask%2 == 0 {
				v2.add("?")
			}
			if !yield(WPCase{V: v2, Unk: S(unk), Prefix: "#", Limit: 3, Words: words}) {
				return
			}
		}
	}
}

// ---- BPE ----

// M is a merge of two terms.
type M struct {
	L, R S
	Rank int
}

// BPE is a model in data form.
type BPE struct {
	V      Vocab
	M      []M
	Unk    S    `json:",omitempty"`
	Prefix S    `json:",omitempty"`
	Suffix S    `json:",omitempty"`
	Fuse   bool `json:",omitempty"`
	Cache  int  `json:",omitempty"`
	Strip  int  `json:",omitempty"` // bytes cut from the right term of a merge
}

// table resolves the merges: pairs of ids, merged term looked up.
func (b BPE) table() []ref.Merge {
	v := b.V.ref()
	var out []ref.Merge
	for _, m := range b.M {
		l, ok1 := v[string(m.L)]
		r, ok2 := v[string(m.R)]
		if !ok1 || !ok2 || len(m.R) < b.Strip {
			panic("harness: bad merge")
		}
		id, ok := v[string(m.L)+string(m.R)[b.Strip:]]
		if !ok {
			panic("harness: bad merge")
		}
		out = append(out, ref.Merge{L: l, R: r, Rank: m.Rank, ID: id})
	}
	return out
}

func (b BPE) conf() *ref.BPEConf {
	return &ref.BPEConf{Vocab: b.V.ref(), Merges: ref.MergeTable(b.table()), Unk: string(b.Unk), Prefix: string(b.Prefix), Suffix: string(b.Suffix), Fuse: b.Fuse}
}

func mergeMap(ms []ref.Merge) *bpemodel.MergeMap {
	mm := bpemodel.NewMergeMap()
	for _, m := range ms {
		mm.Set(m.L, m.R, bpemodel.MergeValue{Rank: m.Rank, ID: m.ID})
	}
	return mm
}

func (b BPE) lib(dropout float64) *bpemodel.BPEModel {
	return bpemodel.New(b.V.lib(), mergeMap(b.table()), b.Cache, dropout, string(b.Unk), string(b.Prefix), string(b.Suffix), b.Fuse)
}

// BPECase tokenizes words.
type BPECase struct {
	B     BPE
	Words []S
	One   bool `json:",omitempty"` // once more with a dropout of 1
	Def   bool `json:",omitempty"` // the default model instead
}

// drawBPE draws a model whose merges mostly apply to words over the palette
// it returns.
func drawBPE(t *rapid.T, affixes bool) (BPE, []string) {
	b := BPE{Cache: rapid.SampledFrom([]int{0, 1, 10000}).Draw(t, "cache")}
	n := rapid.IntRange(1, 4).Draw(t, "npal")
	var pal []string
	for range n {
		pal = append(pal, string(gen.Rune(t)))
	}
	if affixes {
		if rapid.Bool().Draw(t, "hasprefix") {
			b.Prefix = S(rapid.SampledFrom([]string{"##", "é", "a", "Ġ"}).Draw(t, "prefix"))
			if rapid.Bool().Draw(t, "strip") {
				b.Strip = len(b.Prefix)
			}
		}
		if rapid.Bool().Draw(t, "hassuffix") {
			b.Suffix = S(rapid.SampledFrom([]string{"</w>", "a", "é"}).Draw(t, "suffix"))
		}
	}
	forms := func(c string) []string {
		f := []string{c}
		if b.Prefix != "" {
			f = append(f, string(b.Prefix)+c)
		}
		if b.Suffix != "" {
			f = append(f, c+string(b.Suffix))
			if b.Prefix != "" {
				f = append(f, string(b.Prefix)+c+string(b.Suffix))
			}
		}
		return f
	}
	for _, c := range pal {
		for _, f := range forms(c) {
			if !affixes || rapid.IntRange(0, 9).Draw(t, "known") < 8 {
				b.V.add(f)
			}
		}
	}
	if len(b.V.Terms) == 0 {
		b.V.add(pal[0])
	}
	rank := 0
	for range rapid.IntRange(0, 10).Draw(t, "nm") {
		pick := func(name string) string {
			return string(b.V.Terms[rapid.IntRange(0, len(b.V.Terms)-1).Draw(t, name)])
		}
		l, r := pick("l"), pick("r")
		if len(r) < b.Strip || (b.Strip > 0 && !strings.HasPrefix(r, string(b.Prefix)) && rapid.IntRange(0, 4).Draw(t, "keep") > 0) {
			continue
		}
		if len(l)+len(r) > 60 {
			continue
		}
		b.V.add(l + r[b.Strip:])
		switch rapid.IntRange(0, 5).Draw(t, "rank") {
		case 0: // tie with the previous one
		case 1:
			rank -= rapid.IntRange(1, 3).Draw(t, "down")
		default:
			rank++
		}
		b.M = append(b.M, M{S(l), S(r), rank})
	}
	f := drawSpread(t)
	for i := range b.M {
		b.M[i].Rank = f(b.M[i].Rank)
	}
	return b, pal
}

// drawSpread draws a strictly increasing function from small ranks to ranks
// of any size: order and ties are what matters.
func drawSpread(t *rapid.T) func(int) int {
	if rapid.IntRange(0, 3).Draw(t, "spread") > 0 {
		return func(r int) int { return r }
	}
	mul := rapid.SampledFrom([]int{1, 7, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 50}).Draw(t, "rankmul")
	off := rapid.SampledFrom([]int{0, 0, 40000, 65535, 1 << 24, 1<<31 - 1, 1 << 53, 1 << 62, -1 << 62}).Draw(t, "rankoff")
	return func(r int) int { return r*mul + off }
}

func drawBPECase(t *rapid.T) BPECase {
	b, pal := drawBPE(t, false)
	b.V.drawIDs(t)
	c := BPECase{B: b}
	for range rapid.IntRange(1, 4).Draw(t, "nw") {
		n := rapid.IntRange(0, 12).Draw(t, "n")
		if rapid.IntRange(0, 20).Draw(t, "long") == 0 {
			n = rapid.IntRange(13, 80).Draw(t, "nl")
		}
		if rapid.IntRange(0, 1999).Draw(t, "verylong") == 1999 {
			c.Words = append(c.Words, S(gen.Long(t, pal)))
			continue
		}
		c.Words = append(c.Words, S(gen.FromPalette(t, pal, n)))
	}
	return c
}

func checkBPE(ctx *Ctx, c BPECase) error {
	conf := c.B.conf()
	m := c.B.lib(0)
	if c.Def {
		conf, m = &ref.BPEConf{}, bpemodel.NewDefault()
	}
	for round := range 3 {
		if round == 2 {
			if !c.One {
				break
			}
			// no merge at all
			m = c.B.lib(1)
			conf.Merges = nil
		}
		for _, w := range c.Words {
			want, dropped, needed, wantErr := conf.Tokenize(string(w))
			got, err := m.Tokenize(string(w))
			what := lazy(func() string { return fmt.Sprintf("word %+q, model %s (call %d)", string(w), js(c.B), round+1) })
			if wantErr != nil {
				ctx.Label("unknown token absent, needed")
				if !errors.Is(err, bpemodel.ErrUnknownTokenOutOfVocabulary) {
					return fmt.Errorf("%s: error %v (tokens %+v), want ErrUnknownTokenOutOfVocabulary", what, err, got)
				}
				continue
			}
			if _, ok := conf.Vocab[conf.Unk]; err != nil && conf.Unk != "" && !ok && w != "" {
				// configured but absent, and not needed by this word: both a
				// result and the documented error are acceptable
				ctx.Label("unknown token absent, not needed")
				if !errors.Is(err, bpemodel.ErrUnknownTokenOutOfVocabulary) {
					return fmt.Errorf("%s: error %v", what, err)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("%s: unexpected error %v", what, err)
			}
			ctx.LabelIf(needed, "unknown token used")
			chars := utf8.RuneCountInString(string(w))
			if dropped {
				// where characters are left out the offsets of what follows are
				// a known finding: ids, values and lengths only
				ctx.Label("characters left out (offsets not compared)")
				for i := range want {
					want[i].S, want[i].E = 0, want[i].E-want[i].S
				}
				for i := range got {
					got[i].Offsets.Start, got[i].Offsets.End = 0, got[i].Offsets.End-got[i].Offsets.Start
				}
			} else {
				p := 0
				for _, k := range got {
					if k.Offsets.Start != p {
						return fmt.Errorf("%s: offsets do not tile the word: %+v", what, got)
					}
					p = k.Offsets.End
				}
				if p != len(w) {
					return fmt.Errorf("%s: offsets do not tile the word: %+v", what, got)
				}
			}
			if err := cmpToks(got, want); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			syms, _, _, _ := conf.Symbols(string(w))
			ctx.LabelIf(len(want) < len(syms), "merged")
			ctx.LabelIf(len(want)+2 < len(syms), "merged more than twice")
			if c.B.Unk == "" && c.B.Prefix == "" && c.B.Suffix == "" {
				ctx.NonTrivialIf(len(want)+1 < len(syms))
			} else {
				ctx.NonTrivialIf(chars > 1 && (needed || (c.B.Prefix+c.B.Suffix != "" && len(want) > 0)))
			}
		}
	}
	return nil
}

func js(x any) string {
	b, _ := json.Marshal(x)
	return string(b)
}

// enumBPE: every order of a few overlapping merges on short words.
func enumBPE(tier string, yield func(BPECase) bool) {
	n := 6
	if tier == "thorough" {
		n = 8
	}
	words := []S{}
	for _, s := range smallTexts([]string{"a", "é"}, n) {
		words = append(words, S(s))
	}
	pairs := [][2]S{{"a", "a"}, {"a", "é"}, {"é", "a"}, {"é", "é"}, {"aa", "a"}, {"a", "aa"}, {"aa", "aa"}, {"aé", "aé"}, {"a", "éa"}, {"aé", "a"}}
	pick := 3
	if tier == "thorough" {
		pick = 4
	}
	var rec func(ms []M) bool
	rec = func(ms []M) bool {
		b := BPE{M: ms}
		b.V.add("é")
		b.V.add("a")
		for _, m := range ms {
			b.V.add(string(m.L))
			b.V.add(string(m.R))
			b.V.add(string(m.L + m.R))
		}
		if !yield(BPECase{B: b, Words: words}) {
			return false
		}
		if len(ms) == pick {
			return true
		}
		for _, p := range pairs {
			dup := false
			for _, m := range ms {
				dup = dup || (m.L == p[0] && m.R == p[1])
			}
			if dup {
				continue
			}
			if !rec(append(ms[:len(ms):len(ms)], M{p[0], p[1], len(ms)})) {
				return false
			}
		}
		return true
	}
	rec(nil)
}

// WordCase merges symbols by an arbitrary table.
type WordCase struct {
	T []ref.Merge
	W []ref.Sym
	P float64 `json:",omitempty"`
}

func drawWord(t *rapid.T) WordCase {
	c := WordCase{}
	k := rapid.IntRange(1, 5).Draw(t, "nid")
	id := func(name string) int { return rapid.IntRange(0, k).Draw(t, name) }
	for range rapid.IntRange(1, 12).Draw(t, "nm") {
		c.T = append(c.T, ref.Merge{L: id("l"), R: id("r"), Rank: rapid.IntRange(-2, 6).Draw(t, "rank"), ID: id("id")})
	}
	f := drawSpread(t)
	idmul := 1
	if rapid.IntRange(0, 7).Draw(t, "spreadids") == 0 {
		idmul = rapid.SampledFrom([]int{-1, 1 << 8, 1 << 16, 1 << 32}).Draw(t, "idmul")
	}
	for i := range c.T {
		m := &c.T[i]
		m.L, m.R, m.ID, m.Rank = m.L*idmul, m.R*idmul, m.ID*idmul, f(m.Rank)
	}
	n := rapid.IntRange(0, 14).Draw(t, "n")
	if rapid.IntRange(0, 20).Draw(t, "long") == 0 {
		n = rapid.IntRange(15, 60).Draw(t, "nl")
	}
	if rapid.IntRange(0, 1999).Draw(t, "verylong") == 1999 {
		n = rapid.IntRange(61, 700).Draw(t, "nv")
	}
	for range n {
		c.W = append(c.W, ref.Sym{ID: id("w") * idmul, Len: rapid.IntRange(1, 4).Draw(t, "len")})
	}
	return c
}

// enumWord: a word longer than 65536 symbols, with overlapping merges near
// both ends.
func enumWord(tier string, yield func(WordCase) bool) {
	for _, n := range []int{70000, 1100} {
		w := make([]ref.Sym, n)
		for i := range w {
			w[i] = ref.Sym{ID: 9, Len: 1 + i%2}
		}
		for _, at := range []int{0, 5, n / 2, n - 9, n - 3} {
			w[at].ID, w[at+1].ID, w[at+2].ID = 3, 1, 2
		}
		for _, r := range [][3]int{{1, 0, 2}, {0, 1, 2}, {0, 0, 0}, {2, 1, 0}} {
			c := WordCase{W: w, T: []ref.Merge{{L: 3, R: 1, Rank: r[0], ID: 4}, {L: 1, R: 2, Rank: r[1], ID: 5}, {L: 4, R: 2, Rank: r[2], ID: 6}}}
			if !yield(c) {
				return
			}
		}
	}
}

func libWord(w []ref.Sym) *bpemodel.Word {
	x := bpemodel.NewWord()
	if len(w)%2 == 1 {
		x = bpemodel.NewWordWithCapacity(len(w) / 2)
	}
	for _, s := range w {
		x.Add(s.ID, s.Len)
	}
	return x
}

func refWord(w *bpemodel.Word) []ref.Sym {
	out := []ref.Sym{}
	for _, s := range *w {
		out = append(out, ref.Sym{ID: s.ID, Len: s.Length})
	}
	return out
}

func checkWord(ctx *Ctx, c WordCase) error {
	want := ref.MergeAll(ref.MergeTable(c.T), c.W)
	w := libWord(c.W)
	if w.Len() != len(c.W) {
		return fmt.Errorf("word of %d symbols has length %d", len(c.W), w.Len())
	}
	w.MergeAll(mergeMap(c.T), 0)
	got := refWord(w)
	ctx.NonTrivialIf(len(want)+1 < len(c.W))
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("merging %v by %v gives %v, want %v", c.W, c.T, got, want)
	}
	return nil
}

// AgainCase merges a word, adds to it and merges it again, by another table.
type AgainCase struct {
	A, B WordCase
	P    float64 // dropout of the first time
	Last float64 // dropout of a last time, by the first table
}

func drawAgain(t *rapid.T) AgainCase {
	c := AgainCase{A: drawWord(t), B: drawWord(t)}
	c.P = rapid.SampledFrom([]float64{0, 0, 0.5, 1}).Draw(t, "p")
	c.Last = rapid.SampledFrom([]float64{0, 0, 0.5}).Draw(t, "last")
	if rapid.IntRange(0, 2).Draw(t, "noadd") == 0 {
		c.B.W = nil
	}
	return c
}

func checkAgain(ctx *Ctx, c AgainCase) error {
	w := libWord(c.A.W)
	linked := func(when string) error {
		for i, s := range *w {
			prev, next := i-1, i+1
			if next == w.Len() {
				next = -1
			}
			if s.Prev != prev || s.Next != next || s.HasPrev() != (prev >= 0) || s.HasNext() != (next >= 0) {
				return fmt.Errorf("%+v: %s symbol %d of %d has Prev %d, Next %d", c, when, i, w.Len(), s.Prev, s.Next)
			}
		}
		return nil
	}
	if err := linked("at first"); err != nil {
		return err
	}
	w.MergeAll(mergeMap(c.A.T), c.P)
	if err := linked("after merging"); err != nil {
		return err
	}
	first := len(*w) < len(c.A.W)
	for _, s := range c.B.W {
		w.Add(s.ID, s.Len)
	}
	if err := linked("after adding"); err != nil {
		return err
	}
	before := refWord(w)
	w.MergeAll(mergeMap(c.B.T), 0)
	got, want := refWord(w), ref.MergeAll(ref.MergeTable(c.B.T), before)
	ctx.NonTrivialIf(first && len(want) < len(before))
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("%+v: merging %v a second time gives %v, want %v", c, before, got, want)
	}
	if err := linked("after merging again"); err != nil {
		return err
	}
	before = refWord(w)
	w.MergeAll(mergeMap(c.A.T), c.Last)
	if got, want = refWord(w), ref.MergeAll(ref.MergeTable(c.A.T), before); c.Last == 0 && fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("%+v: merging %v a third time gives %v, want %v", c, before, got, want)
	}
	return linked("in the end")
}

// ---- C19 ----

// DropCase tokenizes one word with dropout several times.
type DropCase struct {
	B    BPE
	Word S
	P    float64
}

var dropouts = []float64{0.1, 0.5, 0.9, 0.99, 1, 1e-12, 0.3}

func drawDrop(t *rapid.T) DropCase {
	aff := rapid.Bool().Draw(t, "aff")
	b, pal := drawBPE(t, aff)
	if aff {
		b.Unk = "?"
		b.Fuse = rapid.Bool().Draw(t, "fuse")
		b.V.add("?")
	}
	b.V.drawIDs(t)
	return DropCase{B: b, Word: S(gen.FromPalette(t, pal, rapid.IntRange(0, 10).Draw(t, "n"))), P: rapid.SampledFrom(dropouts).Draw(t, "p")}
}

func checkDrop(ctx *Ctx, c DropCase) error {
	conf := c.B.conf()
	syms, _, _, err := conf.Symbols(string(c.Word))
	if err != nil {
		panic("harness: " + err.Error())
	}
	full := ref.MergeAll(conf.Merges, syms)
	d := ref.Derivable(conf.Merges, syms)
	val := map[int]string{}
	for t, id := range conf.Vocab {
		val[id] = t
	}
	m := c.B.lib(c.P)
	ctx.NonTrivialIf(len(full) < len(syms) && c.P < 1 && c.P > 0.01)
	ctx.Label(fmt.Sprintf("p=%g", c.P))
	for range 6 {
		got, err := m.Tokenize(string(c.Word))
		what := lazy(func() string { return fmt.Sprintf("word %+q, dropout %g, model %s", string(c.Word), c.P, js(c.B)) })
		if err != nil {
			return fmt.Errorf("%s: unexpected error %v", what, err)
		}
		var out []ref.Sym
		p := 0
		for _, k := range got {
			if k.Offsets.Start != p || k.Offsets.End <= p {
				return fmt.Errorf("%s: offsets do not tile the word: %+v", what, got)
			}
			if v, ok := val[k.ID]; !ok || v != k.Value {
				return fmt.Errorf("%s: token %+v, the vocabulary has %+q", what, k, v)
			}
			out = append(out, ref.Sym{ID: k.ID, Len: k.Offsets.End - p})
			p = k.Offsets.End
		}
		if p != len(c.Word) {
			return fmt.Errorf("%s: offsets do not tile the word: %+v", what, got)
		}
		if err := derived(d, syms, out); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		switch c.P {
		case 1:
			if fmt.Sprint(out) != fmt.Sprint(syms) {
				return fmt.Errorf("%s: %v, want no merge: %v", what, out, syms)
			}
		case 1e-12:
			if fmt.Sprint(out) != fmt.Sprint(full) {
				return fmt.Errorf("%s: %v, want all merges: %v", what, out, full)
			}
		}
		ctx.LabelIf(len(out) > len(full), "merges skipped")
		ctx.LabelIf(len(out) < len(syms) && len(out) > len(full), "partly merged")
	}
	return nil
}

// derived checks that each output symbol comes from whole input symbols by
// allowed merges.
func derived(d [][]map[int]bool, in, out []ref.Sym) error {
	i := 0
	for _, o := range out {
		j, n := i, 0
		for j < len(in) && n < o.Len {
			n += in[j].Len
			j++
		}
		if n != o.Len || j == i {
			return fmt.Errorf("%v does not consist of whole symbols of %v", out, in)
		}
		if !d[i][j][o.ID] {
			return fmt.Errorf("symbol %v of %v is not obtainable from %v", o, out, in[i:j])
		}
		i = j
	}
	if i != len(in) {
		return fmt.Errorf("%v does not cover %v", out, in)
	}
	return nil
}

func checkWordDrop(ctx *Ctx, c WordCase) error {
	t := ref.MergeTable(c.T)
	d := ref.Derivable(t, c.W)
	full := ref.MergeAll(t, c.W)
	ctx.NonTrivialIf(len(full) < len(c.W) && c.P < 1)
	for range 6 {
		w := libWord(c.W)
		w.MergeAll(mergeMap(c.T), c.P)
		got := refWord(w)
		if err := derived(d, c.W, got); err != nil {
			return fmt.Errorf("merging %v by %v, dropout %g: %w", c.W, c.T, c.P, err)
		}
		if (c.P == 1 && len(got) != len(c.W)) || (c.P == 1e-12 && fmt.Sprint(got) != fmt.Sprint(full)) {
			return fmt.Errorf("merging %v by %v, dropout %g: %v, all merges give %v", c.W, c.T, c.P, got, full)
		}
	}
	return nil
}

// RateCase counts how often the only possible merge of a word is skipped.
type RateCase struct {
	P float64
	N int
}

func checkRate(ctx *Ctx, c RateCase) error {
	ctx.NonTrivialIf(c.P > 0 && c.P < 1)
	b := BPE{V: Vocab{Terms: []S{"a", "b", "ab", "c"}}, M: []M{{"a", "b", 0}}, Cache: 10000}
	m := b.lib(c.P)
	skipped := 0
	for i := range c.N {
		w := []string{"ab", "cab", "abcc"}[i%3]
		ts, err := m.Tokenize(w)
		if err != nil {
			return err
		}
		if len(ts) == utf8.RuneCountInString(w) {
			skipped++
		}
	}
	if err := within("the only merge skipped", skipped, c.N, c.P, c.P); err != nil {
		return err
	}
	// Independent merges (of different ranks): the exact distribution of the
	// outcome when the merges on offer are tried by rank, each skipped with
	// probability p, and those skipped are on offer again after the next merge.
	b = BPE{V: Vocab{Terms: []S{"a", "b", "c", "d", "e", "f", "ab", "cd", "ef", "abc"}},
		M: []M{{"a", "b", 0}, {"c", "d", 1}, {"e", "f", 2}}, Cache: 10000}
	m = b.lib(c.P)
	for _, w := range []string{"abcd", "cdxab", "abcdef", "cdefxxab"} {
		var on []string
		for _, k := range []string{"ab", "cd", "ef"} {
			if strings.Contains(w, k) {
				on = append(on, k)
			}
		}
		want := map[string]float64{}
		outcomes(on, nil, nil, c.P, 1, want)
		got := map[string]int{}
		for range c.N {
			ts, err := m.Tokenize(w)
			if err != nil {
				return err
			}
			var merged []string
			for _, t := range ts {
				if len(t.Value) > 1 {
					merged = append(merged, t.Value)
				}
			}
			sort.Strings(merged)
			got[fmt.Sprint(merged)]++
		}
		for k := range got {
			if _, ok := want[k]; !ok {
				return fmt.Errorf("word %q: unexpected outcome %s", w, k)
			}
		}
		for k, p := range want {
			if err := within(fmt.Sprintf("word %q: merges %s", w, k), got[k], c.N, p, c.P); err != nil {
				return err
			}
		}
	}
	return nil
}

// within compares a frequency with its probability, generously.
func within(what string, got, n int, p, dropout float64) error {
	mean := p * float64(n)
	dev := 8*math.Sqrt(float64(n)*p*(1-p)) + 8
	if math.Abs(float64(got)-mean) > dev {
		return fmt.Errorf("dropout %g: %s: %d times in %d, want %.0f +- %.0f", dropout, what, got, n, mean, dev)
	}
	return nil
}

// outcomes accumulates the probabilities of the sets of merges applied.
func outcomes(queue, skip, done []string, p, weight float64, out map[string]float64) {
	if len(queue) == 0 {
		d := append([]string(nil), done...)
		sort.Strings(d)
		out[fmt.Sprint(d)] += weight
		return
	}
	top, rest := queue[0], queue[1:]
	outcomes(rest, append(append([]string(nil), skip...), top), done, p, weight*p, out)
	back := append(append([]string(nil), rest...), skip...)
	sort.Strings(back) // alphabetical order is rank order here
	outcomes(back, nil, append(append([]string(nil), done...), top), p, weight*(1-p), out)
}

func init() {
	engine.Register("C16",
		engine.Enum(engine.F("words", "a word is cut in several pieces, or falls back to unknown after a matching start", 150000, 4000000, drawWP, checkWP), enumWP),
		sweep(128, checkWP, wpOf),
		lengths(4, 320, checkWP, wpLenOf),
	)
	engine.Register("C17",
		engine.Enum(engine.F("model", "a word undergoes at least two merges", 120000, 3000000, drawBPECase, checkBPE), enumBPE),
		engine.Enum(engine.F("table", "at least two merges apply", 120000, 3000000, drawWord, checkWord), enumWord),
		engine.F("again", "both merge calls merge something", 60000, 1500000, drawAgain, checkAgain),
		sweep(128, checkBPE, bpeOf),
		lengths(4, 320, checkBPE, bpeLenOf),
	)
	engine.Register("C18",
		engine.F("model", "a word of several characters needs the unknown token or is affixed", 150000, 4000000, func(t *rapid.T) BPECase {
			b, pal := drawBPE(t, true)
			switch rapid.IntRange(0, 5).Draw(t, "unk") {
			case 0, 1:
			default:
				b.Unk = S(rapid.SampledFrom([]string{"[UNK]", "a", "é", "?"}).Draw(t, "unkterm"))
				if rapid.IntRange(0, 4).Draw(t, "in") > 0 {
					b.V.add(string(b.Unk))
				}
			}
			b.Fuse = rapid.Bool().Draw(t, "fuse")
			// merges that involve the unknown token
			if _, ok := b.V.ref()[string(b.Unk)]; ok && b.Unk != "" && b.Strip == 0 && rapid.IntRange(0, 3).Draw(t, "unkmerge") == 0 {
				o := b.V.Terms[rapid.IntRange(0, len(b.V.Terms)-1).Draw(t, "o")]
				b.V.add(string(b.Unk + o))
				b.M = append(b.M, M{b.Unk, o, rapid.IntRange(-2, 5).Draw(t, "ur")})
			}
			b.V.drawIDs(t)
			c := BPECase{B: b, One: rapid.IntRange(0, 2).Draw(t, "one") == 2}
			if rapid.IntRange(0, 199).Draw(t, "default") == 199 {
				c = BPECase{Def: true}
			}
			pal = append(pal, string(gen.Rune(t)))
			for range rapid.IntRange(1, 4).Draw(t, "nw") {
				if rapid.IntRange(0, 1999).Draw(t, "verylong") == 1999 {
					c.Words = append(c.Words, S(gen.Long(t, pal)))
					continue
				}
				c.Words = append(c.Words, S(gen.FromPalette(t, pal, rapid.IntRange(0, 9).Draw(t, "n"))))
			}
			return c
		}, checkBPE),
		sweep(128, checkBPE, affixedOf),
		lengths(4, 320, checkBPE, affixedLenOf),
		engine.F("offsets-after-left-out", "only the listed known finding", 0, 0, nil, checkLeftOut),
	)
	engine.Register("C19",
		engine.F("derivable", "some merge applies and dropout is strictly between 0.01 and 1", 60000, 2000000, drawDrop, checkDrop),
		engine.F("table", "some merge applies and dropout is below 1", 60000, 2000000, func(t *rapid.T) WordCase {
			c := drawWord(t)
			c.P = rapid.SampledFrom(dropouts).Draw(t, "p")
			if len(c.W) > 14 {
				c.W = c.W[:14]
			}
			return c
		}, checkWordDrop),
		engine.Enum(engine.F("rate", "dropout strictly between 0 and 1", 0, 0, nil, checkRate), func(tier string, yield func(RateCase) bool) {
			n := 40000
			if tier == "thorough" {
				n = 2000000
			}
			for _, p := range []float64{0, 0.002, 0.0065, 0.01, 0.0155, 0.05, 0.1, 0.125, 0.25, 1.0 / 3, 0.5, 0.625, 0.75, 0.9, 0.99, 0.9935, 0.998, 1} {
				if !yield(RateCase{p, n}) {
					return
				}
			}
		}),
	)
}

// checkLeftOut: characters left out keep their place, so the tokens' offsets
// are those of the characters they come from.
func checkLeftOut(ctx *Ctx, c BPECase) error {
	conf := c.B.conf()
	m := c.B.lib(0)
	for _, w := range c.Words {
		got, err := m.Tokenize(string(w))
		if err != nil {
			return err
		}
		for _, k := range got {
			if k.Offsets.End > len(w) || string(w)[k.Offsets.Start:k.Offsets.End] != k.Value {
				return fmt.Errorf("token %+v of %+q, vocabulary %+q", k, string(w), ref.SortedTerms(conf.Vocab))
			}
		}
	}
	return nil
}
