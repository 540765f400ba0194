package ref

import (
	"errors"
	"sort"
	"unicode"
	"unicode/utf8"
)

// ---- normalizers ----

// CJK is the set of ideographs surrounded by spaces.
func CJK(r rune) bool {
	for _, b := range CJKBlocks {
		if r >= b[0] && r <= b[1] {
			return true
		}
	}
	return false
}

// CJKBlocks are the Unicode blocks named by the property.
var CJKBlocks = [][2]rune{
	{0x4E00, 0x9FFF}, {0x3400, 0x4DBF}, {0x20000, 0x2A6DF}, {0x2A700, 0x2B73F},
	{0x2B740, 0x2B81F}, {0x2B820, 0x2CEAF}, {0xF900, 0xFAFF}, {0x2F800, 0x2FA1F},
}

// IsControl is what BERT cleaning drops.
func IsControl(r rune) bool {
	switch r {
	case '\t', '\n', '\r':
		return false
	case 0, 0xFFFD:
		return true
	}
	if unicode.In(r, unicode.Cc, unicode.Cf, unicode.Co, unicode.Cs) {
		return true
	}
	return !assigned(r)
}

func assigned(r rune) bool {
	return unicode.In(r, unicode.L, unicode.M, unicode.N, unicode.P, unicode.S, unicode.Z, unicode.Cc, unicode.Cf, unicode.Co, unicode.Cs)
}

// Bert applies BERT normalization.
func Bert(n *NS, clean, chinese, strip, lower bool) {
	if clean {
		n.Filter(func(r rune) bool { return !IsControl(r) })
		n.Map(func(r rune) rune {
			if IsSpace(r) {
				return ' '
			}
			return r
		})
	}
	if chinese {
		var out []Cell
		for _, c := range n.Cells {
			r := c.Rune()
			if CJK(r) {
				out = append(out, Cell{" ", c.S, c.E}, c, Cell{" ", c.S, c.E})
			} else {
				out = append(out, Cell{string(r), c.S, c.E})
			}
		}
		n.Cells = out
	}
	if strip {
		n.Filter(func(r rune) bool { return !unicode.Is(unicode.Mn, r) })
	}
	if lower {
		n.Map(unicode.ToLower)
	}
}

// ---- pre-tokenizers: one normalized string to its pieces ----

// BertPieces drops white space and isolates punctuation.
func BertPieces(n *NS) []*NS {
	var out []*NS
	for _, p := range SpaceSplitPieces(n) {
		out = append(out, p.Split(Partition(p.Text(), FindFunc(func(r rune) bool { return unicode.Is(unicode.P, r) })(p.Text())), Isolated)...)
	}
	return out
}

// SpaceSplitPieces are the white-space-free runs.
func SpaceSplitPieces(n *NS) []*NS {
	return n.Split(Partition(n.Text(), FindFunc(IsSpace)(n.Text())), Removed)
}

// DelimiterPieces are the stretches between delimiters.
func DelimiterPieces(n *NS, d rune) []*NS {
	return n.Split(Partition(n.Text(), FindFunc(func(r rune) bool { return r == d })(n.Text())), Removed)
}

// MatchPieces are the matches of a pattern.
func MatchPieces(n *NS, f Finder) []*NS {
	return n.Split(InvertCaps(Partition(n.Text(), f(n.Text()))), Removed)
}

// Alphabet is the byte alphabet; Unalphabet its inverse.
var Alphabet [256]rune
var Unalphabet = map[rune]byte{}

func init() {
	next := rune(0x100)
	for b := 0; b < 256; b++ {
		printable := (b >= 0x21 && b <= 0x7E) || (b >= 0xA1 && b <= 0xFF && b != 0xAD)
		if printable {
			Alphabet[b] = rune(b)
		} else {
			Alphabet[b] = next
			next++
		}
		Unalphabet[Alphabet[b]] = byte(b)
	}
}

// ByteLevelPieces prefixes, cuts and re-encodes. It edits n like the library
// does (the prefix).
func ByteLevelPieces(n *NS, f Finder, prefix bool) []*NS {
	if prefix && len(n.Cells) > 0 && !IsSpace(n.Cells[0].Rune()) {
		n.Prepend(" ")
	}
	out := n.Split(Partition(n.Text(), f(n.Text())), Isolated)
	for _, p := range out {
		ByteLevelEncode(p)
	}
	return out
}

// ByteLevelEncode replaces each character by the letters of its bytes.
func ByteLevelEncode(p *NS) {
	var cells []Cell
	for _, c := range p.Cells {
		for i := 0; i < len(c.T); i++ {
			cells = append(cells, Cell{string(Alphabet[c.T[i]]), c.S, c.E})
		}
	}
	p.Cells = cells
}

// MetaspacePieces marks and cuts (editing n like the library does).
func MetaspacePieces(n *NS, mark rune, prefix bool) []*NS {
	if prefix && len(n.Cells) > 0 && n.Cells[0].Rune() != mark && !IsSpace(n.Cells[0].Rune()) {
		n.Prepend(string(mark))
	}
	for i := range n.Cells {
		if n.Cells[i].T == " " {
			n.Cells[i].T = string(mark)
		}
	}
	t := n.Text()
	return n.Split(Partition(t, FindFunc(func(r rune) bool { return r == mark })(t)), MergedNext)
}

// ---- models ----

// Tok is a token; offsets in bytes of the tokenized text.
type Tok struct {
	ID   int
	Val  string
	S, E int
}

// ErrUnk stands for the documented "unknown token out of vocabulary" error.
var ErrUnk = errors.New("unknown token out of vocabulary")

// WordPiece is greedy longest-match-first by characters.
func WordPiece(vocab map[string]int, unk, prefix string, limit int, w string) ([]Tok, error) {
	chars := Chars(w)
	unknown := func() ([]Tok, error) {
		id, ok := vocab[unk]
		if !ok {
			return nil, ErrUnk
		}
		return []Tok{{id, unk, 0, len(w)}}, nil
	}
	if len(chars) > limit {
		return unknown()
	}
	longest := 0
	for k := range vocab {
		longest = max(longest, len(k))
	}
	at := []int{0} // byte position of each character
	for _, c := range chars {
		at = append(at, at[len(at)-1]+len(c))
	}
	var out []Tok
	pos := 0
	for i := 0; i < len(chars); {
		found := false
		for j := min(len(chars), i+longest); j > i && !found; j-- {
			piece := w[at[i]:at[j]]
			key := piece
			if i > 0 {
				key = prefix + piece
			}
			if id, ok := vocab[key]; ok {
				out = append(out, Tok{id, key, pos, pos + len(piece)})
				pos += len(piece)
				i = j
				found = true
			}
		}
		if !found {
			return unknown()
		}
	}
	return out, nil
}

// Merge is an entry of a merge table.
type Merge struct{ L, R, Rank, ID int }

// Sym is a symbol of a word: id and length in bytes.
type Sym struct{ ID, Len int }

// MergeTable indexes merges (later entries win).
func MergeTable(ms []Merge) map[[2]int]Merge {
	t := map[[2]int]Merge{}
	for _, m := range ms {
		t[[2]int{m.L, m.R}] = m
	}
	return t
}

// MergeAll merges the best-ranked, leftmost pair until none is left.
func MergeAll(t map[[2]int]Merge, in []Sym) []Sym {
	w := append([]Sym(nil), in...)
	// on[i] is the merge on offer for the pair at i
	on := make([]*Merge, len(w))
	offer := func(i int) {
		if i < 0 || i >= len(w) {
			return
		}
		on[i] = nil
		if i+1 < len(w) {
			if m, ok := t[[2]int{w[i].ID, w[i+1].ID}]; ok {
				on[i] = &m
			}
		}
	}
	for i := range w {
		offer(i)
	}
	for {
		best := -1
		for i, m := range on {
			if m != nil && (best < 0 || m.Rank < on[best].Rank) {
				best = i
			}
		}
		if best < 0 {
			return w
		}
		w[best] = Sym{on[best].ID, w[best].Len + w[best+1].Len}
		w = append(w[:best+1], w[best+2:]...)
		on = append(on[:best+1], on[best+2:]...)
		offer(best - 1)
		offer(best)
	}
}

// BPEConf configures the reference BPE.
type BPEConf struct {
	Vocab  map[string]int
	Merges map[[2]int]Merge
	Unk    string
	Prefix string
	Suffix string
	Fuse   bool
}

// Symbols is the word before any merge. dropped tells whether characters were
// left out; needed whether the unknown token was needed.
func (b *BPEConf) Symbols(w string) (out []Sym, dropped, needed bool, err error) {
	chars := Chars(w)
	unkRun := false
	for i, c := range chars {
		s := c
		if r, n := utf8.DecodeRuneInString(c); r == utf8.RuneError && n == 1 {
			s = string(r)
		}
		if i > 0 {
			s = b.Prefix + s
		}
		if i == len(chars)-1 {
			s += b.Suffix
		}
		if id, ok := b.Vocab[s]; ok {
			out = append(out, Sym{id, len(c)})
			unkRun = false
			continue
		}
		if b.Unk == "" {
			dropped = true
			continue
		}
		needed = true
		id, ok := b.Vocab[b.Unk]
		if !ok {
			return nil, dropped, needed, ErrUnk
		}
		if unkRun && b.Fuse {
			out[len(out)-1].Len += len(c)
		} else {
			out = append(out, Sym{id, len(c)})
		}
		unkRun = true
	}
	return out, dropped, needed, nil
}

// Tokens turns symbols into tokens.
func (b *BPEConf) Tokens(w []Sym) []Tok {
	val := map[int]string{}
	for t, id := range b.Vocab {
		val[id] = t
	}
	var out []Tok
	p := 0
	for _, s := range w {
		out = append(out, Tok{s.ID, val[s.ID], p, p + s.Len})
		p += s.Len
	}
	return out
}

// Tokenize without dropout.
func (b *BPEConf) Tokenize(w string) (toks []Tok, dropped, needed bool, err error) {
	syms, dropped, needed, err := b.Symbols(w)
	if err != nil {
		return nil, dropped, needed, err
	}
	return b.Tokens(MergeAll(b.Merges, syms)), dropped, needed, nil
}

// Derivable[i][j] is the set of ids obtainable from symbols i..j-1.
func Derivable(t map[[2]int]Merge, w []Sym) [][]map[int]bool {
	n := len(w)
	d := make([][]map[int]bool, n+1)
	for i := range d {
		d[i] = make([]map[int]bool, n+1)
	}
	for i := 0; i < n; i++ {
		d[i][i+1] = map[int]bool{w[i].ID: true}
	}
	for l := 2; l <= n; l++ {
		for i := 0; i+l <= n; i++ {
			set := map[int]bool{}
			for k := i + 1; k < i+l; k++ {
				for a := range d[i][k] {
					for b := range d[k][i+l] {
						if m, ok := t[[2]int{a, b}]; ok {
							set[m.ID] = true
						}
					}
				}
			}
			d[i][i+l] = set
		}
	}
	return d
}

// SortedTerms lists the terms of a vocabulary.
func SortedTerms(v map[string]int) []string {
	out := []string{}
	for t := range v {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}
