// Package ref holds the reference models: slow, direct restatements of the
// documented behaviour, sharing no code with the library.
package ref

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// Cell is one character of the normalized text and the original bytes it
// stands for.
type Cell struct {
	T    string // the bytes of the character
	S, E int    // range of Orig
}

// NS models a normalized string.
type NS struct {
	Orig  string
	Cells []Cell
	Shift int
}

// Chars cuts a string in characters; an ill-formed byte is one character.
func Chars(s string) []string {
	var out []string
	for len(s) > 0 {
		_, w := utf8.DecodeRuneInString(s)
		out = append(out, s[:w])
		s = s[w:]
	}
	return out
}

// FromString wraps a text.
func FromString(s string) *NS {
	n := &NS{Orig: s}
	p := 0
	for _, c := range Chars(s) {
		n.Cells = append(n.Cells, Cell{T: c, S: p, E: p + len(c)})
		p += len(c)
	}
	return n
}

// Clone copies the model.
func (n *NS) Clone() *NS {
	return &NS{Orig: n.Orig, Shift: n.Shift, Cells: append([]Cell(nil), n.Cells...)}
}

// Text is the normalized text.
func (n *NS) Text() string {
	var b strings.Builder
	for _, c := range n.Cells {
		b.WriteString(c.T)
	}
	return b.String()
}

// Rune of a cell.
func (c Cell) Rune() rune {
	r, _ := utf8.DecodeRuneInString(c.T)
	return r
}

// Align is a per-byte alignment.
type Align struct{ S, E int }

// ByteAligns is the alignment of every normalized byte.
func (n *NS) ByteAligns() []Align {
	out := []Align{}
	for _, c := range n.Cells {
		for range len(c.T) {
			out = append(out, Align{c.S, c.E})
		}
	}
	return out
}

// Change is one entry of a transformation: N==1 inserts, 0 replaces, -k
// replaces and removes the k following characters.
type Change struct {
	R rune
	N int
}

// Transform rewrites the cells [i,j); the first k of them are removed.
func (n *NS) Transform(i, j int, changes []Change, k int) {
	p := i + k
	var repl []Cell
	for _, c := range changes {
		var a Align
		if c.N >= 1 {
			if p > 0 {
				a = Align{n.Cells[p-1].S, n.Cells[p-1].E}
			}
		} else {
			a = Align{n.Cells[p].S, n.Cells[p].E}
			p += 1 - c.N
		}
		repl = append(repl, Cell{T: string(c.R), S: a.S, E: a.E})
	}
	if p > j {
		panic("harness: transformation consumes more than its range")
	}
	out := append([]Cell{}, n.Cells[:i]...)
	out = append(out, repl...)
	out = append(out, n.Cells[j:]...)
	n.Cells = out
}

// Filter keeps the characters satisfying keep.
func (n *NS) Filter(keep func(rune) bool) {
	out := []Cell{}
	for _, c := range n.Cells {
		if keep(c.Rune()) {
			out = append(out, Cell{T: string(c.Rune()), S: c.S, E: c.E})
		}
	}
	n.Cells = out
}

// Map maps the characters.
func (n *NS) Map(f func(rune) rune) {
	for i := range n.Cells {
		n.Cells[i].T = string(f(n.Cells[i].Rune()))
	}
}

// TrimLR removes white space at the chosen ends.
func (n *NS) TrimLR(left, right bool) {
	i, j := 0, len(n.Cells)
	for left && i < j && IsSpace(n.Cells[i].Rune()) {
		i++
	}
	for right && j > i && IsSpace(n.Cells[j-1].Rune()) {
		j--
	}
	n.Cells = append([]Cell{}, n.Cells[i:j]...)
}

// IsSpace is the Unicode White_Space property.
func IsSpace(r rune) bool { return unicode.Is(unicode.White_Space, r) }

// Prepend inserts text in front.
func (n *NS) Prepend(s string) {
	if len(n.Cells) == 0 {
		return
	}
	f := n.Cells[0]
	var out []Cell
	for _, c := range Chars(s) {
		out = append(out, Cell{T: c, S: f.S, E: f.E})
	}
	n.Cells = append(out, n.Cells...)
}

// Append inserts text at the end.
func (n *NS) Append(s string) {
	if len(n.Cells) == 0 {
		return
	}
	l := n.Cells[len(n.Cells)-1]
	out := append([]Cell{}, n.Cells...)
	for _, c := range Chars(s) {
		out = append(out, Cell{T: c, S: l.S, E: l.E})
	}
	n.Cells = out
}

// cellAt is the index of the cell starting at byte b of the normalized text,
// len(Cells) for the end; ok is false inside a cell.
func (n *NS) cellAt(b int) (int, bool) {
	p := 0
	for i, c := range n.Cells {
		if p == b {
			return i, true
		}
		if p > b {
			return 0, false
		}
		p += len(c.T)
	}
	return len(n.Cells), p == b
}

// Replace substitutes content for every matched range of the current text.
func (n *NS) Replace(caps []Cap, content string) {
	var out []Cell
	for _, c := range caps {
		i, ok1 := n.cellAt(c.S)
		j, ok2 := n.cellAt(c.E)
		if !ok1 || !ok2 {
			panic("harness: capture off character boundaries")
		}
		if !c.M {
			out = append(out, n.Cells[i:j]...)
			continue
		}
		var a Align
		switch {
		case j > i:
			a = Align{n.Cells[j-1].S, n.Cells[j-1].E}
		case len(out) > 0:
			a = Align{out[len(out)-1].S, out[len(out)-1].E}
		}
		for _, x := range Chars(content) {
			out = append(out, Cell{T: x, S: a.S, E: a.E})
		}
	}
	n.Cells = out
}

// NormToOrig is the hull of the alignments of bytes [a,b), a<b.
func (n *NS) NormToOrig(a, b int) (int, int) {
	s, e, p, first := 0, 0, 0, true
	for _, c := range n.Cells {
		if p >= b {
			break
		}
		if p+len(c.T) > a {
			if first {
				s, e, first = c.S, c.E, false
			} else {
				s, e = min(s, c.S), max(e, c.E)
			}
		}
		p += len(c.T)
	}
	return s, e
}

// OrigToNorm gives the normalized bytes standing for characters lying wholly
// inside original bytes [a,b); found is false when there is none, and then
// [lo,hi] are the admissible positions of an empty answer.
func (n *NS) OrigToNorm(a, b int) (s, e int, found bool, lo, hi int) {
	p := 0
	s = -1
	hi = -1
	for _, c := range n.Cells {
		q := p + len(c.T)
		if c.E > c.S && c.S >= a && c.E <= b {
			if s < 0 {
				s = p
			}
			e = q
		}
		if c.E <= a {
			lo = q
		}
		if hi < 0 && c.E > c.S && c.S >= b {
			hi = p
		}
		p = q
	}
	if hi < 0 {
		hi = p
	}
	return s, e, s >= 0, lo, hi
}

// Slice is the window on normalized bytes [a,b), a<b, on boundaries.
func (n *NS) Slice(a, b int) *NS {
	i, ok1 := n.cellAt(a)
	j, ok2 := n.cellAt(b)
	if !ok1 || !ok2 || i >= j {
		panic("harness: bad model slice")
	}
	s, e := n.NormToOrig(a, b)
	out := &NS{Orig: n.Orig[s:e], Shift: n.Shift + s}
	for _, c := range n.Cells[i:j] {
		out.Cells = append(out.Cells, Cell{T: c.T, S: c.S - s, E: c.E - s})
	}
	return out
}

// SliceOrig is the window on original bytes [a,b) on boundaries, when some
// character survives in it.
func (n *NS) SliceOrig(a, b int) (*NS, bool) {
	out := &NS{Orig: n.Orig[a:b], Shift: n.Shift + a}
	for _, c := range n.Cells {
		if c.E > c.S && c.S >= a && c.E <= b {
			out.Cells = append(out.Cells, Cell{T: c.T, S: c.S - a, E: c.E - a})
		}
	}
	return out, len(out.Cells) > 0
}

// OrigAligns is the inverse table: one entry per original byte. S and E of the
// cells do not decrease, so the cells of a byte are neighbours.
func (n *NS) OrigAligns() []Align {
	out := make([]Align, len(n.Orig))
	from, to := 0, 0 // cells [from, to) have E > o and S <= o
	p, q := 0, 0     // the bytes before them
	for o := range out {
		for from < len(n.Cells) && n.Cells[from].E <= o {
			p += len(n.Cells[from].T)
			from++
		}
		if to < from {
			to, q = from, p
		}
		for to < len(n.Cells) && n.Cells[to].S <= o {
			q += len(n.Cells[to].T)
			to++
		}
		out[o] = Align{p, q}
	}
	return out
}

// Cap is a capture: bytes [S,E), M if it is a match.
type Cap struct {
	S, E int
	M    bool
}

// Behaviours in the order of the library's constants.
const (
	Removed = iota
	Isolated
	MergedPrev
	MergedNext
	Contiguous
)

// Pieces gives the non-empty byte ranges after applying a behaviour to a
// partition.
func Pieces(caps []Cap, behaviour int) [][2]int {
	var out [][2]int
	for _, p := range AllPieces(caps, behaviour) {
		if p[1] > p[0] {
			out = append(out, p)
		}
	}
	return out
}

// AllPieces includes the empty ranges.
func AllPieces(caps []Cap, behaviour int) [][2]int {
	// joined[i]: capture i belongs to the same piece as capture i-1
	joined := make([]bool, len(caps))
	for i := 1; i < len(caps); i++ {
		switch behaviour {
		case MergedPrev:
			joined[i] = caps[i].M && !caps[i-1].M
		case MergedNext:
			joined[i] = caps[i-1].M && !caps[i].M
		case Contiguous:
			joined[i] = caps[i].M == caps[i-1].M
		}
	}
	var out [][2]int
	for i := 0; i < len(caps); {
		j := i + 1
		for j < len(caps) && joined[j] {
			j++
		}
		s, e := caps[i].S, caps[j-1].E
		if !(behaviour == Removed && caps[i].M) {
			out = append(out, [2]int{s, e})
		}
		i = j
	}
	return out
}

// Split cuts the string.
func (n *NS) Split(caps []Cap, behaviour int) []*NS {
	var out []*NS
	for _, p := range Pieces(caps, behaviour) {
		out = append(out, n.Slice(p[0], p[1]))
	}
	return out
}

// Starts lists the byte position of every cell, then the length.
func (n *NS) Starts() []int {
	out := []int{0}
	for _, c := range n.Cells {
		out = append(out, out[len(out)-1]+len(c.T))
	}
	return out
}

// MustCell is the index of the cell starting at a byte.
func (n *NS) MustCell(b int) int {
	i, ok := n.cellAt(b)
	if !ok {
		panic("harness: not a boundary")
	}
	return i
}

// OrigRange picks a non-empty range of the original, on any bytes.
func (n *NS) OrigRange(a, b int) (int, int, bool) {
	l := len(n.Orig)
	if l == 0 {
		return 0, 0, false
	}
	if b < 0 {
		return 0, l, true
	}
	i := a % l
	return i, i + 1 + b%(l-i), true
}

// OrigBoundaryRange picks a non-empty range of the original on boundaries.
func (n *NS) OrigBoundaryRange(a, b int) (int, int, bool) {
	at := []int{}
	p := 0
	for _, c := range Chars(n.Orig) {
		at = append(at, p)
		p += len(c)
	}
	if len(at) == 0 {
		return 0, 0, false
	}
	at = append(at, p)
	l := len(at) - 1
	i := a % l
	return at[i], at[i+1+b%(l-i)], true
}
