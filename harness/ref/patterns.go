package ref

import (
	"regexp"
	"slices"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/dlclark/regexp2"
)

// Finder gives the successive non-overlapping matches of a pattern.
type Finder func(s string) [][2]int

// Partition is what a pattern must answer for a text: the matches flagged,
// the stretches between them unflagged; the empty text is one unflagged range.
func Partition(s string, matches [][2]int) []Cap {
	if s == "" {
		return []Cap{{0, 0, false}}
	}
	var out []Cap
	p := 0
	for _, m := range matches {
		if m[0] > p {
			out = append(out, Cap{p, m[0], false})
		}
		out = append(out, Cap{m[0], m[1], true})
		p = m[1]
	}
	if p < len(s) {
		out = append(out, Cap{p, len(s), false})
	}
	return out
}

// InvertCaps flips every flag.
func InvertCaps(c []Cap) []Cap {
	out := append([]Cap(nil), c...)
	for i := range out {
		out[i].M = !out[i].M
	}
	return out
}

// FindFunc matches each single character satisfying f.
func FindFunc(f func(rune) bool) Finder {
	return func(s string) [][2]int {
		var out [][2]int
		for p := 0; p < len(s); {
			r, w := utf8.DecodeRuneInString(s[p:])
			if f(r) {
				out = append(out, [2]int{p, p + w})
			}
			p += w
		}
		return out
	}
}

// FindLiteral matches a literal; the empty one never matches.
func FindLiteral(lit string) Finder {
	return func(s string) [][2]int {
		var out [][2]int
		if lit == "" {
			return nil
		}
		for p := 0; ; {
			i := strings.Index(s[p:], lit)
			if i < 0 {
				return out
			}
			out = append(out, [2]int{p + i, p + i + len(lit)})
			p += i + len(lit)
		}
	}
}

// FindRegexp takes the matches of the standard library.
func FindRegexp(r *regexp.Regexp) Finder {
	return func(s string) [][2]int {
		var out [][2]int
		for _, m := range r.FindAllStringIndex(s, -1) {
			out = append(out, [2]int{m[0], m[1]})
		}
		return out
	}
}

// DependencyPanic is thrown by an oracle when regexp2 itself panics on the
// input, called directly: such a case says nothing about the library.
type DependencyPanic struct{}

// OutOfScope describes it.
func (DependencyPanic) OutOfScope() string { return "regexp2 itself panics" }

// FindRegexp2 takes the matches of regexp2, converted from characters to
// bytes through a table.
func FindRegexp2(r *regexp2.Regexp) Finder {
	return func(s string) (out [][2]int) {
		at := []int{}
		for i := range s {
			at = append(at, i)
		}
		at = append(at, len(s))
		defer func() {
			if recover() != nil {
				panic(DependencyPanic{})
			}
		}()
		m, err := r.FindStringMatch(s)
		for m != nil && err == nil {
			out = append(out, [2]int{at[m.Index], at[m.Index+m.Length]})
			m, err = r.FindNextMatch(m)
		}
		if err != nil {
			panic("harness: regexp2: " + err.Error())
		}
		if r.RightToLeft() { // found from the end
			slices.Reverse(out)
		}
		return out
	}
}

// IsWord is the \w of regexp2 (.NET): letters, non-spacing marks, decimal
// digits and connector punctuation, with the two joiners.
func IsWord(r rune) bool {
	return unicode.In(r, unicode.L, unicode.Mn, unicode.Nd, unicode.Pc) || r == 0x200D || r == 0x200C
}

// FindRuns matches maximal runs of characters of equal non-zero class.
func FindRuns(class func(rune) int) Finder {
	return func(s string) [][2]int {
		var out [][2]int
		last := 0
		for p := 0; p < len(s); {
			r, w := utf8.DecodeRuneInString(s[p:])
			c := class(r)
			if c != 0 {
				if c == last {
					out[len(out)-1][1] = p + w
				} else {
					out = append(out, [2]int{p, p + w})
				}
			}
			last = c
			p += w
		}
		return out
	}
}

// WordClass: 1 word character, 2 other non-space, 0 space.
func WordClass(r rune) int {
	switch {
	case IsWord(r):
		return 1
	case IsSpace(r):
		return 0
	}
	return 2
}

var contractions = []string{"'s", "'t", "'re", "'ve", "'m", "'ll", "'d"}

// FindGPT2 is the byte-level splitting rule, written out by hand.
func FindGPT2(s string) [][2]int {
	rs := []rune(s)
	at := []int{}
	for i := range s {
		at = append(at, i)
	}
	at = append(at, len(s))
	run := func(i int, f func(rune) bool) int {
		for i < len(rs) && f(rs[i]) {
			i++
		}
		return i
	}
	letter := func(r rune) bool { return unicode.Is(unicode.L, r) }
	number := func(r rune) bool { return unicode.Is(unicode.N, r) }
	other := func(r rune) bool { return !IsSpace(r) && !letter(r) && !number(r) }
	next := func(i int) int {
		for _, c := range contractions {
			n := len(c)
			if i+n <= len(rs) && foldEq(rs[i:i+n], c) {
				return i + n
			}
		}
		k := i
		if rs[i] == ' ' {
			k++
		}
		for _, f := range []func(rune) bool{letter, number, other} {
			if e := run(k, f); e > k {
				return e
			}
		}
		// white space only from here
		e := run(i, IsSpace)
		if e == len(rs) || e == i+1 {
			return e
		}
		return e - 1
	}
	var out [][2]int
	for i := 0; i < len(rs); {
		e := next(i)
		out = append(out, [2]int{at[i], at[e]})
		i = e
	}
	return out
}

func foldEq(rs []rune, c string) bool {
	for i, x := range []rune(c) {
		if unicode.ToLower(rs[i]) != x {
			return false
		}
	}
	return true
}
