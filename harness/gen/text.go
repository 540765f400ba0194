// Package gen holds the generators.
package gen

import (
	"encoding/json"
	"strconv"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// S is a byte string that survives JSON whatever its bytes.
type S string

// MarshalJSON quotes in ASCII, ill-formed bytes as \x escapes inside a Go
// string literal.
func (s S) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(string(s)))
}

// UnmarshalJSON reads it back.
func (s *S) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(q)
	*s = S(u)
	return err
}

// pool: simplest first (shrinking goes towards it).
var pool = func() []rune {
	groups := []string{
		"abcdefgmn", "ABSTK", "0129", "    ", "\t\n\r", "!'-_.,#(", "$+<^`~|",
		"éßÿàĠ", "İẞſKǅΣςẽ",
		"▁▁", "你好日本語", "한あア", "𝔾𐐀𐐨",
		"😀👍🏽🇮", "\u0301\u0300\u0308\u20D0\u3099\u0E31", "\u0903\u20DD", "\U0001D167\U000E0100\U0001E8D0",
		"\u00A0\u2003\u3000\u2028\u0085\u1680\u000B\u000C\u202F",
		"\x00\x07\x7F\u0080\u00AD\uFEFF\u200B\u200D\u200C\uFFFD\uE000\U0010FFFF\uFFFF\u0378\u061C\u2060\U000E0001",
		"«»—…।、。！？¿§¶‿", "€₿×÷∞→©°¨´", "²½Ⅷ٣〇①𝟘",
		"\u3400\u33FF\u4DBF\u4DC0\u4DFF\u4E00\u9FFF\uA000\uF8FF\uF900\uFAFF\uFB00",
		"\U0001FFFF\U00020000\U0002A6DF\U0002A6E0\U0002A6FF\U0002A700\U0002B73F\U0002B740\U0002B81F\U0002B820\U0002B91F\U0002B920\U0002CEAF\U0002CEB0\U0002F7FF\U0002F800\U0002FA1F\U0002FA20",
		"¡¬®°ĀġŃŤ\u017E\u2581\u2580\u2582",
	}
	var out []rune
	for _, g := range groups {
		out = append(out, []rune(g)...)
	}
	return out
}()

// Rune draws a character, mostly a telling one.
func Rune(t *rapid.T) rune {
	if k := rapid.IntRange(0, 19).Draw(t, "rk"); k >= 18 {
		r := rapid.Rune().Draw(t, "anyrune")
		if unicode.Is(unicode.Cs, r) {
			return 'a'
		}
		return r
	} else if k < 5 {
		return pool[rapid.IntRange(0, 30).Draw(t, "ascii")]
	}
	return pool[rapid.IntRange(0, len(pool)-1).Draw(t, "pool")]
}

var fragments = []string{
	"'s", "'S", "'re", "'LL", "'ve", "'d", "'M", "'T", "don't", "  ", "   ", " \n", "\t ", "ab", "the", " a", "1²", "__",
	"--", "!!", "##", "[UNK]", "e\u0301", "  b", "你 好", "▁▁", " ▁", "a1", "\u3000a", "ß,", "' s", "''", "'ſ", "x\u200Dy",
	`\E`, `\Q`, `\Ea+`, `(?i)A`, `[a]`, `a|b`, `a.*b`, `^a$`, `\b`, `(a)`, `$1`, `${1}`, `a{1}`, `\n`, `\\`, `a # a`, `%s`,
}

// Len draws a length in elements.
func Len(t *rapid.T) int {
	switch k := rapid.IntRange(0, 99).Draw(t, "lenk"); {
	case k < 70:
		return rapid.IntRange(0, 10).Draw(t, "len")
	case k < 92:
		return rapid.IntRange(0, 24).Draw(t, "len")
	default:
		return rapid.IntRange(0, 70).Draw(t, "len")
	}
}

// Palette draws the characters of a text.
func Palette(t *rapid.T) []string {
	n := rapid.IntRange(1, 6).Draw(t, "npal")
	var p []string
	for range n {
		if rapid.IntRange(0, 9).Draw(t, "frag") == 9 {
			p = append(p, rapid.SampledFrom(fragments).Draw(t, "fragment"))
		} else {
			p = append(p, string(Rune(t)))
		}
	}
	return p
}

// FromPalette draws a text over the palette.
func FromPalette(t *rapid.T, p []string, n int) string {
	var b strings.Builder
	for range n {
		b.WriteString(p[rapid.IntRange(0, len(p)-1).Draw(t, "i")])
	}
	return b.String()
}

// Text draws a well-formed text.
func Text(t *rapid.T) string {
	p := Palette(t)
	if rapid.IntRange(0, 499).Draw(t, "longtext") == 499 {
		return Long(t, p)
	}
	s := FromPalette(t, p, Len(t))
	if rapid.IntRange(0, 59).Draw(t, "rep") == 59 {
		k := rapid.IntRange(2, 60).Draw(t, "reps")
		s = strings.Repeat(s, k)
		if len(s) > 3000 {
			s = s[:0] + strings.ToValidUTF8(s[:3000], "")
		}
	}
	return s
}

// Long draws a text of hundreds or thousands of characters: a few stretches,
// each a repetition or a mixture.
func Long(t *rapid.T, p []string) string {
	var b strings.Builder
	limit := 1500
	if rapid.IntRange(0, 19).Draw(t, "verylong") == 19 {
		limit = 5000
	}
	for range rapid.IntRange(1, 4).Draw(t, "stretches") {
		n := rapid.IntRange(1, limit/3).Draw(t, "stretch")
		if rapid.Bool().Draw(t, "around") { // near a power of two
			n = 1<<rapid.IntRange(3, 12).Draw(t, "pow") + rapid.IntRange(-1, 2).Draw(t, "off")
		}
		x := p[rapid.IntRange(0, len(p)-1).Draw(t, "of")]
		mixed := rapid.Bool().Draw(t, "mixed")
		seed := rapid.Uint32().Draw(t, "mix")
		for i := 0; i < n && b.Len() < limit; i++ {
			if mixed {
				seed = seed*1664525 + 1013904223
				x = p[int(seed>>8)%len(p)]
			}
			b.WriteString(x)
		}
	}
	return b.String()
}

// NonEmptyText never draws "".
func NonEmptyText(t *rapid.T) string {
	if s := Text(t); s != "" {
		return s
	}
	return "a"
}

// ShortText draws a short text (replacement content, prefixes).
func ShortText(t *rapid.T) string {
	return FromPalette(t, Palette(t), rapid.IntRange(0, 4).Draw(t, "short"))
}

// RuneOf draws a character that is likely to occur in s.
func RuneOf(t *rapid.T, s string) rune {
	rs := []rune(s)
	if len(rs) > 0 && rapid.IntRange(0, 3).Draw(t, "of") < 3 {
		return rs[rapid.IntRange(0, len(rs)-1).Draw(t, "at")]
	}
	return Rune(t)
}

// SameSize draws a character encoded in as many bytes.
func SameSize(t *rapid.T, r rune) rune {
	return rapid.SampledFrom([][]rune{{'a', '-', ' ', 'Z', '1'}, {'é', 'Ω', '\u0301', '\u00a0'}, {'你', '\u3000', '\u20ac', '\ufffd'}, {'😀', '𝔾'}}[len(string(r))-1]).Draw(t, "samesize")
}

// Substring draws a piece of s (or something near).
func Substring(t *rapid.T, s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return ShortText(t)
	}
	i := rapid.IntRange(0, len(rs)-1).Draw(t, "from")
	n := rapid.IntRange(1, 3).Draw(t, "n")
	return string(rs[i:min(len(rs), i+n)])
}

// Bytes draws a byte string that is often ill-formed UTF-8.
func Bytes(t *rapid.T) string {
	p := Palette(t)
	bad := []string{"\xff", "\x80", "\xc3", "\xe2\x96", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\xaf", "\xf8", "\xe4\xbd", "\xbf\xbf"}
	for range rapid.IntRange(1, 3).Draw(t, "nbad") {
		if rapid.IntRange(0, 2).Draw(t, "anyb") == 0 {
			p = append(p, string([]byte{byte(rapid.IntRange(0x80, 0xff).Draw(t, "b"))}))
		} else {
			p = append(p, rapid.SampledFrom(bad).Draw(t, "bad"))
		}
	}
	if rapid.IntRange(0, 499).Draw(t, "longtext") == 499 {
		return Long(t, p)
	}
	return FromPalette(t, p, Len(t))
}
