package gen

import (
	"regexp"
	"strings"
	"sync"
	"time"
	"unicode"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// Pat is a pattern in data form.
type Pat struct {
	Kind   string // rune, func, literal, regexp, regexp2
	R      rune   `json:",omitempty"`
	S      S      `json:",omitempty"`
	Invert int    `json:",omitempty"` // number of inversions around it
}

// Preds are the named character predicates.
var Preds = map[string]func(rune) bool{
	"space":  ref.IsSpace,
	"punct":  func(r rune) bool { return unicode.Is(unicode.P, r) },
	"letter": func(r rune) bool { return unicode.Is(unicode.L, r) },
	"upper":  unicode.IsUpper,
	"digit":  func(r rune) bool { return r >= '0' && r <= '9' },
	"mark":   func(r rune) bool { return unicode.Is(unicode.M, r) },
	"even":   func(r rune) bool { return r%2 == 0 },
	"third":  func(r rune) bool { return r%3 != 0 },
	"wide":   func(r rune) bool { return r >= 0x80 },
	"ascii":  func(r rune) bool { return r < 0x80 },
	"all":    func(rune) bool { return true },
	"none":   func(rune) bool { return false },
}

var predNames = []string{"space", "punct", "letter", "upper", "digit", "mark", "even", "third", "wide", "ascii", "all", "none"}

// PredName draws a predicate name.
func PredName(t *rapid.T) string { return rapid.SampledFrom(predNames).Draw(t, "pred") }

var (
	reMu    sync.Mutex
	reCache = map[string]*regexp.Regexp{}
	r2Cache = map[string]*regexp2.Regexp{}
)

// Regexp compiles (cached).
func Regexp(s string) *regexp.Regexp {
	reMu.Lock()
	defer reMu.Unlock()
	if r, ok := reCache[s]; ok {
		return r
	}
	r, err := regexp.Compile(s)
	if err != nil {
		panic("harness: bad regexp " + s + ": " + err.Error())
	}
	if len(reCache) > 5000 {
		reCache = map[string]*regexp.Regexp{}
	}
	reCache[s] = r
	return r
}

// Comments that stand for options in the source of a regexp2.
const rtl, re2 = "(?#rtl)", "(?#re2)"

// Regexp2 compiles (cached).
func Regexp2(s string) *regexp2.Regexp {
	reMu.Lock()
	defer reMu.Unlock()
	if r, ok := r2Cache[s]; ok {
		return r
	}
	opt := regexp2.RegexOptions(regexp2.None)
	switch {
	case strings.HasPrefix(s, rtl):
		opt = regexp2.RightToLeft
	case strings.HasPrefix(s, re2):
		opt = regexp2.RE2
	}
	r, err := regexp2.Compile(s, opt)
	if err != nil {
		panic("harness: bad regexp2 " + s + ": " + err.Error())
	}
	r.MatchTimeout = 100 * time.Hour
	if len(r2Cache) > 5000 {
		r2Cache = map[string]*regexp2.Regexp{}
	}
	r2Cache[s] = r
	return r
}

// Lib builds the library's pattern.
func (p Pat) Lib() splitpattern.SplitPattern {
	var sp splitpattern.SplitPattern
	switch p.Kind {
	case "rune":
		sp = splitpattern.FromRune(p.R)
	case "func":
		sp = splitpattern.FromFunc(Preds[string(p.S)])
	case "literal":
		sp = splitpattern.FromString(string(p.S))
	case "regexp":
		sp = splitpattern.FromRegexp(Regexp(string(p.S)))
	case "regexp2":
		sp = splitpattern.FromRegexp2(Regexp2(string(p.S)))
	default:
		panic("harness: bad pattern kind " + p.Kind)
	}
	for range p.Invert {
		sp = splitpattern.Invert(sp)
	}
	return sp
}

// Finder is the oracle for the matches, before inversions.
func (p Pat) Finder() ref.Finder {
	switch p.Kind {
	case "rune":
		return ref.FindFunc(func(r rune) bool { return r == p.R })
	case "func":
		return ref.FindFunc(Preds[string(p.S)])
	case "literal":
		return ref.FindLiteral(string(p.S))
	case "regexp":
		return ref.FindRegexp(Regexp(string(p.S)))
	case "regexp2":
		return ref.FindRegexp2(Regexp2(string(p.S)))
	}
	panic("harness: bad pattern kind " + p.Kind)
}

// Caps is the oracle for a text.
func (p Pat) Caps(s string) []ref.Cap {
	c := ref.Partition(s, p.Finder()(s))
	if p.Invert%2 == 1 {
		c = ref.InvertCaps(c)
	}
	return c
}

var fixedRegexps = []string{
	``, `a*`, `\s+`, `\s*`, `\b`, `^`, `$`, `^a`, `a$`, `.`, `(?s).`, `.*`, `.+`, `[^a]+`, `\d+`, `\p{L}+`, `[[:punct:]]`, `a|ab`, `ab|a`, `(a|b)*`, `(?i)a+`, `x??`, `a+?`, `(?:a|)b?`, `\w+|[^\w\s]+`, `[0-9]{2}`, `(ab)+`, `é|你`, `\x{3000}?`,
}

// Literals that mean something else in the syntax of regular expressions or
// of replacement templates.
var metas = []string{
	`\E`, `\Q`, `\Ea`, `\Q\E`, `(?i)a`, `(?i)A`, `[a`, `a]`, `[a]`, `a|b`, `^`, `$`, `\b`, `a+`, `a*`, `a?`, `a{1}`, `.`, `.*`, `(`, `)`, `(a)`, `\`, `\\`, `$1`, `${1}`, `$0a`, `\n`, `\s`, `\x61`, `#`, ` # a`, `%s`, `(?:`, `-`, `a-b`,
}

var fixedRegexp2s = []string{
	``, `a*`, `\s+`, `\s*`, `\b`, `^`, `$`, `a(?=b)`, `a(?!b)`, `(?<=a)b`, `(?<=a)`, `(?=a)`, `\s+(?!\S)|\s+`, `(a)\1`, `.`, `[^a]+`, `\d+`, `\p{L}+`, `\p{Lu}`, `a|ab`, `ab|a`, `(?i)a+`, `\w+|[^\w\s]+`, `(?<!a)b`, `x??`, `a+?`, `é|你`, `(?<x>a)+b?`, `(?!)`, `\s|$`,
}

// Pattern draws a pattern likely to match in s.
func Pattern(t *rapid.T, s string) Pat {
	p := Pat{}
	p.Kind = rapid.SampledFrom([]string{"rune", "func", "literal", "regexp", "regexp2"}).Draw(t, "kind")
	switch p.Kind {
	case "rune":
		p.R = RuneOf(t, s)
	case "func":
		p.S = S(PredName(t))
	case "literal":
		if rapid.IntRange(0, 11).Draw(t, "emptylit") > 0 {
			p.S = S(Substring(t, s))
		}
		if rapid.IntRange(0, 19).Draw(t, "meta") == 19 {
			p.S = S(rapid.SampledFrom(metas).Draw(t, "metatext"))
		}
	case "regexp":
		p.S = S(RegexpSource(t, s, false))
	case "regexp2":
		p.S = S(RegexpSource(t, s, true))
	}
	if k := rapid.IntRange(0, 9).Draw(t, "inv"); k == 8 {
		p.Invert = 1
	} else if k == 9 {
		p.Invert = 2
	} else if k >= 6 {
		p.Invert = 1
	}
	return p
}

// RegexpSource draws a regular expression valid in both syntaxes (or a fixed
// one of the given dialect).
func RegexpSource(t *rapid.T, s string, two bool) string {
	if two && rapid.IntRange(0, 11).Draw(t, "rtl") == 11 {
		src := rapid.SampledFrom(rtlRegexp2s).Draw(t, "re2")
		if src == "" {
			src = regexp.QuoteMeta(utf8Substring(t, s))
		}
		return rtl + src
	}
	if rapid.IntRange(0, 2).Draw(t, "fixed") == 0 {
		if two {
			return rapid.SampledFrom(fixedRegexp2s).Draw(t, "re2")
		}
		return rapid.SampledFrom(fixedRegexps).Draw(t, "re")
	}
	budget := 6
	if two {
		budget = 1 // backtracking engine: one unbounded quantifier at most
		pre := rapid.SampledFrom([]string{"", "", "", "", "", "", "", re2}).Draw(t, "option")
		return pre + genRe(t, s, 2, &budget)
	}
	return genRe(t, s, 2, &budget)
}

// Right-to-left expressions that match no empty text: regexp2 v1.4.0 itself
// never comes to an end when such an expression matches an empty text. The
// empty source stands for a literal of the text.
var rtlRegexp2s = []string{
	`a`, `a+`, `\s+`, `[^a]+`, `\d+`, `\p{L}+`, `ab|a`, `.`, `a|ab`, `aa`, `\p{L}{2}`, `\w+|[^\w\s]+`, `(?<=a)b`, `a(?=b)`, `\s`, `..`, `a[^a]`, "", "",
}

// utf8Substring is a non-empty stretch of well-formed text of s, or "a".
func utf8Substring(t *rapid.T, s string) string {
	sub := strings.ToValidUTF8(Substring(t, s), "")
	if sub == "" {
		return "a"
	}
	return sub
}

func genRe(t *rapid.T, s string, depth int, budget *int) string {
	var b strings.Builder
	for i := range rapid.IntRange(1, 3).Draw(t, "cat") {
		if i > 0 && rapid.IntRange(0, 3).Draw(t, "alt") == 0 {
			b.WriteString("|")
		}
		atom := ""
		switch k := rapid.IntRange(0, 7).Draw(t, "atom"); {
		case k < 4:
			atom = regexp.QuoteMeta(string(RuneOf(t, s)))
		case k == 4:
			atom = rapid.SampledFrom([]string{`.`, `\s`, `\S`, `\w`, `\d`, `[a-c]`, `[^a]`, `\p{L}`}).Draw(t, "cls")
		case k == 5:
			atom = rapid.SampledFrom([]string{`^`, `$`, `\b`}).Draw(t, "anchor")
			b.WriteString(atom)
			continue
		case depth > 0:
			atom = "(?:" + genRe(t, s, depth-1, budget) + ")"
		default:
			atom = "a"
		}
		// no quantifier on groups that may be empty: keeps backtracking linear
		q := ""
		if !strings.HasPrefix(atom, "(") {
			q = rapid.SampledFrom([]string{"", "", "+", "*", "?", "+?", "{2}"}).Draw(t, "q")
		} else {
			q = rapid.SampledFrom([]string{"", "", "?"}).Draw(t, "qg")
		}
		if q == "+" || q == "*" || q == "+?" {
			if *budget == 0 {
				q = ""
			} else {
				*budget--
			}
		}
		b.WriteString(atom + q)
	}
	return b.String()
}

// Pattern1 is a plain pattern.
func Pattern1(kind, s string) *Pat { return &Pat{Kind: kind, S: S(s)} }
