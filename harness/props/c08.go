package props

import (
	"fmt"

	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"pgregory.net/rapid"

	"verif/harness/engine"
	"verif/harness/gen"
	"verif/harness/ref"
)

// PatCase asks one pattern object about several texts.
type PatCase struct {
	P     gen.Pat
	Texts []S
}

func init() {
	engine.Register("C08",
		engine.Enum(engine.F("matches", "some text has both a match and a gap", 300000, 6000000, drawPat, checkPat), both(enumPat, enumHugePats)),
		sweep(128, checkPat, patsOf),
		lengths(4, 320, checkPat, lenPatsOf),
	)
}

func drawPat(t *rapid.T) PatCase {
	s := gen.Text(t)
	c := PatCase{P: gen.Pattern(t, s), Texts: []S{S(s)}}
	for range rapid.IntRange(0, 2).Draw(t, "more") {
		c.Texts = append(c.Texts, S(gen.Text(t)))
	}
	if c.P.Kind == "literal" && rapid.IntRange(0, 3).Draw(t, "holding") == 3 {
		c.Texts = append(c.Texts, S("a"+string(c.P.S)+gen.Text(t)+string(c.P.S)+"a"))
	}
	return c
}

func enumPat(tier string, yield func(PatCase) bool) {
	var pats []gen.Pat
	for _, r := range "aé " {
		pats = append(pats, gen.Pat{Kind: "rune", R: r})
	}
	for _, p := range []string{"space", "wide", "ascii", "all", "none", "even"} {
		pats = append(pats, gen.Pat{Kind: "func", S: S(p)})
	}
	for _, l := range []string{"", "a", "aa", "éa", "aéa", ".", "\u3000", "a*"} {
		pats = append(pats, gen.Pat{Kind: "literal", S: S(l)})
	}
	for _, k := range []string{"regexp", "regexp2"} {
		for _, r := range []string{"", "a*", "a+?", `\s*`, "^", "$", "^a", "a$", `\b`, "é|a", ".", "aé|a", "(?:a|)é?"} {
			pats = append(pats, gen.Pat{Kind: k, S: S(r)})
		}
	}
	n := 4
	if tier == "thorough" {
		n = 6
	}
	var ts []S
	for _, s := range smallTexts([]string{"a", "é", " ", "\U0001F600"}, n) {
		ts = append(ts, S(s))
	}
	for _, p := range pats {
		for inv := 0; inv < 3; inv++ {
			p.Invert = inv
			for i := 0; i < len(ts); i += 16 {
				if !yield(PatCase{P: p, Texts: ts[i:min(len(ts), i+16)]}) {
					return
				}
			}
		}
	}
}

func checkPat(ctx *Ctx, c PatCase) error {
	var want [][]ref.Cap
	for _, s := range c.Texts {
		want = append(want, c.P.Caps(string(s)))
	}
	ctx.Label(c.P.Kind)
	ctx.LabelIf(c.P.Invert > 0, fmt.Sprintf("inverted %d times", c.P.Invert))
	sp := c.P.Lib()
	held := make([][]splitpattern.Capture, len(c.Texts))
	copies := make([][]ref.Cap, len(c.Texts))
	for round := range 2 {
		for i, s := range c.Texts {
			got, err := sp.FindMatches(string(s))
			if err != nil {
				return fmt.Errorf("FindMatches(%+q): unexpected error %v", string(s), err)
			}
			if err := cmpCaps(string(s), refCaps(got), want[i]); err != nil {
				return fmt.Errorf("%s %+q inverted %d times, call %d: %w", c.P.Kind, string(c.P.S)+string(c.P.R), c.P.Invert, round+1, err)
			}
			m, g := false, false
			for _, x := range want[i] {
				m, g = m || x.M, g || !x.M
				ctx.LabelIf(x.M && x.S == x.E, "empty match")
			}
			ctx.NonTrivialIf(m && g)
			if round == 0 {
				held[i], copies[i] = got, refCaps(got)
			}
		}
	}
	// answers handed out earlier are not disturbed by later calls
	for i := range held {
		now := refCaps(held[i])
		for j := range now {
			if now[j] != copies[i][j] {
				return fmt.Errorf("captures returned for %+q changed after later calls", string(c.Texts[i]))
			}
		}
	}
	return nil
}

func cmpCaps(s string, got, want []ref.Cap) error {
	p := 0
	on := make([]bool, len(s)+1)
	on[len(s)] = true
	for i := range s {
		on[i] = true
	}
	for _, c := range got {
		if c.S != p || c.E < c.S || c.E > len(s) {
			return fmt.Errorf("captures of %+q are not contiguous: %v", s, got)
		}
		if !on[c.S] || !on[c.E] {
			return fmt.Errorf("captures of %+q cut a character: %v", s, got)
		}
		p = c.E
	}
	if p != len(s) {
		return fmt.Errorf("captures of %+q (length %d) do not cover it: %v", s, len(s), got)
	}
	if len(got) != len(want) {
		return fmt.Errorf("captures of %+q: %v, want %v", s, got, want)
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Errorf("captures of %+q: %v, want %v", s, got, want)
		}
	}
	return nil
}
