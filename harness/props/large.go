package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
)

// BigVocab is a vocabulary of Load terms from a file, with ids i*Mul+Off, to
// which Add terms are added, each twice.
type BigVocab struct {
	Load, Mul, Off, Add int
}

func bigTerm(i int) string {
	return []string{"t", "é", "##", "\U0001F600"}[i%4] + strconv.Itoa(i*7919%1000003) + strings.Repeat("x", i%5)
}

func enumBigVocab(tier string, yield func(BigVocab) bool) {
	n := 1
	if tier == "thorough" {
		n = 10
	}
	for _, c := range []BigVocab{
		{0, 0, 0, 70000 * n}, {70000 * n, 1, 0, 3000}, {3000, 3, 0, 20000 * n}, {5000, 2, 5000, 9000 * n},
		{66000, 1 << 16, -5, 300}, {1000, -1, 0, 70000}, {300, 1, 200, 500}, {257, 1, 0, 257},
	} {
		if !yield(c) {
			return
		}
	}
}

func checkBigVocab(ctx *Ctx, c BigVocab) error {
	ctx.NonTrivial()
	byTerm, byID := map[string]int{}, map[int]string{}
	v := vocabulary.NewVocabulary()
	if c.Load > 0 {
		vc := VocabCase{Load: true}
		for i := range c.Load {
			vc.Terms, vc.IDs = append(vc.Terms, S(bigTerm(i))), append(vc.IDs, i*c.Mul+c.Off)
			byTerm[bigTerm(i)], byID[i*c.Mul+c.Off] = i*c.Mul+c.Off, bigTerm(i)
		}
		var err error
		withFile(vc.json(), func(path string) { v, err = vocabulary.FromJSONFile(path) })
		if err != nil {
			return fmt.Errorf("%+v: unexpected error %v", c, err)
		}
	}
	look := func() error {
		if v.Size() != len(byTerm) || len(byTerm) != len(byID) {
			return fmt.Errorf("size %d, want %d", v.Size(), len(byTerm))
		}
		for t, want := range byTerm {
			if id, ok := v.GetID(t); !ok || id != want {
				return fmt.Errorf("GetID(%+q) = %d, %v, want %d", t, id, ok, want)
			}
			if got, ok := v.GetString(want); !ok || got != t {
				return fmt.Errorf("GetString(%d) = %+q, %v, want %+q", want, got, ok, t)
			}
			if _, ok := byID[want+1]; !ok {
				if got, ok := v.GetString(want + 1); ok {
					return fmt.Errorf("GetString(%d) = %+q, there is none", want+1, got)
				}
			}
		}
		return nil
	}
	if err := look(); err != nil {
		return fmt.Errorf("%+v, loaded: %w", c, err)
	}
	next := len(byTerm)
	for i := c.Load / 2; i < c.Load+c.Add; i++ {
		t := bigTerm(i)
		if _, ok := byTerm[t]; !ok {
			next = max(next, len(byTerm))
			id := next
			if c.Mul < 0 || c.Mul > 1 || c.Off != 0 { // maybe taken
				for id = len(byTerm); ; id++ {
					if _, taken := byID[id]; !taken {
						break
					}
				}
			}
			byTerm[t], byID[id] = id, t
		}
		v.AddTerm(t)
		v.AddTerm(t)
		if i&(i-1) == 0 {
			if err := look(); err != nil {
				return fmt.Errorf("%+v, after term %d: %w", c, i, err)
			}
		}
	}
	if err := look(); err != nil {
		return fmt.Errorf("%+v: %w", c, err)
	}
	return nil
}

// BigMerges is a merge file of N lines, a version line every V lines, the
// pairs coming again after P lines; line Bad (1-based) is bad.
type BigMerges struct {
	N, V, P, Bad, Cut int
}

func enumBigMerges(tier string, yield func(BigMerges) bool) {
	n := 1
	if tier == "thorough" {
		n = 5
	}
	for _, c := range []BigMerges{
		{70000 * n, 0, 1 << 30, 0, 0}, {70000 * n, 1000, 60000, 0, 2}, {5000, 3, 4000, 0, 1}, {300, 7, 257, 0, 0},
		{70000, 0, 1 << 30, 65537, 0}, {70000, 100, 500, 70000, 0}, {3000, 1, 1 << 30, 2999, 2}, {300, 0, 1 << 30, 257, 0}, {5000, 9, 4999, 4096, 0},
	} {
		if !yield(c) {
			return
		}
	}
}

func checkBigMerges(ctx *Ctx, c BigMerges) error {
	ctx.NonTrivial()
	const k = 300 // letters
	letter := func(i int) string { return string(rune(0x4e00 + i)) }
	prefix := strings.Repeat("#", c.Cut)
	v := vocabulary.NewVocabulary()
	for i := range k {
		v.AddTerm(letter(i))
		if c.Cut > 0 {
			v.AddTerm(prefix + letter(i))
		}
	}
	want := map[[2]int]bpemodel.MergeValue{}
	var b strings.Builder
	rank, wantLine := 0, 0
	for i := range c.N {
		if i+1 == c.Bad {
			b.WriteString("nowhere " + letter(0) + "\n")
			wantLine = i + 1
			continue
		}
		if c.V > 0 && i%c.V == 0 {
			b.WriteString("#version: 0.2\n")
			continue
		}
		j := i % c.P
		l, r := letter(j%k), letter(j/k%k)
		v.AddTerm(l + r)
		b.WriteString(l + " " + prefix + r + "\n")
		li, _ := v.GetID(l)
		ri, _ := v.GetID(prefix + r)
		id, _ := v.GetID(l + r)
		want[[2]int{li, ri}] = bpemodel.MergeValue{Rank: rank, ID: id}
		rank++
	}
	var mm *bpemodel.MergeMap
	var err error
	withFile(b.String(), func(path string) { mm, err = bpemodel.MergeMapFromFile(path, v, c.Cut) })
	if wantLine > 0 {
		if err == nil || mm != nil {
			return fmt.Errorf("%+v: error %v, table %v, line %d is bad", c, err, mm != nil, wantLine)
		}
		for _, n := range number.FindAllString(err.Error(), -1) {
			if n == strconv.Itoa(wantLine) {
				return nil
			}
		}
		return fmt.Errorf("%+v: error %q does not name line %d", c, err, wantLine)
	}
	if err != nil {
		return fmt.Errorf("%+v: unexpected error %v", c, err)
	}
	if len(*mm) != len(want) {
		return fmt.Errorf("%+v: %d pairs, want %d", c, len(*mm), len(want))
	}
	for p, w := range want {
		if got, ok := mm.Get(p[0], p[1]); !ok || got != w {
			return fmt.Errorf("%+v: pair %v: %+v, %v, want %+v", c, p, got, ok, w)
		}
	}
	return nil
}
