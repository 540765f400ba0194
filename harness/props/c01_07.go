package props

import (
	"fmt"
	"slices"

	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"pgregory.net/rapid"

	"verif/harness/engine"
	"verif/harness/gen"
	"verif/harness/ref"
)

var boundary = strutils.IsRuneBoundary

// GoneCase inserts text at a range of the original of which nothing remains.
type GoneCase struct {
	H    Hist
	A, B int
	Ins  S
}

// checkGone: where the range has a place in the text, the insertion is made
// there; where it has none the text is left alone.
func checkGone(ctx *Ctx, c GoneCase) error {
	l, m, err := applyAll(c.H, nil)
	if err != nil {
		return err
	}
	n := len(l.GetOriginal())
	if n == 0 {
		return nil
	}
	a := c.A % n
	b := a + 1 + c.B%(n-a)
	if _, _, found, _, _ := m.OrigToNorm(a, b); found {
		return nil
	}
	ctx.NonTrivial()
	t := m.Text()
	want := t
	rng := normalizedstring.NewOriginalRange(a, b)
	if at, ok := l.CoerceRangeToNormalized(rng); ok {
		ctx.Label("has a place")
		if at.Start() != at.End() || !boundary(t, at.Start()) {
			return nil // C04
		}
		want = t[:at.Start()] + string(c.Ins) + t[at.Start():]
	}
	var changes []normalizedstring.RuneChange
	for _, r := range string(c.Ins) {
		changes = append(changes, normalizedstring.RuneChange{Rune: r, Change: 1})
	}
	l.TransformRange(rng, changes, 0)
	if l.Get() != want || l.Len() != len(want) {
		return fmt.Errorf("inserting %+q at the original range [%d %d] of %+q (now %+q): text %+q, want %+q", string(c.Ins), a, b, l.GetOriginal(), t, l.Get(), want)
	}
	return nil
}

func init() {
	histRule := "at least one edit changed the text, and the text has a multi-byte character or is edited at least twice"

	// ---- C01 ----
	checkText := func(ctx *Ctx, h Hist) error {
		changed, prev := 0, string(h.Text)
		mb := multibyte(prev)
		_, _, err := applyAll(h, func(kind string, l *NSt, m *ref.NS) error {
			ctx.Label(kind)
			t := m.Text()
			if t != prev {
				changed++
				ctx.Label(kind + "+")
			}
			mb = mb || multibyte(t)
			ctx.LabelIf(t == "" && prev != "", "emptied")
			prev = t
			if err := cmpText(l, m); err != nil {
				return err
			}
			if l.Len() != len(t) || l.IsEmpty() != (t == "") {
				return fmt.Errorf("Len %d IsEmpty %v for %+q", l.Len(), l.IsEmpty(), t)
			}
			return nil
		})
		ctx.LabelIf(len(h.Ops) > 6, "more than 6 edits")
		ctx.NonTrivialIf(changed > 1 || (changed > 0 && mb))
		return err
	}
	engine.Register("C01",
		engine.Enum(engine.F("edits", histRule, 300000, 3000000, drawHist(gen.EditKinds, 6), checkText), both(enumHist, enumHugeHist(true))),
		engine.F("gone", "the text was edited, and nothing remains of the range of the original that is given", 60000, 600000, func(t *rapid.T) GoneCase {
			return GoneCase{H: drawHist(gen.EditKinds, 4)(t), A: rapid.IntRange(0, 40).Draw(t, "a"), B: rapid.IntRange(0, 40).Draw(t, "b"),
				Ins: S(rapid.SampledFrom([]string{"x", "é", "xé", "😀"}).Draw(t, "ins"))}
		}, checkGone),
		sweep(128, checkText, editsOf),
		lengths(4, 320, checkText, histsOf),
	)

	// ---- C02 ----
	checkAlign := func(ctx *Ctx, h Hist) error {
		changed, mb := 0, multibyte(string(h.Text))
		prev := string(h.Text)
		l0 := normalizedstring.FromString(prev)
		if err := cmpAligns(l0, ref.FromString(prev)); err != nil {
			return err
		}
		_, _, err := applyAll(h, func(kind string, l *NSt, m *ref.NS) error {
			ctx.Label(kind)
			t := m.Text()
			if t != prev {
				changed++
			}
			prev = t
			mb = mb || multibyte(t)
			if err := cmpAligns(l, m); err != nil {
				return err
			}
			return alignShape(l)
		})
		ctx.LabelIf(len(h.Ops) > 6, "more than 6 edits")
		ctx.NonTrivialIf(changed > 1 || (changed > 0 && mb))
		return err
	}
	engine.Register("C02",
		engine.Enum(engine.F("alignments", histRule, 300000, 3000000, drawHist(gen.HistKinds, 6), checkAlign), both(enumHist, enumHugeHist(false))),
		sweep(128, checkAlign, editsOf),
		lengths(4, 320, checkAlign, slicedOf),
	)

	// ---- C03 ----
	engine.Register("C03",
		engine.F("objects", "at least two live objects when an edit changes one of them", 250000, 3000000, drawGraph, checkGraph),
	)

	// ---- C04 ----
	engine.Register("C04",
		engine.Enum(engine.F("ranges", "the text was edited and is not empty", 150000, 2000000, drawRanges, checkRanges), func(tier string, yield func(RangeCase) bool) {
			enumHist("", func(h Hist) bool { return yield(RangeCase{H: h}) })
			enumHugeRanges("", yield)
		}),
		lengths(2, 140, checkRanges, rangesOf),
	)

	// ---- C05 ----
	engine.Register("C05",
		engine.Enum(engine.F("slices", "at least two nested slices, or a slice after an edit that changed the text", 150000, 2000000, drawRanges, checkSlices), func(tier string, yield func(RangeCase) bool) {
			enumHist("", func(h Hist) bool { return yield(RangeCase{H: h}) })
			enumHugeRanges("", yield)
		}),
		lengths(2, 140, checkSlices, rangesOf),
	)

	// ---- C06 ----
	engine.Register("C06",
		engine.Enum(engine.F("scripted", "a partition with at least two captures, one flagged", 200000, 2500000, drawScript, checkScript), enumScript),
		engine.Enum(engine.F("patterns", "a real pattern with at least one match and one gap", 200000, 2500000, drawSplit, checkSplit), enumHugeSplits),
		engine.F("again", "cuts by the same pattern object before and after an edit that changed the text, at least one of them with a match and a gap", 60000, 800000, drawCutAgain, checkCutAgain),
		lengths(4, 320, checkSplit, splitsOf),
	)

	// ---- C07 ----
	checkInv := func(ctx *Ctx, h Hist) error {
		changed, prev := 0, string(h.Text)
		verify := func(l *NSt, m *ref.NS) error {
			want := m.OrigAligns()
			for range 2 {
				got := origAligns(l)
				if len(got) != len(want) {
					return fmt.Errorf("%d entries for %d original bytes (normalized %+q, original %+q)", len(got), len(want), m.Text(), m.Orig)
				}
				for i := range want {
					if got[i] != want[i] {
						return fmt.Errorf("original byte %d of %+q (normalized %+q) has entry %v, want %v", i, m.Orig, m.Text(), got[i], want[i])
					}
				}
			}
			return cmpAll(l, m)
		}
		if err := verify(normalizedstring.FromString(prev), ref.FromString(prev)); err != nil {
			return err
		}
		_, _, err := applyAll(h, func(kind string, l *NSt, m *ref.NS) error {
			ctx.Label(kind)
			t := m.Text()
			if t != prev {
				changed++
			}
			ctx.LabelIf(t == "" && m.Orig != "", "all removed")
			prev = t
			return verify(l, m)
		})
		ctx.LabelIf(len(h.Ops) > 6, "more than 6 edits")
		ctx.NonTrivialIf(changed > 0)
		return err
	}
	engine.Register("C07",
		engine.Enum(engine.F("inverse", "at least one edit changed the text", 200000, 2500000, drawHist(gen.HistKinds, 6), checkInv), both(enumHist, enumHugeHist(false))),
		lengths(4, 320, checkInv, slicedOf),
	)
}

// alignShape checks the form of the alignments without the model.
func alignShape(l *NSt) error {
	as, err := byteAligns(l)
	if err != nil {
		return err
	}
	o := l.GetOriginal()
	t := l.Get()
	for i, a := range as {
		if a.S < 0 || a.E < a.S || a.E > len(o) || !boundary(o, a.S) || !boundary(o, a.E) {
			return fmt.Errorf("byte %d of %+q aligned to %v, not character boundaries of %+q", i, t, a, o)
		}
		if i > 0 && (a.S < as[i-1].S || a.E < as[i-1].E) {
			return fmt.Errorf("alignments decrease at byte %d of %+q: %v then %v", i, t, as[i-1], a)
		}
		if i > 0 && !boundary(t, i) && a != as[i-1] {
			return fmt.Errorf("bytes %d and %d of one character of %+q aligned to %v and %v", i-1, i, t, as[i-1], a)
		}
	}
	return nil
}

// ---- C03: a graph of objects ----

type GStep struct {
	Obj int
	K   string // edit slice split table ranges
	Op  gen.Op
	P   *gen.Pat `json:",omitempty"`
	B   int      `json:",omitempty"`
}

type Graph struct {
	Text  S
	Steps []GStep
}

func drawGraph(t *rapid.T) Graph {
	s := gen.NonEmptyText(t)
	g := Graph{Text: S(s)}
	for range rapid.IntRange(1, 9).Draw(t, "n") {
		st := GStep{Obj: rapid.IntRange(0, 5).Draw(t, "obj")}
		switch k := rapid.IntRange(0, 11).Draw(t, "k"); {
		case k < 6:
			st.K, st.Op = "edit", gen.DrawOp(t, s, gen.EditKinds)
		case k < 8:
			st.K, st.Op = "slice", gen.DrawOp(t, s, []string{"slice"})
		case k < 10:
			p := gen.Pattern(t, s)
			st.K, st.P, st.B = "split", &p, rapid.IntRange(0, 4).Draw(t, "b")
		default:
			st.K = "read"
		}
		g.Steps = append(g.Steps, st)
	}
	return g
}

func checkGraph(ctx *Ctx, g Graph) error {
	type obj struct {
		l *NSt
		m *ref.NS
	}
	objs := []obj{{normalizedstring.FromString(string(g.Text)), ref.FromString(string(g.Text))}}
	for i, st := range g.Steps {
		k := st.Obj % len(objs)
		o := objs[k]
		switch st.K {
		case "edit":
			before := o.m.Text()
			if _, _, _, err := gen.Apply(st.Op, o.l, o.m); err != nil {
				return err
			}
			ctx.NonTrivialIf(len(objs) > 1 && o.m.Text() != before)
		case "slice":
			l, m, ok, err := gen.ApplySlice(st.Op, o.l, o.m)
			if err != nil {
				return err
			}
			if ok {
				objs = append(objs, obj{l, m})
				ctx.Label("slice")
			}
		case "split":
			ms := o.m.Split(st.P.Caps(o.m.Text()), st.B)
			ls, err := o.l.Split(st.P.Lib(), normalizedstring.SplitDelimiterBehavior(st.B))
			if err != nil {
				return err
			}
			ls = dropEmpty(ls)
			if len(ls) != len(ms) {
				return fmt.Errorf("split: pieces %+q, want %+q", texts(ls), mtexts(ms))
			}
			for j := range ls {
				if len(objs) < 12 {
					objs = append(objs, obj{ls[j], ms[j]})
				}
			}
			ctx.Label("split")
		case "read":
			o.l.OriginalAlignments()
			o.l.GetRange(normalizedstring.NewOriginalRange(0, o.l.OriginalLen()))
			o.l.GetOriginalRange(normalizedstring.NewNormalizedRange(0, o.l.Len()))
		}
		for j, x := range objs {
			if err := cmpAll(x.l, x.m); err != nil {
				return fmt.Errorf("after step %d (%s %s on object %d), object %d: %w", i, st.K, st.Op.K, k, j, err)
			}
			if x.m.Shift+len(x.m.Orig) > len(g.Text) || string(g.Text)[x.m.Shift:x.m.Shift+len(x.m.Orig)] != x.l.GetOriginal() {
				return fmt.Errorf("object %d: original %+q is not the input at its offsets", j, x.l.GetOriginal())
			}
		}
	}
	return nil
}

// ---- C04 / C05: ranges ----

// RangeCase is a history and some ranges to ask for (relative positions; all
// ranges are asked for when the text is short).
type RangeCase struct {
	H    Hist
	Q    [][2]int
	Each bool `json:",omitempty"` // ask after every edit, not only after the last
}

func drawRanges(t *rapid.T) RangeCase {
	c := RangeCase{H: drawHist(gen.HistKinds, 4)(t), Each: rapid.IntRange(0, 2).Draw(t, "each") == 2}
	for range rapid.IntRange(1, 6).Draw(t, "nq") {
		c.Q = append(c.Q, [2]int{rapid.IntRange(0, 200).Draw(t, "qa"), rapid.IntRange(0, 60).Draw(t, "qb")})
	}
	return c
}

// pairs lists the (start, end) pairs to ask about a text of length n,
// including reversed and out-of-range ones.
func pairs(n int, q [][2]int) [][2]int {
	var out [][2]int
	if n <= 14 {
		for a := -2; a <= n+2; a++ {
			for b := -2; b <= n+2; b++ {
				out = append(out, [2]int{a, b})
			}
		}
		return out
	}
	for _, p := range q {
		a := p[0] % (n + 1)
		b := a + p[1]%(n+1-a)
		out = append(out, [2]int{a, b}, [2]int{0, b}, [2]int{a, n}, [2]int{b, a}, [2]int{a, n + 1}, [2]int{n + 1, n + 2 + p[1]}, [2]int{a - n - 1, b}, [2]int{a, a + 1}, [2]int{n, n}, [2]int{0, n})
	}
	return out
}

func checkRanges(ctx *Ctx, c RangeCase) error {
	var each func(kind string, l *NSt, m *ref.NS) error
	if c.Each && len(c.H.Ops) < 10 {
		ctx.Label("asked after every edit")
		each = func(kind string, l *NSt, m *ref.NS) error { return askRanges(ctx, c, l, m) }
		if err := askRanges(ctx, c, normalizedstring.FromString(string(c.H.Text)), ref.FromString(string(c.H.Text))); err != nil {
			return err
		}
	}
	l, m, err := applyAll(c.H, each)
	if err != nil {
		return err
	}
	ctx.NonTrivialIf(m.Text() != m.Orig && m.Text() != "")
	ctx.LabelIf(m.Text() == "" && m.Orig != "", "emptied")
	return askRanges(ctx, c, l, m)
}

// askRanges asks for ranges of a string.
func askRanges(ctx *Ctx, c RangeCase, l *NSt, m *ref.NS) error {
	if err := cmpText(l, m); err != nil {
		return err
	}
	t, o := m.Text(), m.Orig
	inside := func(p [2]int, n int) bool { return 0 <= p[0] && p[0] <= p[1] && p[1] <= n }

	for _, p := range pairs(len(t), c.Q) {
		rng := normalizedstring.NewNormalizedRange(p[0], p[1])
		// retrieval in its own referential
		got, ok := l.GetRange(rng)
		if inside(p, len(t)) != ok || (ok && got != t[p[0]:p[1]]) {
			return fmt.Errorf("GetRange(normalized %v) of %+q gives %+q %v", p, t, got, ok)
		}
		if nr, nok := l.CoerceRangeToNormalized(rng); inside(p, len(t)) && (!nok || nr != rng) {
			return fmt.Errorf("CoerceRangeToNormalized(normalized %v) of %+q gives %v %v", p, t, nr, nok)
		}
		// conversion to the original
		og, ook := l.GetOriginalRange(rng)
		or, cok := l.CoerceRangeToOriginal(rng)
		switch {
		case inside(p, len(t)) && p[0] < p[1]:
			s, e := m.NormToOrig(p[0], p[1])
			if !cok || or.Start() != s || or.End() != e {
				return fmt.Errorf("CoerceRangeToOriginal(normalized %v) of %+q (original %+q) gives %v %v, want [%d %d]", p, t, o, or, cok, s, e)
			}
			if !ook || og != o[s:e] {
				return fmt.Errorf("GetOriginalRange(normalized %v) of %+q (original %+q) gives %+q %v", p, t, o, og, ook)
			}
			ctx.Label("to original")
		case p[0] == p[1]:
			if og != "" {
				return fmt.Errorf("GetOriginalRange(empty normalized %v) of %+q gives %+q", p, t, og)
			}
		default:
			if ook {
				return fmt.Errorf("GetOriginalRange(normalized %v) of %+q (length %d) does not fail, gives %+q", p, t, len(t), og)
			}
		}
	}
	for _, p := range pairs(len(o), c.Q) {
		rng := normalizedstring.NewOriginalRange(p[0], p[1])
		got, ok := l.GetOriginalRange(rng)
		if inside(p, len(o)) != ok || (ok && got != o[p[0]:p[1]]) {
			return fmt.Errorf("GetOriginalRange(original %v) of %+q gives %+q %v", p, o, got, ok)
		}
		if r, rok := l.CoerceRangeToOriginal(rng); inside(p, len(o)) && (!rok || r != rng) {
			return fmt.Errorf("CoerceRangeToOriginal(original %v) of %+q gives %v %v", p, o, r, rok)
		}
		ng, nok := l.GetRange(rng)
		nr, cok := l.CoerceRangeToNormalized(rng)
		switch {
		case inside(p, len(o)) && p[0] < p[1]:
			s, e, found, lo, hi := m.OrigToNorm(p[0], p[1])
			if found {
				if !cok || nr.Start() != s || nr.End() != e {
					return fmt.Errorf("CoerceRangeToNormalized(original %v) of %+q (original %+q) gives %v %v, want [%d %d]", p, t, o, nr, cok, s, e)
				}
				if !nok || ng != t[s:e] {
					return fmt.Errorf("GetRange(original %v) of %+q gives %+q %v", p, t, ng, nok)
				}
				ctx.Label("to normalized")
			} else {
				ctx.Label("all removed")
				if cok && (nr.Start() != nr.End() || nr.Start() < lo || nr.Start() > hi) {
					return fmt.Errorf("CoerceRangeToNormalized(original %v) of %+q (original %+q): nothing remains of it, yet gives %v (empty place in [%d %d])", p, t, o, nr, lo, hi)
				}
				if ng != "" {
					return fmt.Errorf("GetRange(original %v) of %+q (original %+q): nothing remains of it, yet gives %+q", p, t, o, ng)
				}
			}
		case p[0] == p[1]:
			if ng != "" {
				return fmt.Errorf("GetRange(empty original %v) of %+q gives %+q", p, t, ng)
			}
		case p[0] > p[1]:
			if nok {
				return fmt.Errorf("GetRange(reversed original %v) of %+q does not fail", p, t)
			}
		}
	}
	return cmpAll(l, m)
}

func checkSlices(ctx *Ctx, c RangeCase) error {
	nested, edited := 0, false
	root := string(c.H.Text)
	prev := root
	verify := func(l *NSt, m *ref.NS) error {
		if err := cmpAll(l, m); err != nil {
			return err
		}
		if root[m.Shift:m.Shift+len(m.Orig)] != l.GetOriginal() {
			return fmt.Errorf("original %+q is not the input at offsets %v", l.GetOriginal(), l.OriginalOffsets())
		}
		return nil
	}
	each := c.Each && len(c.H.Ops) < 10
	ctx.LabelIf(each, "cut after every edit")
	l, m, err := applyAll(c.H, func(kind string, l *NSt, m *ref.NS) error {
		if kind != "slice" {
			edited = edited || m.Text() != prev
			prev = m.Text()
			if each {
				return askSlices(c, l, m, verify)
			}
			return nil
		}
		nested++
		prev = m.Text()
		return verify(l, m)
	})
	if err != nil {
		return err
	}
	ctx.NonTrivialIf(nested > 1 || (edited && m.Text() != ""))
	ctx.Label(fmt.Sprintf("nested=%d", nested))
	return askSlices(c, l, m, verify)
}

// askSlices takes slices of a string.
func askSlices(c RangeCase, l *NSt, m *ref.NS, verify func(l *NSt, m *ref.NS) error) error {
	t, o := m.Text(), m.Orig
	valid := func(s string, p [2]int) bool {
		return 0 <= p[0] && p[0] <= p[1] && p[1] <= len(s) && boundaryRef(s, p[0]) && boundaryRef(s, p[1])
	}
	for _, p := range pairs(len(t), c.Q) {
		sl, ok := l.Slice(normalizedstring.NewNormalizedRange(p[0], p[1]))
		if !valid(t, p) {
			if ok {
				return fmt.Errorf("Slice(normalized %v) of %+q is not refused", p, t)
			}
			continue
		}
		if p[0] == p[1] {
			if ok && (sl.Get() != "" || sl.GetOriginal() != "") {
				return fmt.Errorf("Slice(empty normalized %v) of %+q holds %+q, original %+q", p, t, sl.Get(), sl.GetOriginal())
			}
			continue
		}
		if !ok {
			return fmt.Errorf("Slice(normalized %v) of %+q is refused", p, t)
		}
		if err := verify(sl, m.Slice(p[0], p[1])); err != nil {
			return fmt.Errorf("Slice(normalized %v) of %+q (original %+q): %w", p, t, o, err)
		}
	}
	for _, p := range pairs(len(o), c.Q) {
		sl, ok := l.Slice(normalizedstring.NewOriginalRange(p[0], p[1]))
		if !valid(o, p) {
			if ok {
				return fmt.Errorf("Slice(original %v) of %+q is not refused", p, o)
			}
			continue
		}
		if p[0] == p[1] {
			continue
		}
		want, some := m.SliceOrig(p[0], p[1])
		if !some && !ok {
			continue
		}
		if !ok {
			return fmt.Errorf("Slice(original %v) of %+q (original %+q) is refused", p, t, o)
		}
		if err := verify(sl, want); err != nil {
			return fmt.Errorf("Slice(original %v) of %+q (original %+q): %w", p, t, o, err)
		}
	}
	return cmpAll(l, m)
}

func boundaryRef(s string, i int) bool {
	for p := range s {
		if p >= i {
			return p == i
		}
	}
	return i == len(s)
}

// ---- C06 ----

// Script is a text cut by a scripted pattern: Cuts lists the lengths (in
// characters) and flags of its captures.
type Script struct {
	H    Hist
	Cuts []Cut
	B    int
}

// Cut is one capture of a scripted pattern.
type Cut struct {
	N int
	M bool
}

func drawScript(t *rapid.T) Script {
	c := Script{H: drawHist(gen.HistKinds, 3)(t), B: rapid.IntRange(0, 4).Draw(t, "b")}
	one := rapid.Bool().Draw(t, "ones")
	for range rapid.IntRange(0, 10).Draw(t, "ncuts") {
		k := Cut{N: 1, M: rapid.Bool().Draw(t, "m")}
		if !one {
			k.N = rapid.IntRange(0, 3).Draw(t, "n")
			if k.N == 0 {
				k.M = true
			}
		}
		c.Cuts = append(c.Cuts, k)
	}
	return c
}

func enumScript(tier string, yield func(Script) bool) {
	n := 5
	if tier == "thorough" {
		n = 8
	}
	for l := 1; l <= n; l++ {
		for bits := 0; bits < 1<<l; bits++ {
			for b := 0; b < 5; b++ {
				var cuts []Cut
				text := ""
				for i := 0; i < l; i++ {
					cuts = append(cuts, Cut{1, bits>>i&1 == 1})
					text += []string{"é", "b", "你", "😀"}[i%4]
				}
				if !yield(Script{H: Hist{Text: S(text)}, Cuts: cuts, B: b}) {
					return
				}
			}
		}
	}
}

type scripted struct{ caps []splitpattern.Capture }

func (s scripted) FindMatches(string) ([]splitpattern.Capture, error) {
	return append([]splitpattern.Capture(nil), s.caps...), nil
}

func libCaps(caps []ref.Cap) []splitpattern.Capture {
	var out []splitpattern.Capture
	for _, c := range caps {
		out = append(out, splitpattern.Capture{Offsets: strutils.ByteOffsets{Start: c.S, End: c.E}, IsMatch: c.M})
	}
	return out
}

func refCaps(caps []splitpattern.Capture) []ref.Cap {
	var out []ref.Cap
	for _, c := range caps {
		out = append(out, ref.Cap{S: c.Offsets.Start, E: c.Offsets.End, M: c.IsMatch})
	}
	return out
}

func scriptCaps(cuts []Cut, t string) []ref.Cap {
	chars := ref.Chars(t)
	p := 0
	var caps []ref.Cap
	for _, c := range cuts {
		e := p
		k := min(c.N, len(chars))
		if k == 0 && c.N > 0 {
			continue
		}
		for _, x := range chars[:k] {
			e += len(x)
		}
		chars = chars[k:]
		caps = append(caps, ref.Cap{S: p, E: e, M: c.M})
		p = e
	}
	if p < len(t) || len(caps) == 0 {
		caps = append(caps, ref.Cap{S: p, E: len(t)})
	}
	return caps
}

func checkScript(ctx *Ctx, c Script) error {
	l, m, err := applyAll(c.H, nil)
	if err != nil {
		return err
	}
	caps := scriptCaps(c.Cuts, m.Text())
	flagged := 0
	for _, x := range caps {
		if x.M {
			flagged++
		}
	}
	ctx.NonTrivialIf(len(caps) > 1 && flagged > 0)
	ctx.Label(fmt.Sprintf("behaviour=%d", c.B))
	return splitBoth(l, m, scripted{libCaps(caps)}, caps, c.B)
}

func splitBoth(l *NSt, m *ref.NS, sp splitpattern.SplitPattern, caps []ref.Cap, b int) error {
	ls, err := l.Split(sp, normalizedstring.SplitDelimiterBehavior(b))
	if err != nil {
		return fmt.Errorf("Split of %+q: unexpected error %v", m.Text(), err)
	}
	for _, x := range ls {
		if x == nil {
			return fmt.Errorf("Split of %+q returns nil", m.Text())
		}
	}
	want := []string{}
	for _, p := range ref.AllPieces(caps, b) {
		want = append(want, m.Text()[p[0]:p[1]])
	}
	if !slices.Equal(texts(ls), want) {
		return fmt.Errorf("Split of %+q, behaviour %d, captures %v: pieces %+q, want %+q", m.Text(), b, caps, texts(ls), want)
	}
	if err := cmpList(fmt.Sprintf("Split of %+q, behaviour %d, captures %v", m.Text(), b, caps), dropEmpty(ls), m.Split(caps, b)); err != nil {
		return err
	}
	return cmpAll(l, m)
}

// SplitCase cuts with a real pattern.
type SplitCase struct {
	H Hist
	P gen.Pat
	B int
}

func drawSplit(t *rapid.T) SplitCase {
	h := drawHist(gen.HistKinds, 3)(t)
	return SplitCase{H: h, P: gen.Pattern(t, string(h.Text)), B: rapid.IntRange(0, 4).Draw(t, "b")}
}

func checkSplit(ctx *Ctx, c SplitCase) error {
	l, m, err := applyAll(c.H, nil)
	if err != nil {
		return err
	}
	caps := c.P.Caps(m.Text())
	match, gap := false, false
	for _, x := range caps {
		match, gap = match || x.M, gap || !x.M
	}
	ctx.NonTrivialIf(match && gap)
	ctx.Label(fmt.Sprintf("behaviour=%d", c.B))
	ctx.Label(c.P.Kind)
	return splitBoth(l, m, c.P.Lib(), caps, c.B)
}

// drawCutAgain draws a history in which edits of a few characters, that often
// keep the length, alternate with cuts.
func drawCutAgain(t *rapid.T) SplitCase {
	s := gen.NonEmptyText(t)
	c := SplitCase{H: Hist{Text: S(s)}, P: gen.Pattern(t, s), B: rapid.IntRange(0, 4).Draw(t, "b")}
	for range rapid.IntRange(1, 4).Draw(t, "n") {
		o := gen.DrawOp(t, s, gen.EditKinds)
		switch rapid.IntRange(0, 4).Draw(t, "edit") {
		case 0, 1: // one character for another of its size, here and there
			r := gen.RuneOf(t, s)
			o = gen.Op{K: "replace", P: &gen.Pat{Kind: "rune", R: r}, S: S(string(gen.SameSize(t, r)))}
		case 2: // what the pattern matches
			p := c.P
			o = gen.Op{K: "replace", P: &p, S: S(rapid.SampledFrom([]string{"", "a", "-", " ", "é", "xy"}).Draw(t, "by"))}
		}
		c.H.Ops = append(c.H.Ops, o)
	}
	return c
}

func checkCutAgain(ctx *Ctx, c SplitCase) error {
	sp := c.P.Lib()
	var both, changed bool
	prev := string(c.H.Text)
	cut := func(kind string, l *NSt, m *ref.NS) error {
		caps := c.P.Caps(m.Text())
		match, gap := false, false
		for _, x := range caps {
			match, gap = match || x.M, gap || !x.M
		}
		both = both || (match && gap)
		ctx.LabelIf(m.Text() != prev && len(m.Text()) == len(prev), "changed, same length")
		changed = changed || m.Text() != prev
		prev = m.Text()
		return splitBoth(l, m, sp, caps, c.B)
	}
	ops := c.H.Ops
	l, m := normalizedstring.FromString(prev), ref.FromString(prev)
	if err := cut("", l, m); err != nil {
		return err
	}
	for i, o := range ops {
		if o.P != nil && *o.P == c.P {
			o.Lib = sp
		}
		var kind string
		var err error
		if l, m, kind, err = gen.Apply(o, l, m); err != nil {
			return err
		}
		if err := cut(kind, l, m); err != nil {
			return fmt.Errorf("after edit %d: %w", i, err)
		}
	}
	ctx.NonTrivialIf(both && changed)
	return nil
}
