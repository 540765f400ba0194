package props

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
	"pgregory.net/rapid"

	"verif/harness/engine"
	"verif/harness/gen"
	"verif/harness/ref"
)

// ---- C21 ----

// VocabCase adds terms to an empty or loaded vocabulary.
type VocabCase struct {
	Load  bool
	Terms []S `json:",omitempty"` // loaded, with
	IDs   []int
	Style int
	Add   []S
}

func drawVocab(t *rapid.T) VocabCase {
	c := VocabCase{Load: rapid.Bool().Draw(t, "load")}
	var pool []string
	for range rapid.IntRange(1, 6).Draw(t, "npool") {
		pool = append(pool, gen.ShortText(t))
	}
	pool = append(pool, "", "a", "A")
	if c.Load {
		used := map[int]bool{}
		have := map[string]bool{}
		for range rapid.IntRange(0, 6).Draw(t, "nload") {
			s := rapid.SampledFrom(pool).Draw(t, "term")
			id := rapid.IntRange(0, 9).Draw(t, "id")
			switch rapid.IntRange(0, 9).Draw(t, "idk") {
			case 0:
				id = -id
			case 1:
				id += rapid.SampledFrom([]int{1 << 40, 1<<53 + 1, 1 << 31, 1 << 32, math.MaxInt - 10, math.MinInt, 1 << 16, 1000}).Draw(t, "far")
			}
			if have[s] || used[id] {
				continue
			}
			have[s], used[id] = true, true
			c.Terms, c.IDs = append(c.Terms, S(s)), append(c.IDs, id)
		}
		c.Style = rapid.IntRange(0, 3).Draw(t, "style")
	}
	for range rapid.IntRange(0, 12).Draw(t, "nadd") {
		c.Add = append(c.Add, S(rapid.SampledFrom(pool).Draw(t, "add")))
	}
	return c
}

func escape(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		if r >= 0x10000 {
			r -= 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04X`, 0xD800+r>>10, 0xDC00+r&0x3FF)
			continue
		}
		fmt.Fprintf(&b, `\u%04x`, r)
	}
	b.WriteByte('"')
	return b.String()
}

func (c VocabCase) json() string {
	var parts []string
	sep := ": "
	for i, t := range c.Terms {
		k, _ := json.Marshal(string(t))
		key := string(k)
		if c.Style == 1 {
			key = escape(string(t))
		}
		if c.Style == 2 {
			sep = "\n:\t"
		}
		parts = append(parts, key+sep+strconv.Itoa(c.IDs[i]))
	}
	s := "{" + strings.Join(parts, ", ") + "}"
	if c.Style == 3 {
		s = "\n  " + s + "\n\n"
	}
	return s
}

func checkVocab(ctx *Ctx, c VocabCase) error {
	v := vocabulary.NewVocabulary()
	byTerm, byID := map[string]int{}, map[int]string{}
	if c.Load {
		var err error
		withFile(c.json(), func(path string) { v, err = vocabulary.FromJSONFile(path) })
		if err != nil {
			return fmt.Errorf("loading %s: unexpected error %v", c.json(), err)
		}
		for i, t := range c.Terms {
			byTerm[string(t)], byID[c.IDs[i]] = c.IDs[i], string(t)
		}
	}
	probes := map[string]bool{"": true, "a": true, "zz": true, "A": true, "\x00": true}
	for _, t := range append(append([]S(nil), c.Terms...), c.Add...) {
		probes[string(t)] = true
		probes[string(t)+" "] = true
		probes[strings.ToUpper(string(t))] = true
	}
	ids := map[int]bool{1 << 40: true}
	for i := -3; i < 30; i++ {
		ids[i] = true
	}
	for _, id := range c.IDs {
		ids[id], ids[id+1], ids[id-1] = true, true, true
	}
	look := func() error {
		if v.Size() != len(byTerm) {
			return fmt.Errorf("size %d, want %d", v.Size(), len(byTerm))
		}
		for t := range probes {
			want, ok := byTerm[t]
			id, got := v.GetID(t)
			if got != ok || (ok && id != want) {
				return fmt.Errorf("GetID(%+q) = %d, %v, want %d, %v", t, id, got, want, ok)
			}
		}
		for id := range ids {
			want, ok := byID[id]
			t, got := v.GetString(id)
			if got != ok || (ok && t != want) {
				return fmt.Errorf("GetString(%d) = %+q, %v, want %+q, %v", id, t, got, want, ok)
			}
		}
		return nil
	}
	if err := look(); err != nil {
		return fmt.Errorf("%s: %w", js(c), err)
	}
	for i, t := range c.Add {
		if _, ok := byTerm[string(t)]; ok {
			ctx.Label("added again")
		} else {
			id := len(byTerm)
			if _, taken := byID[id]; taken {
				ctx.Label("size already taken as id")
			}
			for {
				if _, taken := byID[id]; !taken {
					break
				}
				id++
			}
			byTerm[string(t)], byID[id] = id, string(t)
			ctx.LabelIf(c.Load && len(c.Terms) > 0, "new term in a loaded vocabulary")
		}
		v.AddTerm(string(t))
		if err := look(); err != nil {
			return fmt.Errorf("%s, after addition %d: %w", js(c), i, err)
		}
	}
	ctx.NonTrivialIf(len(c.Add) > 1 && len(byTerm) > 1)
	return nil
}

// BadJSON is a file that is not a vocabulary.
type BadJSON struct {
	Content S
	Kind    string `json:",omitempty"` // "", missing, directory, unreadable
}

func drawBadJSON(t *rapid.T) BadJSON {
	c := VocabCase{Load: true}
	seen := map[string]bool{}
	for range rapid.IntRange(1, 4).Draw(t, "n") {
		s := gen.ShortText(t)
		if !seen[s] {
			seen[s] = true
			c.Terms, c.IDs = append(c.Terms, S(s)), append(c.IDs, rapid.IntRange(0, 99).Draw(t, "id"))
		}
	}
	c.Style = rapid.IntRange(0, 3).Draw(t, "style")
	good := c.json()
	k := strings.LastIndexAny(good, "0123456789")
	switch rapid.IntRange(0, 8).Draw(t, "bad") {
	case 0: // truncated
		trim := strings.TrimSpace(good)
		return BadJSON{Content: S(trim[:rapid.IntRange(0, len(trim)-1).Draw(t, "at")])}
	case 1:
		return BadJSON{Content: S(good + rapid.SampledFrom([]string{"}", "x", "{}", ",", "1"}).Draw(t, "tail"))}
	case 2: // a value that is no integer
		bad := rapid.SampledFrom([]string{`"x"`, "1.5", "true", "[]", "{}", "null", "99999999999999999999", "9223372036854775808", "1e2", "1.0", "-", "0x10", "--1", `"1"`, "01"}).Draw(t, "val")
		i := k
		for i > 0 && good[i-1] >= '0' && good[i-1] <= '9' {
			i--
		}
		return BadJSON{Content: S(good[:i] + bad + good[k+1:])}
	case 3:
		return BadJSON{Content: S(rapid.SampledFrom([]string{"", " ", "[]", `"a"`, "1", "true", `["a","b"]`, `{"a":}`, "{a:1}", `{"a" 1}`, `{'a':1}`, `[{"a":1}]`, `{"a":1,}`, `{"a":null}`, `{"a":0,"b":null}`, "a 1\nb 2\n"}).Draw(t, "whole"))}
	case 4:
		return BadJSON{Kind: "missing"}
	case 5:
		return BadJSON{Kind: "directory"}
	case 6: // raw control character or bare key
		return BadJSON{Content: S(strings.Replace(good, `"`, rapid.SampledFrom([]string{"", "'", "\"\n"}).Draw(t, "q"), 1))}
	default: // lost colon or brace
		cut := rapid.SampledFrom([]string{"{", "}", ":"}).Draw(t, "cut")
		i := strings.Index(good, cut)
		if cut == "}" {
			i = strings.LastIndex(good, cut)
		}
		return BadJSON{Content: S(good[:i] + good[i+1:])}
	}
}

func checkBadJSON(ctx *Ctx, c BadJSON) error {
	if c.Kind == "" {
		// the oracle for malformed: independent strict decoding
		var m map[string]json.Number
		d := json.NewDecoder(strings.NewReader(string(c.Content)))
		d.UseNumber()
		bad := d.Decode(&m) != nil || m == nil
		if !bad {
			_, err := d.Token()
			bad = err == nil || err.Error() != "EOF"
		}
		if !bad {
			var raw map[string]json.RawMessage
			bad = json.Unmarshal([]byte(c.Content), &raw) != nil
			for k, n := range m {
				_, err := strconv.ParseInt(n.String(), 10, 64)
				bad = bad || err != nil || string(raw[k]) == "null" || strings.HasPrefix(strings.TrimSpace(string(raw[k])), `"`)
			}
		}
		if !bad {
			ctx.Label("still well-formed")
			return nil
		}
	}
	ctx.NonTrivial()
	ctx.Label("kind " + c.Kind)
	var v *vocabulary.Vocabulary
	var err error
	switch c.Kind {
	case "missing":
		v, err = vocabulary.FromJSONFile(filepath.Join(scratch(), "verif-no-such-file"))
	case "directory":
		v, err = vocabulary.FromJSONFile(scratch())
	default:
		withFile(string(c.Content), func(path string) { v, err = vocabulary.FromJSONFile(path) })
	}
	if strings.TrimSpace(string(c.Content)) == "null" && err == nil {
		// accepted as an empty vocabulary: then it has to work
		v.AddTerm("x")
		if id, ok := v.GetID("x"); !ok || id != 0 || v.Size() != 1 {
			return fmt.Errorf("vocabulary loaded from null does not work")
		}
		return nil
	}
	if err == nil {
		return fmt.Errorf("loading %+q (%s) gives no error (vocabulary of %d)", string(c.Content), c.Kind, v.Size())
	}
	return nil
}

func scratch() string {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

// ---- C22 ----

// MFile is a merge file.
type MFile struct {
	V     Vocab
	Lines []S
	CRLF  bool `json:",omitempty"`
	NoEOL bool `json:",omitempty"`
	N     int
	Kind  string `json:",omitempty"`
}

func drawMFile(t *rapid.T) MFile {
	c := MFile{N: rapid.SampledFrom([]int{0, 0, 0, 2, 1, 3}).Draw(t, "plen")}
	if rapid.IntRange(0, 60).Draw(t, "kind") == 0 {
		c.Kind = rapid.SampledFrom([]string{"missing", "directory"}).Draw(t, "k")
		return c
	}
	nospace := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r == ' ' || r == '\n' {
				return '_'
			}
			return r
		}, s)
	}
	n := rapid.IntRange(1, 4).Draw(t, "nbase")
	for range n {
		s := nospace(string(gen.Rune(t)))
		if rapid.IntRange(0, 19).Draw(t, "cr") == 0 {
			s += "\r" // part of the term, but for one in front of a line feed
		}
		c.V.add(s)
		if c.N == 2 {
			c.V.add("##" + s)
		}
	}
	if rapid.IntRange(0, 9).Draw(t, "hash") == 0 {
		c.V.add("#ver")
		c.V.add("sion")
		c.V.add("#version")
	}
	clean := rapid.IntRange(0, 2).Draw(t, "clean") > 0
	for range rapid.IntRange(0, 8).Draw(t, "nl") {
		pick := func(nm string) string {
			return string(c.V.Terms[rapid.IntRange(0, len(c.V.Terms)-1).Draw(t, nm)])
		}
		k := rapid.IntRange(0, 19).Draw(t, "line")
		if clean && k >= 13 && k != 16 {
			k = 0
		}
		l, r := pick("l"), pick("r")
		switch {
		case k < 13:
			if len(r) < c.N && clean {
				continue
			}
			if len(r) >= c.N && len(l)+len(r) < 40 {
				c.V.add(l + r[c.N:])
			}
			c.Lines = append(c.Lines, S(l+" "+r))
		case k == 13:
			c.Lines = append(c.Lines, S(rapid.SampledFrom([]string{"", " ", "  ", l, l + "  " + r, l + " " + r + " ", " " + l + " " + r, l + " " + r + " " + l, l + "\t" + r, " " + l, l + " ", " #version", "# version 1", "version"}).Draw(t, "malformed")))
		case k == 14: // merged term not in the vocabulary (perhaps)
			c.Lines = append(c.Lines, S(l+" "+r))
		case k == 15:
			c.Lines = append(c.Lines, S(rapid.SampledFrom([]string{l + " q§", "q§ " + r, "q§ §q"}).Draw(t, "oov")))
		case k == 16:
			c.Lines = append(c.Lines, S(rapid.SampledFrom([]string{"#version: 0.2", "#version", "#versions of a b", "#version: 0.2 - Trained by `huggingface/tokenizers`"}).Draw(t, "version")))
		case k == 17 && len(c.Lines) > 0: // duplicate
			c.Lines = append(c.Lines, c.Lines[rapid.IntRange(0, len(c.Lines)-1).Draw(t, "dup")])
		default:
			c.Lines = append(c.Lines, S(l+" "+r))
			if len(r) >= c.N {
				c.V.add(l + r[c.N:])
			}
		}
	}
	if rapid.IntRange(0, 9).Draw(t, "again") == 0 && len(c.Lines) > 0 {
		c.Lines = append(c.Lines, c.Lines[0])
	}
	if rapid.IntRange(0, 60).Draw(t, "longline") == 0 && clean {
		long := strings.Repeat("x", rapid.SampledFrom([]int{2000, 5000, 20000, 33000, 70000}).Draw(t, "ll"))
		c.V.add(long)
		c.V.add(long + long[c.N:])
		c.Lines = append(c.Lines, S(long+" "+long))
	}
	c.NoEOL = rapid.IntRange(0, 3).Draw(t, "noeol") == 0
	if n := len(c.Lines); c.NoEOL && n > 0 && (c.Lines[n-1] == "" || strings.HasSuffix(string(c.Lines[n-1]), "\r")) {
		c.NoEOL = false
	}
	c.CRLF = rapid.IntRange(0, 7).Draw(t, "crlf") == 0
	c.V.drawIDs(t)
	return c
}

// content writes the lines.
func (c MFile) content() string {
	var b strings.Builder
	for i, l := range c.Lines {
		b.WriteString(string(l))
		if i+1 < len(c.Lines) || !c.NoEOL {
			if c.CRLF && (i%2 == 0 || len(c.Lines)%2 == 0) {
				b.WriteString("\r")
			}
			b.WriteString("\n")
		}
	}
	return b.String()
}

// want gives the table, or the number of the offending line.
func (c MFile) want() (map[[2]int]ref.Merge, int, string) {
	v := c.V.ref()
	t := map[[2]int]ref.Merge{}
	rank := 0
	lines := strings.SplitAfter(c.content(), "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for i, l := range lines {
		if strings.HasSuffix(l, "\n") {
			l = strings.TrimSuffix(l[:len(l)-1], "\r")
		}
		if strings.HasPrefix(l, "#version") {
			continue
		}
		if strings.Count(l, " ") != 1 {
			return nil, i + 1, "malformed"
		}
		a, b, _ := strings.Cut(l, " ")
		ia, ok1 := v[a]
		ib, ok2 := v[b]
		if !ok1 || !ok2 {
			return nil, i + 1, "term out of vocabulary"
		}
		if len(b) < c.N {
			return nil, i + 1, "term shorter than the prefix"
		}
		id, ok := v[a+b[c.N:]]
		if !ok {
			return nil, i + 1, "merged term out of vocabulary"
		}
		t[[2]int{ia, ib}] = ref.Merge{L: ia, R: ib, Rank: rank, ID: id}
		rank++
	}
	return t, 0, ""
}

var number = regexp.MustCompile(`\d+`)

func checkMFile(ctx *Ctx, c MFile) error {
	v := c.V.lib()
	var mm *bpemodel.MergeMap
	var err error
	var content string
	switch c.Kind {
	case "missing":
		mm, err = bpemodel.MergeMapFromFile(filepath.Join(scratch(), "verif-no-such-file"), v, c.N)
	case "directory":
		mm, err = bpemodel.MergeMapFromFile(scratch(), v, c.N)
	default:
		content = c.content()
		withFile(content, func(path string) { mm, err = bpemodel.MergeMapFromFile(path, v, c.N) })
	}
	if c.Kind != "" {
		ctx.Label(c.Kind)
		if err == nil || mm != nil {
			return fmt.Errorf("%s file: error %v, table %v", c.Kind, err, mm)
		}
		return nil
	}
	table, line, why := c.want()
	what := fmt.Sprintf("file %+q, prefix length %d, vocabulary %+q", head(content, 400), c.N, head(fmt.Sprint(ref.SortedTerms(c.V.ref())), 400))
	if line > 0 {
		ctx.Label("error: " + why)
		ctx.NonTrivialIf(line > 1)
		if err == nil {
			return fmt.Errorf("%s: no error, line %d is bad: %s", what, line, why)
		}
		if mm != nil {
			return fmt.Errorf("%s: a table comes with the error %v", what, err)
		}
		for _, n := range number.FindAllString(err.Error(), -1) {
			if n == strconv.Itoa(line) {
				return nil
			}
		}
		return fmt.Errorf("%s: error %q does not name line %d", what, err, line)
	}
	if err != nil || mm == nil {
		return fmt.Errorf("%s: unexpected error %v", what, err)
	}
	ctx.NonTrivialIf(len(table) > 1)
	ctx.LabelIf(len(table) > 1, "several merges")
	ctx.LabelIf(c.N > 0 && len(table) > 0, "prefix cut")
	if len(*mm) != len(table) {
		return fmt.Errorf("%s: table of %d pairs, want %d", what, len(*mm), len(table))
	}
	ids := []int{}
	for _, id := range c.V.ref() {
		ids = append(ids, id)
	}
	for _, a := range ids {
		for _, b := range ids {
			m, ok := mm.Get(a, b)
			w, wok := table[[2]int{a, b}]
			if ok != wok || (ok && (m.Rank != w.Rank || m.ID != w.ID)) {
				return fmt.Errorf("%s: pair (%d, %d): %+v, %v, want %+v, %v", what, a, b, m, ok, w, wok)
			}
		}
	}
	// using the file changes nothing in the vocabulary
	if v.Size() != len(c.V.ref()) {
		return fmt.Errorf("%s: vocabulary changed", what)
	}
	return nil
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- C23 ----

// Conv is a text whose every index and byte range is asked about.
type Conv struct{ Text S }

func checkConv(ctx *Ctx, c Conv) error {
	s := string(c.Text)
	ctx.NonTrivialIf(multibyte(s))
	bound := map[int]bool{len(s): true}
	idx := make([]int, len(s)+1) // byte -> character containing it
	n := 0
	for i, r := range s {
		bound[i] = true
		for k := range utf8.RuneLen(r) {
			idx[i+k] = n
		}
		n++
	}
	idx[len(s)] = n
	for i := -3; i <= len(s)+3; i++ {
		want := i >= 0 && i <= len(s) && bound[i]
		if got := strutils.IsRuneBoundary(s, i); got != want {
			return fmt.Errorf("IsRuneBoundary(%+q, %d) = %v", s, i, got)
		}
	}
	runes := []rune(s)
	conv := strutils.NewBytesToRuneOffsetConverter(s)
	for a := 0; a <= len(s); a++ {
		for b := a; b <= len(s); b++ {
			if len(s) > 80 && b > a+1 && b < len(s) { // some of the ranges of a long text
				b = min(len(s), b+(a+b)%len(s))
			}
			got := conv.Convert(strutils.ByteOffsets{Start: a, End: b})
			if got.Start != idx[a] || got.End != idx[b] {
				return fmt.Errorf("bytes [%d %d] of %+q convert to %v, want [%d %d]", a, b, s, got, idx[a], idx[b])
			}
			if bound[a] && bound[b] && b-a < 500 && string(runes[got.Start:got.End]) != s[a:b] {
				return fmt.Errorf("bytes [%d %d] of %+q convert to %v", a, b, s, got)
			}
		}
	}
	return nil
}

func init() {
	engine.Register("C21",
		engine.F("history", "at least two additions and two terms", 80000, 2500000, drawVocab, checkVocab),
		engine.Enum(engine.F("large", "every case: thousands of terms", 0, 0, nil, checkBigVocab), enumBigVocab),
		engine.F("bad-files", "the file is not a vocabulary by an independent decoding", 40000, 1000000, drawBadJSON, checkBadJSON),
	)
	engine.Register("C22",
		engine.F("files", "at least two merges load, or a line after the first is bad", 80000, 2500000, drawMFile, checkMFile),
		engine.Enum(engine.F("large", "every case: thousands of lines", 0, 0, nil, checkBigMerges), enumBigMerges),
	)
	engine.Register("C23",
		engine.Enum(engine.F("texts", "the text has a multi-byte character", 400000, 4000000, func(t *rapid.T) Conv { return Conv{S(gen.Text(t))} }, checkConv),
			func(tier string, yield func(Conv) bool) {
				n := 5
				if tier == "thorough" {
					n = 7
				}
				for _, s := range append(smallTexts([]string{"a", "é", "你", "😀"}, n), hugeTexts...) {
					if !yield(Conv{S(s)}) {
						return
					}
				}
			}),
		engine.Enum(engine.F("codepoints", "every code point", 0, 0, nil, func(ctx *Ctx, b Block) error {
			ctx.NonTrivial()
			for _, r := range b.runes() {
				if err := checkConv(&Ctx{}, Conv{S("a" + string(r) + "é")}); err != nil {
					return err
				}
			}
			return nil
		}), enumBlocks(1024)),
	)
}
