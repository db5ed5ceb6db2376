package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	gqllexer "github.com/CrowdStrike/gql/cmd/linter/lexer"
	"github.com/vektah/gqlparser/v2/ast"
	reflexer "github.com/vektah/gqlparser/v2/lexer"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- L12

type lexCase struct {
	Text     string
	Raw      []byte // instead of Text, when it is not valid UTF-8
	Many     int    // so many repetitions
	tokens   int
	comments int
	failed   bool
	kinds    map[string]bool
	multi    bool
}

type lexTok struct {
	Kind, Value              string
	Start, End, Line, Column int
}

func (t lexTok) String() string {
	return fmt.Sprintf("%s %q at %d-%d, line %d, column %d", t.Kind, t.Value, t.Start, t.End, t.Line, t.Column)
}

// refTokens reads a text with the lexer of the parser, which drops comments.
func refTokens(text string) ([]lexTok, string) {
	s := reflexer.New(&ast.Source{Name: "s.graphql", Input: text})
	var r []lexTok
	for {
		t, err := s.ReadToken()
		if err != nil {
			return r, err.Error()
		}
		r = append(r, lexTok{t.Kind.String(), t.Value, t.Pos.Start, t.Pos.End, t.Pos.Line, t.Pos.Column})
		if t.Kind == reflexer.EOF {
			return r, ""
		}
	}
}

// ownTokens reads a text with the lexer that keeps comments.
func ownTokens(text string) ([]lexTok, string) {
	s := gqllexer.New(&ast.Source{Name: "s.graphql", Input: text})
	var r []lexTok
	for {
		t, err := s.ReadToken()
		if err != nil {
			return r, err.Error()
		}
		r = append(r, lexTok{t.Kind.String(), t.Value, t.Pos.Start, t.Pos.End, t.Pos.Line, t.Pos.Column})
		if t.Kind == gqllexer.EOF {
			return r, ""
		}
		if len(r) > 2*len(text)+2 {
			return r, "no end: more tokens than the text has characters"
		}
	}
}

// refComments finds the comments of a text, given the tokens in it: what a # begins between two tokens.
func refComments(text string, toks []lexTok) []lexTok {
	var off []int // byte offset of each character
	var runes []rune
	for i := 0; i < len(text); {
		c, w := utf8.DecodeRuneInString(text[i:])
		off = append(off, i)
		runes = append(runes, c)
		i += w
	}
	off = append(off, len(text))
	var r []lexTok
	at := 0
	gap := func(end int) {
		for at < end {
			if runes[at] != '#' {
				at++
				continue
			}
			start := at
			for at < end && (runes[at] > 0x1f || runes[at] == '\t') {
				at++
			}
			// a token in the place of the comment is on the same line and in the same column
			l, _ := refTokens(text[:off[start]] + "!")
			if len(l) < 2 {
				hfail("no token in the place of the comment")
			}
			b := l[len(l)-2]
			r = append(r, lexTok{"Comment", text[off[start]:off[at]], start, at, b.Line, b.Column})
		}
	}
	for _, t := range toks {
		s := t.Start
		if s > len(runes) {
			hfail("token beyond the end")
		}
		gap(s)
		at = max(at, t.End)
	}
	return r
}

func newLexCase(text string) *lexCase {
	if utf8.ValidString(text) {
		return &lexCase{Text: text}
	}
	return &lexCase{Raw: []byte(text)}
}

func (c *lexCase) text() string {
	s := c.Text
	if c.Raw != nil {
		s = string(c.Raw)
	}
	if c.Many > 0 {
		s = strings.Replace(s, "*", strings.Repeat("x", c.Many), 1)
		s = strings.Replace(s, "~", strings.Repeat("\u00e9", c.Many), 1)
		s = strings.Replace(s, "^", strings.Repeat("a \n", c.Many), 1)
		s = strings.Replace(s, "%", strings.Repeat("#c\r\n", c.Many), 1)
		s = strings.Replace(s, "?", strings.Repeat(" ", c.Many), 1)
	}
	return s
}

func (c *lexCase) Check(e *Env) string {
	text := c.text()
	want, wantErr := refTokens(text)
	got, gotErr := ownTokens(text)
	c.failed = wantErr != ""
	c.kinds = map[string]bool{}
	c.comments, c.tokens = 0, len(want)
	for i, t := range want {
		c.kinds[t.Kind] = true
		if i > 0 && t.Line > want[i-1].Line {
			c.multi = true
		}
	}
	show := func() string {
		if c.Many > 0 {
			return fmt.Sprintf("\ntext: %q with %d repetitions", c.Text, c.Many)
		}
		return fmt.Sprintf("\ntext: %q", text)
	}
	var plain, cmts []lexTok
	for _, t := range got {
		if t.Kind == "Comment" {
			cmts = append(cmts, t)
		} else {
			plain = append(plain, t)
		}
	}
	c.comments = len(cmts)
	for i := 0; i < max(len(want), len(plain)); i++ {
		switch {
		case i >= len(want):
			return fmt.Sprintf("token %d: the parser's lexer has none (%s), the comment lexer has %v%s", i, wantErr, plain[i], show())
		case i >= len(plain):
			return fmt.Sprintf("token %d: the parser's lexer has %v, the comment lexer has none (%s)%s", i, want[i], gotErr, show())
		case want[i] != plain[i]:
			return fmt.Sprintf("token %d: the parser's lexer has %v, the comment lexer has %v%s", i, want[i], plain[i], show())
		}
	}
	if wantErr != gotErr {
		return fmt.Sprintf("the parser's lexer ends with error %q, the comment lexer with %q%s", wantErr, gotErr, show())
	}
	if wantErr != "" {
		// where the unreadable part begins is not known: what precedes the last token is
		n := 0
		if len(want) > 0 {
			n = want[len(want)-1].Start
		}
		var before []lexTok
		for _, t := range cmts {
			if t.Start < n {
				before = append(before, t)
			}
		}
		cmts = before
	}
	ref := refComments(text, want)
	for i := 0; i < max(len(ref), len(cmts)); i++ {
		switch {
		case i >= len(ref):
			return fmt.Sprintf("comment %d: the text has none, the comment lexer has %v%s", i, cmts[i], show())
		case i >= len(cmts):
			return fmt.Sprintf("comment %d: the text has %v, the comment lexer has none%s", i, ref[i], show())
		case ref[i] != cmts[i]:
			return fmt.Sprintf("comment %d: the text has %v, the comment lexer has %v%s", i, ref[i], cmts[i], show())
		}
	}
	// each comment and token is in the order of the text
	for i := 1; i < len(got); i++ {
		if got[i].Start < got[i-1].Start {
			return fmt.Sprintf("%v comes after %v%s", got[i], got[i-1], show())
		}
	}
	return ""
}

func (c *lexCase) Info() (bool, []string) {
	var cls []string
	for k := range c.kinds {
		cls = append(cls, "has:"+k)
	}
	if c.comments > 0 {
		cls = append(cls, "comments")
	}
	if c.failed {
		cls = append(cls, "unreadable")
	}
	if c.multi {
		cls = append(cls, "several-lines")
	}
	for _, x := range []struct{ s, n string }{{"\r\n", "crlf"}, {"\ufeff", "bom"}, {`\u`, "unicode-escape"}, {`\"""`, "escaped-block-quotes"}} {
		if strings.Contains(c.text(), x.s) {
			cls = append(cls, x.n)
		}
	}
	return c.tokens > 1 && (c.comments > 0 || c.kinds["String"] || c.kinds["BlockString"] || c.failed), cls
}

var lexBits = []string{"a", "Z", "_", "0", "é", "語", "😀", "\u00a0", "\u2028", "\x7f", "\u0080", "\uffff", "\t", " ", ",", "#", "'", "\\", "!", "lint-disable x", "{", "}", "...", "\xff", "\xc3", "\xed\xa0\x80", "\ufeff"}
var lexEscapes = []string{`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`, `\u0041`, `\u00e9`, `\uD83D`, `\uffff`, `\u000a`, `\uABcd`}
var lexBadEscapes = []string{`\x`, `\u12`, `\u12g4`, `\'`, `\é`, `\`, `\ `, `\N`}
var lexEnds = []string{"\n", "\n", "\r\n", "\r", "\n\r", "\n\n", "\r\r"}

func genLexPiece(t *rapid.T) string {
	n := func(lo, hi int, l string) int { return rapid.IntRange(lo, hi).Draw(t, l) }
	pick := func(l []string, name string) string { return l[n(0, len(l)-1, name)] }
	body := func(bits ...[]string) string {
		var b strings.Builder
		for i := n(0, 6, "len"); i > 0; i-- {
			b.WriteString(pick(bits[n(0, len(bits)-1, "of")], "bit"))
		}
		return b.String()
	}
	switch n(0, 12, "piece") {
	case 0, 1:
		return pick([]string{"type", "a", "_x9", "Query", "on", "e1", "E", "schema", "A_b"}, "name")
	case 2:
		return pick([]string{"!", "$", "&", "(", ")", "...", ":", "=", "@", "[", "]", "{", "}", "|"}, "punct")
	case 3:
		return pick([]string{"0", "-0", "1", "-12", "1.5", "0.0", "-1.25e10", "1e5", "1E-3", "2e+0", "123456789012345678901234567890", "1.0E00", "0e0"}, "num")
	case 4, 5:
		return `"` + body(lexBits, lexEscapes) + `"`
	case 6, 7:
		return `"""` + body(lexBits, lexEscapes, lexEnds, []string{`"`, `""`, `\"""`, `\""`, "  ", "    ", "\t", `\\"""`, "\n  ", "\n\t"}) + `"""`
	case 8:
		return "#" + body(lexBits, lexEscapes, []string{`"`, `"""`, `#`, "lint-enable"})
	case 9:
		return "#" + pick([]string{"", " ", "lint-disable a,b", "#", "é", "\t", "\ufeff"}, "cmt") + pick(lexEnds, "end")
	case 10:
		return pick(lexEnds, "end")
	case 11:
		return pick([]string{" ", "\t", ",", "\ufeff", " ,, ", "\n  "}, "ws")
	}
	switch n(0, 3, "odd") {
	case 0:
		return `"` + body(lexBits, lexEscapes, lexBadEscapes) + `"`
	case 1:
		return pick(lexBits, "bit")
	case 2:
		return pick([]string{"01", "1.", ".5", "-", "1e", "1e+", "..", ".", "00", "-a", "1.e5", "0x1F", `"`, `"""`, `"\`, `""""`, `"""""`, "\x00", "\x01", "\x0b", "\x0c", "%", "?", "'", "/", "^", "~", "\xef", "\xef\xbb", "\xef\xbb\xbf"}, "bad")
	default:
		return `"` + body(lexBits, lexEnds, []string{"\x00", "\x1f", "\x0b"}) + `"`
	}
}

func genLex(t *rapid.T) Case {
	var b strings.Builder
	if rapid.IntRange(0, 9).Draw(t, "schema") == 9 {
		d := genLintDoc(t, lintCfg{Relay: 30, Descs: 60, Free: 10})
		st := lintStyle(t, "s")
		r := render(t, d, []string{"s.graphql"}, []Style{st}, false)
		text := r.Files[0].Text
		text = insertComments(t, r, st, rapid.IntRange(1, 6).Draw(t, "nComments"), func() string { return lintComment(t) })
		return newLexCase(text)
	}
	for i := rapid.IntRange(1, 12).Draw(t, "nPieces"); i > 0; i-- {
		b.WriteString(genLexPiece(t))
		if rapid.IntRange(0, 2).Draw(t, "sep") > 0 {
			b.WriteString(rapid.SampledFrom([]string{" ", "\n", ",", "\t"}).Draw(t, "by"))
		}
	}
	return newLexCase(b.String())
}

var lexAlphabet = []string{"\"", "\\", "\n", "\r", "#", "a", "u", "0", " ", ".", "-", "\ufeff", "\xff", "\x0b"}

// enumLex emits every text of a few characters, and long ones.
func enumLex(tier string, emit func(Case)) {
	most := 5
	sizes := []int{127, 1000, 5000}
	if tier == "thorough" {
		most = 6
		sizes = append(sizes, 255, 4096, 65536)
	}
	var add func(s string, left int)
	add = func(s string, left int) {
		emit(newLexCase(s))
		if left == 0 {
			return
		}
		for _, x := range lexAlphabet {
			add(s+x, left-1)
		}
	}
	add("", most)
	for _, q := range []string{"\"\"\"", "\"\"\" \r\n "} {
		for _, x := range lexAlphabet {
			for _, y := range lexAlphabet {
				for _, z := range lexAlphabet {
					emit(newLexCase(q + x + y + z + "\"\"\"#b\nc"))
				}
			}
		}
	}
	for _, n := range sizes {
		for _, s := range []string{"* #a\nb", "\"*~\" #a\nb", "\"\"\"*~\n  ^\"\"\" #a\nb", "\"\"\"?a\n?b\"\"\" #a\nb", "#*~\nb", "^#a", "%a#b\nc", "a?#b", "%^#c"} {
			emit(&lexCase{Text: s, Many: n})
		}
	}
}

func init() {
	register(&Prop{ID: "L12", Gen: genLex, New: func() Case { return &lexCase{} }, Enum: enumLex, Quick: 1500000, Thorough: 20000000,
		Rule: "a case is a text of tokens, strings, block strings, comments, line ends and odd characters, or a generated schema with comments; every text of up to five (thorough: six) of 14 characters is enumerated; non-trivial when it has at least two tokens and a comment, a string or an unreadable part"})
}
