package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- L08

type lintRunCase struct {
	Files   []SrcFile
	Pattern string
	Rules   []string // nil: all
	Spell   int
	Stdin   bool // also read the first file from standard input
	Piece   int  // in pieces of this size
	Full    bool // also with a standard output that takes nothing
	n       int
	dirty   int
}

func (c *lintRunCase) Check(e *Env) string {
	rules := c.Rules
	if rules == nil {
		rules = lintRules
	}
	want := map[string][]string{}
	var names []string
	total := 0
	c.dirty = 0
	for _, f := range c.Files {
		names = append(names, f.Name)
		for _, x := range lintText(f.Name, f.Text, rules) {
			want[f.Name] = append(want[f.Name], fmt.Sprintf("%s:%d:%d %s", f.Name, x.Line, x.Col, x.Msg))
			total++
		}
		if len(want[f.Name]) > 0 {
			c.dirty++
		}
	}
	c.n = total
	var flags []string
	if c.Rules != nil {
		flags = opt(c.Spell/5, "r", "rules", strings.Join(c.Rules, ","))
	}
	judge := func(what string, r runResult, names []string, want []string) string {
		ctx := "\n" + show(r) + showFiles("schema", c.Files)
		rep := readLint(r.Out, names)
		if (r.Code != 0) != (len(want) > 0) {
			return fmt.Sprintf("%s: exit status %d with %d findings%s", what, r.Code, len(want), ctx)
		}
		var got []string
		for _, l := range rep.Lines {
			got = append(got, fmt.Sprintf("%s:%d:%d %s", l.File, l.Line, l.Col, l.Msg))
		}
		if m := diffMultisets(want, got, "found", "printed"); m != "" {
			return what + ": " + m + ctx
		}
		if len(want) == 0 && (!rep.Clean || rep.Total > 0) {
			return what + ": there are no findings, and the output does not say so" + ctx
		}
		if len(want) > 0 && rep.Clean {
			return what + ": there are findings, and the output says there are none" + ctx
		}
		if len(want) > 0 && rep.Total != len(want) {
			return fmt.Sprintf("%s: the total says %d, %d findings are printed%s", what, rep.Total, len(want), ctx)
		}
		return ""
	}
	return inDir(e, func(dir string) string {
		writeFiles(dir, c.Files)
		var all []string
		for _, n := range names {
			all = append(all, want[n]...)
		}
		args := append(opt(c.Spell, "f", "filepath", c.Pattern), flags...)
		if c.Spell/25 == 1 {
			args = append(append([]string{}, flags...), opt(c.Spell, "f", "filepath", c.Pattern)...)
		}
		args = append([]string{"lint"}, args...)
		first := runGql(e, dir, "", args...)
		if m := judge(fmt.Sprintf("gql %v", args), first, names, all); m != "" {
			return m
		}
		for i := 0; i < 2; i++ {
			r := runGql(e, dir, "", args...)
			if r.Out != first.Out || r.Err != first.Err || r.Code != first.Code {
				return fmt.Sprintf("gql %v: run %d differs from the first\n--- first\n%s--- this\n%s%s", args, i+2, show(first), show(r), showFiles("schema", c.Files))
			}
		}
		if c.Stdin {
			f := c.Files[0]
			var in io.Reader = strings.NewReader(f.Text)
			if c.Piece > 0 && len(f.Text)/c.Piece < 400 {
				in = &pieces{text: f.Text, size: c.Piece}
			}
			r := runGqlWith(e, dir, in, nil, append([]string{"lint"}, flags...)...)
			var w []string
			for _, x := range want[f.Name] {
				w = append(w, "/dev/stdin"+strings.TrimPrefix(x, f.Name))
			}
			if m := judge("standard input", r, []string{"/dev/stdin"}, w); m != "" {
				return m
			}
		}
		if c.Full && len(all) > 0 {
			if r := runFull(e, dir, args...); r.Code == 0 {
				return fmt.Sprintf("gql %v: exit status 0 with %d findings when the output cannot be written\n%s%s", args, len(all), show(r), showFiles("schema", c.Files))
			}
		}
		return ""
	})
}

func (c *lintRunCase) Info() (bool, []string) {
	cls := []string{fmt.Sprintf("files:%d", len(c.Files))}
	if c.n == 0 {
		cls = append(cls, "clean")
	} else if c.dirty == len(c.Files) {
		cls = append(cls, "all-files-with-findings")
	} else {
		cls = append(cls, "some-files-with-findings")
	}
	if c.Stdin {
		cls = append(cls, "stdin")
		if c.Piece > 0 {
			cls = append(cls, "stdin-in-pieces")
		}
	}
	if c.Full && c.n > 0 {
		cls = append(cls, "output-to-a-full-disk")
	}
	return c.n > 0 && len(c.Files) > 1, cls
}

// enumLintRun emits runs with a given number of findings, in one file or spread over several.
func enumLintRun(tier string, emit func(Case)) {
	for _, k := range edgeCounts {
		for _, nf := range []int{1, 2, 3} {
			c := &lintRunCase{Pattern: "s*.graphql", Rules: []string{"field-camel"}, Stdin: nf == 1}
			for i := 0; i < nf; i++ {
				var b strings.Builder
				b.WriteString("type A {\n  ok: Int\n")
				for j := i; j < k; j += nf {
					fmt.Fprintf(&b, "  F%d: Int\n", j)
				}
				b.WriteString("}\n")
				c.Files = append(c.Files, SrcFile{fmt.Sprintf("s%d.graphql", i), b.String()})
			}
			emit(c)
		}
	}
}

func genLintRun(t *rapid.T) Case {
	c := &lintRunCase{Pattern: "s*.graphql", Stdin: rapid.IntRange(0, 2).Draw(t, "stdin") == 2, Spell: rapid.IntRange(0, 49).Draw(t, "spell")}
	if rapid.IntRange(0, 2).Draw(t, "sel") == 2 {
		c.Rules = someRules(t, "rules")
	}
	c.Full = rapid.IntRange(0, 9).Draw(t, "full") == 9
	c.Piece = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 7, 64, 512}).Draw(t, "piece")
	n := rapid.SampledFrom([]int{1, 2, 2, 3, 3, 4, 6}).Draw(t, "files")
	pool := []string{"s0.graphql", "s1.graphql", "sB.graphql", "s 1.graphql", "s_x.graphql", "s10.graphql", "s2.graphql", "s:3:4 x.graphql", "s.graphql", "szz.graphql", "s\u00e9.graphql", "s%d.graphql", "s100%.graphql", "s,b=$x.graphql"}
	used := map[string]bool{}
	g := &gen{t: t}
	for i := 0; i < n; i++ {
		f := SrcFile{Name: g.distinct(pool, 1, "fname", used)[0]}
		if !strings.HasSuffix(f.Name, ".graphql") {
			f.Name += ".graphql"
		}
		lc := lintCfg{Relay: 25, Descs: 30, Big: true, Free: 15}
		kind := rapid.IntRange(0, 5).Draw(t, "fileKind")
		if kind == 0 { // a file without findings
			f.Text = rapid.SampledFrom([]string{"\"d\" type A { \"d\" b: Int }\n", "# nothing\n", "", "\"d\" scalar Z", "type B #lint-disable-line type-desc\n"}).Draw(t, "cleanText")
		} else {
			d := genLintDoc(t, lc)
			st := lintStyle(t, "s")
			r := render(t, d, []string{"s"}, []Style{st}, false)
			if !faithful(d, r) {
				return nil
			}
			f.Text = r.Files[0].Text
			if kind == 1 {
				f.Text = insertComments(t, r, st, 2, func() string { return lintComment(t) })
			}
			if _, err := parseOne("s", f.Text); err != nil {
				return nil
			}
		}
		c.Files = append(c.Files, f)
	}
	if n == 1 && rapid.Bool().Draw(t, "byName") {
		c.Pattern = c.Files[0].Name
	}
	if rapid.IntRange(0, 4).Draw(t, "sub") == 4 {
		for i := range c.Files {
			c.Files[i].Name = "d/" + c.Files[i].Name
		}
		c.Pattern = "d/" + c.Pattern
	}
	return c
}

// ---------------------------------------------------------------- L09

// oddCommentCase: anything the parser accepts can be linted.
type lintAnyCase struct {
	Kind string
	Text string // for the kinds that lint one text in process
	Raw  []byte // instead of Text, when it is not valid UTF-8
	// for the kinds that go through the command
	Files   []SrcFile
	BadAt   int
	Pattern string
	Rules   []string
	n       int
}

func (c *lintAnyCase) Check(e *Env) string {
	if c.Kind == "accepted" {
		text := c.Text
		if c.Raw != nil {
			text = string(c.Raw)
		}
		if _, err := parseOne("s.graphql", text); err != nil {
			hfail("case does not parse: %v", err)
		}
		c.n = len(lintText("s.graphql", text, lintRules))
		return ""
	}
	if c.Kind == "stdin-directory" || c.Kind == "stdin-write-only" {
		return inDir(e, func(dir string) string {
			p := filepath.Join(dir, "in")
			if c.Kind == "stdin-directory" {
				if err := os.Mkdir(p, 0o755); err != nil {
					hfail("%v", err)
				}
			}
			flag := os.O_RDONLY
			if c.Kind == "stdin-write-only" {
				flag = os.O_WRONLY | os.O_CREATE
			}
			f, err := os.OpenFile(p, flag, 0o644)
			if err != nil {
				hfail("%v", err)
			}
			defer f.Close()
			args := []string{"lint"}
			if c.Rules != nil {
				args = append(args, "-r", strings.Join(c.Rules, ","))
			}
			return c.refused(runGqlWith(e, dir, f, nil, args...), "")
		})
	}
	if c.Kind == "stdin-syntax" || c.Kind == "stdin-accepted" {
		r := runGql(e, e.Scratch, c.Text, "lint")
		if c.Kind == "stdin-accepted" {
			rep := readLint(r.Out, []string{"/dev/stdin"})
			if !rep.Clean && rep.Total < 1 {
				return "linting did not complete\n" + show(r) + showFiles("schema", []SrcFile{{"stdin", c.Text}})
			}
			return ""
		}
		return c.refused(r, "")
	}
	return inDir(e, func(dir string) string {
		_ = os.Chmod(dir, 0o755)
		writeFiles(dir, c.Files)
		faulty := ""
		if len(c.Files) > 0 {
			faulty = filepath.Join(dir, c.Files[c.BadAt].Name)
		}
		asUser := false
		switch c.Kind {
		case "directory":
			_ = os.Remove(faulty)
			if err := os.Mkdir(faulty, 0o755); err != nil {
				hfail("%v", err)
			}
		case "unreadable":
			if err := os.Chmod(faulty, 0); err != nil {
				hfail("%v", err)
			}
			asUser = true
		case "dangling":
			_ = os.Remove(faulty)
			if err := os.Symlink("nowhere", faulty); err != nil {
				hfail("%v", err)
			}
		}
		args := []string{"lint", "-f", c.Pattern}
		if c.Rules != nil {
			args = append(args, "-r", strings.Join(c.Rules, ","))
		}
		var r runResult
		if asUser && os.Geteuid() == 0 {
			r = runAsNobody(e, dir, args...)
		} else {
			r = runGql(e, dir, "", args...)
		}
		return c.refused(r, fmt.Sprintf(" (fault at file %d of %d)", c.BadAt+1, len(c.Files)))
	})
}

func (c *lintAnyCase) refused(r runResult, where string) string {
	ctx := "\n" + show(r) + showFiles("schema", c.Files)
	if r.Code == 0 {
		return c.Kind + where + ": exit status 0" + ctx
	}
	if strings.Contains(r.all(), lintCleanText) {
		return c.Kind + where + ": the output says that the schema has no lint errors" + ctx
	}
	if strings.TrimSpace(r.all()) == "" {
		return c.Kind + where + ": nothing is printed" + ctx
	}
	low := strings.ToLower(r.all())
	if !strings.Contains(low, "fail") && !strings.Contains(low, "error ") && !strings.Contains(low, "error:") && !strings.Contains(low, "cannot") && !strings.Contains(low, "not exist") {
		return c.Kind + where + ": there is no error message" + ctx
	}
	if strings.Contains(low, "goroutine ") && strings.Contains(low, "panic") {
		return c.Kind + where + ": the command crashed" + ctx
	}
	return ""
}

func (c *lintAnyCase) Info() (bool, []string) {
	cls := []string{c.Kind}
	if c.Kind == "accepted" {
		if strings.Contains(c.Text, "#lint-") {
			cls = append(cls, "accepted-with-lint-comments")
		}
		if c.Raw != nil {
			cls = append(cls, "accepted-with-odd-bytes")
		}
		return strings.Contains(c.Text, "#") || c.n > 0, cls
	}
	if c.Files != nil {
		cls = append(cls, fmt.Sprintf("fault-at-file:%d", c.BadAt))
	}
	return true, cls
}

var oddComments = []string{"#lint-", "#lint- ", "#lint- type-desc", "#lint-\ttype-desc", "#lint-disable", "#lint-disable ", "#lint-disable ,", "#lint-disable ,,,", "#lint-disable-line", "#lint-enable", "#lint--", "#lint-\u00e9", "#lint-disable \u2603", "#lint-\u00a0x", "#lint-disable\u00a0type-desc", "#lint-disable type-desc #lint-enable type-desc", "#lint-,", "#lint-disable,type-desc", "#", "#\t", "##", "#lint", "# lint-", "#lint-disable\vx", "#lint-x\ty", "#lint-\"\"\"", "#lint-'", "#lint-disable $&*()", "#lint-%s%d", "#lint-disable %s", "#lint-\\", "#lint-disable \U0001F600", "#lint-\u007f", "#\u0085", "#lint-\u2028x", "#lint-disable a\u2028b", "#\ufeff", "#lint-\ufeff"}

func oddComment(t *rapid.T) string {
	switch rapid.IntRange(0, 3).Draw(t, "oddKind") {
	case 0:
		return lintComment(t)
	case 1:
		return "#lint-" + rapid.StringOfN(rapid.RuneFrom([]rune(" \t,-abcdeln_ist\"'\\%é☃#")), 0, 12, -1).Draw(t, "oddText")
	}
	return rapid.SampledFrom(oddComments).Draw(t, "oddComment")
}

var oddBytes = []string{"\xff", "\xc3", "\xe2\x98", "\ufeff", "\u2028", "\u00a0", "\x7f", "\U0001F600", "\t", "\r", "\n", "\r\n", ",", "#", "\"", "\"\"", "\"\"\"", "\\", "\\\"", "\\\"\"\"", "\\u00e9", " ", "\u0085", "#\r", "#\n", "\xef\xbb", "\xef\xbb\xbf#lint-disable type-desc\n", "\xf4\x90\x80\x80"}

// mutateBytes changes a few bytes, keeping the text acceptable; nil if that did not work.
func mutateBytes(t *rapid.T, text string) []byte {
	done := false
	for i := rapid.IntRange(1, 4).Draw(t, "nBytes"); i > 0; i-- {
		at := rapid.IntRange(0, len(text)).Draw(t, "byteAt")
		to := at
		if rapid.IntRange(0, 3).Draw(t, "byteDel") == 3 && at < len(text) {
			to++
		}
		x := text[:at] + rapid.SampledFrom(oddBytes).Draw(t, "oddByte") + text[to:]
		if _, err := parseOne("s", x); err == nil {
			text = x
			done = true
		}
	}
	if !done {
		return nil
	}
	return []byte(text)
}

func genLintAny(t *rapid.T) Case {
	k := rapid.IntRange(0, 99).Draw(t, "kind")
	if k < 93 {
		d := genLintDoc(t, lintCfg{Relay: 25, Descs: 45, Big: true, Free: 15, Dups: true})
		if rapid.IntRange(0, 2).Draw(t, "other") == 2 {
			d = genDoc(t, fullCfg())
		}
		st := genStyle(t, "s")
		r := render(t, d, []string{"s"}, []Style{st}, false)
		text := insertComments(t, r, st, rapid.IntRange(0, 6).Draw(t, "nComments"), func() string { return oddComment(t) })
		for i := rapid.IntRange(0, 4).Draw(t, "nMut") - 2; i > 0; i-- {
			text = mutateText(t, text)
		}
		if _, err := parseOne("s", text); err != nil {
			// the mutation broke it: the rest of the document is tried without it
			text = r.Files[0].Text
			if _, err := parseOne("s", text); err != nil {
				return nil
			}
		}
		c := &lintAnyCase{Kind: "accepted", Text: text}
		if rapid.IntRange(0, 3).Draw(t, "bytes") == 3 {
			if b := mutateBytes(t, text); b != nil {
				c.Text, c.Raw = "", b
				return c
			}
		}
		if rapid.IntRange(0, 79).Draw(t, "viaCommand") == 79 {
			c.Kind = "stdin-accepted"
		}
		return c
	}
	c := &lintAnyCase{Kind: rapid.SampledFrom([]string{"syntax", "syntax", "syntax", "directory", "unreadable", "dangling", "no-match", "bad-pattern", "stdin-syntax", "missing-file", "stdin-directory", "stdin-write-only"}).Draw(t, "fault"), Pattern: "f*.graphql"}
	nf := rapid.IntRange(1, 5).Draw(t, "files")
	for i := 0; i < nf; i++ {
		text := "\"d\" type A { \"d\" a: Int }\n"
		if rapid.IntRange(0, 2).Draw(t, "dirty") > 0 {
			text = renderPlain(genLintDoc(t, lintCfg{Descs: 30}), "x")
		}
		c.Files = append(c.Files, SrcFile{fmt.Sprintf("f%d.graphql", i), text})
	}
	c.BadAt = rapid.IntRange(0, nf-1).Draw(t, "at")
	if rapid.IntRange(0, 3).Draw(t, "sel") == 3 {
		c.Rules = someRules(t, "rules")
	}
	broken := func() string {
		b := rapid.SampledFrom(brokenTexts).Draw(t, "broken")
		if rapid.Bool().Draw(t, "mixed") {
			b = c.Files[c.BadAt].Text + "\n" + b
		}
		if rapid.IntRange(0, 3).Draw(t, "mutated") == 3 {
			b = mutateText(t, c.Files[c.BadAt].Text)
		}
		if _, err := parseOne("x", b); err == nil {
			b = "type Broken {"
		}
		return b
	}
	switch c.Kind {
	case "syntax":
		c.Files[c.BadAt].Text = broken()
	case "stdin-syntax":
		c.Text = broken()
		c.Files = nil
		c.BadAt = 0
	case "stdin-directory", "stdin-write-only":
		c.Files = nil
		c.BadAt = 0
	case "no-match":
		c.Pattern = "nothing*.graphql"
	case "missing-file":
		c.Pattern = "nothing.graphql"
	case "bad-pattern":
		c.Pattern = "[f.graphql"
	}
	return c
}

func init() {
	register(&Prop{ID: "L08", Gen: genLintRun, New: func() Case { return &lintRunCase{} }, Quick: 16000, Thorough: 80000, Enum: enumLintRun,
		Rule: "a case is one to six generated files, with or without findings, linted three times by the built command (one also through standard input); non-trivial when several files are matched and something is found"})
	register(&Prop{ID: "L09", Gen: genLintAny, New: func() Case { return &lintAnyCase{} }, Quick: 240000, Thorough: 1200000,
		Rule: "a case is a text the parser accepts (a generated document with odd comments, perhaps mutated byte by byte) linted with all rules, or a faulty input given to the built command; non-trivial when it has a comment or a finding, or is faulty"})
}
