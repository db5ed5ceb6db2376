package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	cmdlint "github.com/CrowdStrike/gql/cmd/linter"
	"pgregory.net/rapid"
)

func errTexts(l []LErr) []string {
	var r []string
	for _, x := range l {
		r = append(r, x.String())
	}
	return r
}

// insertComments puts comments into a text at line ends outside strings: after the text of the line
// or on lines of their own.
func insertComments(t *rapid.T, r *Rendered, st Style, n int, draw func() string) string {
	f := r.Files[0]
	eols := append([]int{}, r.EOLs[f.Name]...)
	if len(eols) == 0 {
		return f.Text
	}
	type ins struct {
		at   int
		text string
	}
	var l []ins
	for i := 0; i < n; i++ {
		at := rapid.SampledFrom(eols).Draw(t, "commentAt")
		c := draw()
		switch rapid.IntRange(0, 4).Draw(t, "commentForm") {
		case 0, 1:
			l = append(l, ins{at, st.NL + c})
		case 2:
			l = append(l, ins{at, " " + c})
		case 3:
			l = append(l, ins{at, st.NL + "\t, " + c})
		case 4:
			// right behind what the line ends in
			l = append(l, ins{at, c})
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "commentFirst") == 5 && !strings.HasPrefix(f.Text, "\uFEFF") {
		l = append(l, ins{0, draw() + st.NL})
	}
	sort.SliceStable(l, func(a, b int) bool { return l[a].at < l[b].at })
	var b strings.Builder
	at := 0
	for _, x := range l {
		b.WriteString(f.Text[at:x.at])
		b.WriteString(x.text)
		at = x.at
	}
	b.WriteString(f.Text[at:])
	return b.String()
}

func caseOf(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 4).Draw(t, "case") {
	case 3:
		return strings.ToUpper(s)
	case 4:
		if s != "" {
			return strings.ToUpper(s[:1]) + s[1:]
		}
	}
	return s
}

// lintComment draws a lint comment, mostly well formed.
func lintComment(t *rapid.T) string {
	if rapid.IntRange(0, 19).Draw(t, "noCmd") == 19 {
		return rapid.SampledFrom([]string{"#lint-", "#lint- ", "#lint- type-desc", "#lint-\ttype-desc,field-desc", "#lint- disable type-desc"}).Draw(t, "noCmdText")
	}
	cmd := rapid.SampledFrom([]string{"disable", "enable", "disable-line", "disable", "enable", "disable-line", "disable", "enable", "disable-line", "disabled", "foo", "disable-", "Disable", "enable-line", "disable-lines"}).Draw(t, "cmd")
	var rules []string
	n := rapid.IntRange(0, 9).Draw(t, "nCmdRules")
	if n > 5 {
		n = 9
	}
	for i := 0; i < n; i++ {
		rn := lintRules[i]
		if n < 9 {
			rn = rapid.SampledFrom(append([]string{"no-such-rule", "type", "type-desc2", ""}, append(lintRules, lintRules...)...)).Draw(t, "cmdRule")
		}
		rules = append(rules, caseOf(t, rn))
	}
	sep := rapid.SampledFrom([]string{",", ", ", " , ", ",\t", ",,", " "}).Draw(t, "cmdSep")
	gap := rapid.SampledFrom([]string{" ", "  ", "\t", " \t "}).Draw(t, "cmdGap")
	s := "#lint-" + cmd
	if len(rules) > 0 {
		s += gap + strings.Join(rules, sep)
	}
	if rapid.IntRange(0, 5).Draw(t, "cmdTrail") == 5 {
		s += rapid.SampledFrom([]string{" ", ",", " ,", "\t"}).Draw(t, "cmdTrailText")
	}
	return s
}

// ---------------------------------------------------------------- L06

type inlineCase struct {
	Text  string
	Rules []string
	cut   int
	kept  int
	dirs  []Directive
}

func (c *inlineCase) Check(e *Env) string {
	base := lintText("s.graphql", neutral(c.Text), c.Rules)
	got := lintText("s.graphql", c.Text, c.Rules)
	c.dirs = directives(c.Text)
	var want []string
	c.cut, c.kept = 0, 0
	for _, x := range base {
		if suppressed(c.dirs, x.Rule, x.Line) {
			c.cut++
		} else {
			c.kept++
			want = append(want, x.String())
		}
	}
	if m := diffMultisets(want, errTexts(got), "due", "reported"); m != "" {
		return fmt.Sprintf("with rules %v and the lint comments %v:\n%s\n%s", c.Rules, c.dirs, m, showFiles("schema", []SrcFile{{"s.graphql", c.Text}}))
	}
	return ""
}

func (c *inlineCase) Info() (bool, []string) {
	var cls []string
	seen := map[string]bool{}
	for _, d := range c.dirs {
		if !seen[d.Cmd] {
			seen[d.Cmd] = true
			cls = append(cls, "lint-"+d.Cmd)
		}
	}
	if c.cut > 0 {
		cls = append(cls, "suppresses")
	}
	if c.cut > 0 && c.kept > 0 {
		cls = append(cls, "suppresses-some")
	}
	return c.cut > 0, cls
}

func genInline(t *rapid.T) Case {
	d := genLintDoc(t, lintCfg{Relay: 25, Descs: 30, Big: true, Free: 15})
	st := lintStyle(t, "s")
	if rapid.IntRange(0, 3).Draw(t, "tall") > 0 {
		st.Inline, st.Min = false, false
	}
	r := render(t, d, []string{"s.graphql"}, []Style{st}, false)
	if !faithful(d, r) {
		return nil
	}
	n := rapid.IntRange(1, 7).Draw(t, "nComments")
	text := insertComments(t, r, st, n, func() string { return lintComment(t) })
	if a, err := parseOne("s", text); err != nil || dumpDoc(fromAST(a)) != dumpDoc(d) {
		return nil
	}
	return &inlineCase{Text: text, Rules: someRules(t, "rules")}
}

// ---------------------------------------------------------------- L07

type selectCase struct {
	Text  string
	Names []string // as given
	Rules []string // the rules they name; nil: all
	Bad   bool     // a name is not a rule
	Wrong string   // that name
	Again bool     // a rule is named more than once
	Cli   bool
	Split bool // one flag per name
	n     int
}

func (c *selectCase) Check(e *Env) string {
	ctx := fmt.Sprintf("\nnames given: %q\n%s", c.Names, showFiles("schema", []SrcFile{{"s.graphql", c.Text}}))
	rules := c.Rules
	if rules == nil {
		rules = lintRules
	}
	var want []string
	if !c.Bad {
		for _, r := range rules {
			want = append(want, errTexts(lintText("s.graphql", c.Text, []string{r}))...)
		}
		c.n = len(want)
	}
	funcs, err := cmdlint.FindTheRulesToApply(c.Names)
	if c.Bad {
		if err == nil {
			return fmt.Sprintf("a name that is not a rule is accepted (%d rules selected)%s", len(funcs), ctx)
		}
	} else {
		if err != nil {
			return fmt.Sprintf("valid rule names are refused: %v%s", err, ctx)
		}
		got := errTexts(toLErrs(cmdlint.Lint("s.graphql", c.Text, funcs)))
		if m := diffMultisets(want, got, "found by the rules alone", "found by the selection"); m != "" {
			return m + ctx
		}
	}
	if !c.Cli {
		return ""
	}
	return inDir(e, func(dir string) string {
		writeFiles(dir, []SrcFile{{"s.graphql", c.Text}})
		args := []string{"lint", "-f", "s.graphql"}
		if c.Split {
			for _, n := range c.Names {
				args = append(args, "--rules", n)
			}
		} else if len(c.Names) > 0 {
			args = append(args, "-r", strings.Join(c.Names, ","))
		}
		r := runGql(e, dir, "", args...)
		rep := readLint(r.Out, []string{"s.graphql"})
		if c.Bad {
			if r.Code == 0 {
				return "a name that is not a rule: exit status 0" + ctx + show(r)
			}
			if len(rep.Lines) > 0 || rep.Total >= 0 || rep.Clean {
				return "a name that is not a rule: lint results are printed all the same" + ctx + show(r)
			}
			if !strings.Contains(strings.ToLower(r.all()), strings.ToLower(c.Wrong)) {
				return "a name that is not a rule is refused without being named" + ctx + show(r)
			}
			return ""
		}
		if (r.Code != 0) != (len(want) > 0) {
			return fmt.Sprintf("exit status %d with %d findings%s%s", r.Code, len(want), ctx, show(r))
		}
		var w, g []string
		for _, x := range want {
			w = append(w, x[strings.IndexByte(x, ' ')+1:])
		}
		for _, l := range rep.Lines {
			g = append(g, fmt.Sprintf("%d:%d %s", l.Line, l.Col, l.Msg))
		}
		if m := diffMultisets(w, g, "found by the rules alone", "printed"); m != "" {
			return m + ctx + show(r)
		}
		return ""
	})
}

func (c *selectCase) Info() (bool, []string) {
	var cls []string
	switch {
	case c.Bad && len(c.Names) > 1:
		cls = append(cls, "bad-name-among-valid-ones")
	case c.Bad:
		cls = append(cls, "bad-name-alone")
	case len(c.Names) == 0:
		cls = append(cls, "all-rules")
	case len(c.Names) == 1:
		cls = append(cls, "one-rule")
	default:
		cls = append(cls, "several-rules")
	}
	if c.Again {
		cls = append(cls, "a-rule-named-again")
	}
	if c.Cli {
		cls = append(cls, "command")
	}
	return c.Bad || c.n > 0, cls
}

func genSelect(t *rapid.T) Case {
	d := genLintDoc(t, lintCfg{Relay: 40, Descs: 25, ASCII: true})
	r := render(t, d, []string{"s.graphql"}, []Style{plainStyle}, false)
	if !faithful(d, r) {
		return nil
	}
	c := &selectCase{Text: r.Files[0].Text, Cli: rapid.IntRange(0, 19).Draw(t, "cli") == 19, Split: rapid.Bool().Draw(t, "split")}
	kind := rapid.IntRange(0, 9).Draw(t, "sel")
	if kind == 0 {
		return c
	}
	rules := rapid.Permutation(lintRules).Draw(t, "order")
	rules = append([]string{}, rules[:rapid.IntRange(1, len(rules)).Draw(t, "nSel")]...)
	if kind < 4 {
		rules = rules[:1]
	}
	c.Rules = rules
	blank := func(s string) string {
		switch rapid.IntRange(0, 5).Draw(t, "blank") {
		case 4:
			return " " + s
		case 5:
			return s + "  "
		}
		return s
	}
	for _, n := range rules {
		c.Names = append(c.Names, blank(caseOf(t, n)))
	}
	if rapid.IntRange(0, 5).Draw(t, "again") == 5 {
		// some are named again
		for i := rapid.IntRange(1, 3).Draw(t, "nAgain"); i > 0; i-- {
			at := rapid.IntRange(0, len(c.Names)).Draw(t, "againAt")
			c.Names = append(c.Names[:at], append([]string{blank(caseOf(t, rapid.SampledFrom(rules).Draw(t, "againName")))}, c.Names[at:]...)...)
		}
		c.Again = true
	}
	if rapid.IntRange(0, 3).Draw(t, "bad") == 3 {
		c.Bad = true
		b := rapid.SampledFrom([]string{"type-descr", "typedesc", "type_desc", "all", "type", "desc", "type-desc;field-desc", "type-desc field-desc", "-", "*", "type-desc2", "relay-conn", "enum", "a", "type-", "conn-type", "TYPE-DES", "field-caps"}).Draw(t, "badName")
		c.Wrong = b
		at := rapid.IntRange(0, len(c.Names)).Draw(t, "badAt")
		if len(c.Names) == 1 && rapid.Bool().Draw(t, "badAlone") {
			c.Names = []string{b}
		} else {
			c.Names = append(c.Names[:at], append([]string{b}, c.Names[at:]...)...)
		}
		c.Rules = nil
	}
	return c
}

// ---------------------------------------------------------------- the lint command's output

type lintLine struct {
	File      string
	Line, Col int
	Msg       string
}

type lintReport struct {
	Lines []lintLine
	Total int // -1: no total
	Clean bool
}

var (
	lintLineRe  = regexp.MustCompile(`^:(-?\d+):(-?\d+) (.*)$`)
	lintTotalRe = regexp.MustCompile(`Total lint errors found: (\d+)`)
)

const lintCleanText = "no lint errors"

// readLint reads the output of the lint command; files are the names it may print.
func readLint(out string, files []string) lintReport {
	r := lintReport{Total: -1, Clean: strings.Contains(out, lintCleanText)}
	sorted := append([]string{}, files...)
	sort.Slice(sorted, func(a, b int) bool { return len(sorted[a]) > len(sorted[b]) })
	for _, l := range strings.Split(out, "\n") {
		for _, f := range sorted {
			// other text may stand before (the note about an empty file has no line end)
			at := strings.Index(l, f+":")
			if at < 0 {
				continue
			}
			if g := lintLineRe.FindStringSubmatch(l[at+len(f):]); g != nil {
				x := lintLine{File: f, Msg: g[3]}
				fmt.Sscan(g[1], &x.Line)
				fmt.Sscan(g[2], &x.Col)
				r.Lines = append(r.Lines, x)
				break
			}
		}
		if g := lintTotalRe.FindStringSubmatch(l); g != nil {
			fmt.Sscan(g[1], &r.Total)
		}
	}
	return r
}

// ---------------------------------------------------------------- L10

type plainCase struct {
	A, B string // the same schema in two presentations
	Mode string
	n    int
}

func stripPlace(l []LErr) []string {
	var r []string
	for _, x := range l {
		r = append(r, x.Rule+" "+embedded.ReplaceAllString(x.Msg, ""))
	}
	return r
}

func (c *plainCase) Check(e *Env) string {
	a, b := lintText("s.graphql", c.A, lintRules), lintText("s.graphql", c.B, lintRules)
	c.n = len(a)
	if m := diffMultisets(stripPlace(a), stripPlace(b), "in the first text", "in the second"); m != "" {
		return fmt.Sprintf("%s changes which findings are made: %s\n%s", c.Mode, m, showFiles("schema", []SrcFile{{"first", c.A}, {"second", c.B}}))
	}
	return ""
}

func (c *plainCase) Info() (bool, []string) {
	cls := []string{c.Mode}
	if c.n > 0 {
		cls = append(cls, "with-findings")
	}
	if c.Mode == "line ends under lint comments" && len(lintText("s.graphql", neutral(c.A), lintRules)) > c.n {
		cls = append(cls, "suppressed-under-other-line-ends")
	}
	return c.n > 0 && c.A != c.B, cls
}

var lookalikes = []string{"#lintdisable type-desc", "##lint-disable type-desc,field-desc,args-desc,enum-desc", "#lint", "#lint disable type-desc", "#", "# see #lint-disable type-desc", "#x lint-disable type-desc", "# \"\"\"", "#\"", "# it's", "# plain", "#type a { B: Int }", "# é☃", "#,", "#}", "# \\"}

// plainTexts replaces descriptions and string values that could be taken for something else.
func plainTexts(d *Doc) *Doc {
	d = d.Clone()
	s := func(p *string) {
		if *p != "" {
			*p = "d"
		}
	}
	var val func(v *Value) *Value
	val = func(v *Value) *Value {
		if v == nil {
			return nil
		}
		c := *v
		if c.K == "string" {
			c.S = "s"
		}
		c.L, c.O = nil, nil
		for _, x := range v.L {
			c.L = append(c.L, val(x))
		}
		for _, x := range v.O {
			c.O = append(c.O, ObjField{x.Name, val(x.V)})
		}
		return &c
	}
	uses := func(ds []DirUse) {
		for i := range ds {
			for k := range ds[i].Args {
				ds[i].Args[k].V = val(ds[i].Args[k].V)
			}
		}
	}
	args := func(as []*Arg) {
		for _, a := range as {
			s(&a.Desc)
			a.Default = val(a.Default)
			uses(a.Dirs)
		}
	}
	for _, t := range d.Types {
		s(&t.Desc)
		uses(t.Dirs)
		for _, f := range t.Fields {
			s(&f.Desc)
			args(f.Args)
			f.Default = val(f.Default)
			uses(f.Dirs)
		}
		for _, v := range t.Vals {
			s(&v.Desc)
			uses(v.Dirs)
		}
	}
	for _, x := range d.Dirs {
		s(&x.Desc)
		args(x.Args)
	}
	for _, x := range d.Schemas {
		s(&x.Desc)
		uses(x.Dirs)
	}
	return d
}

// genRelined draws a text with effective lint comments and the same text with other line ends, and
// with blank lines wherever a line ends outside strings.
func genRelined(t *rapid.T, d *Doc, c *plainCase) Case {
	st := lintStyle(t, "b")
	st.NL, st.Inline, st.Min, st.BOM = "\n", false, false, false
	r := render(t, d, []string{"s.graphql"}, []Style{st}, false)
	if !faithful(d, r) {
		return nil
	}
	c.A = insertComments(t, r, st, rapid.IntRange(1, 5).Draw(t, "nComments"), func() string { return lintComment(t) })
	if len(directives(c.A)) == 0 {
		return nil
	}
	blank := rapid.IntRange(0, 4).Draw(t, "blankLines")
	nl := rapid.SampledFrom([]string{"\r\n", "\r", "\n"}).Draw(t, "otherNL")
	cs, multi := scanStrings(c.A)
	gap := map[int]int{} // where the blanks before a comment begin, and where the comment does
	for _, x := range cs {
		at := x.Off
		for at > 0 && strings.ContainsRune(" \t,", rune(c.A[at-1])) {
			at--
		}
		gap[at] = x.Off
	}
	var b strings.Builder
	for i := 0; i < len(c.A); i++ {
		if to, ok := gap[i]; ok && rapid.IntRange(0, 2).Draw(t, "gapHere") == 2 {
			b.WriteString(rapid.SampledFrom([]string{"", "", " ", "\t", ",", " , "}).Draw(t, "gap"))
			if i = to; i == len(c.A) {
				break
			}
		}
		if c.A[i] != '\n' {
			b.WriteByte(c.A[i])
			continue
		}
		b.WriteString(nl)
		if !multi[i] && blank > 0 && rapid.IntRange(0, 4).Draw(t, "blankHere") < blank {
			b.WriteString(nl)
		}
	}
	c.B = b.String()
	for _, x := range []string{c.A, c.B} {
		if a, err := parseOne("s", x); err != nil || dumpDoc(fromAST(a)) != dumpDoc(d) {
			return nil
		}
	}
	return c
}

func genPlain(t *rapid.T) Case {
	d := genLintDoc(t, lintCfg{Relay: 25, Descs: 55, Big: true, Free: 15})
	c := &plainCase{Mode: rapid.SampledFrom([]string{"texts that look like lint comments", "layout and ordinary comments", "ordinary comments", "line ends under lint comments"}).Draw(t, "mode")}
	if c.Mode == "line ends under lint comments" {
		return genRelined(t, d, c)
	}
	da, db := d, d
	sa, sb := plainStyle, lintStyle(t, "b")
	switch c.Mode {
	case "texts that look like lint comments":
		db = plainTexts(d)
		sa = lintStyle(t, "a")
	case "ordinary comments":
		sa = sb
		sa.Noise = 0
	}
	ra := render(t, da, []string{"s.graphql"}, []Style{sa}, false)
	rb := render(t, db, []string{"s.graphql"}, []Style{sb}, false)
	if !faithful(da, ra) || !faithful(db, rb) {
		return nil
	}
	c.A, c.B = ra.Files[0].Text, rb.Files[0].Text
	if c.Mode != "texts that look like lint comments" {
		c.B = insertComments(t, rb, sb, rapid.IntRange(1, 8).Draw(t, "nComments"), func() string { return rapid.SampledFrom(lookalikes).Draw(t, "look") })
		if a, err := parseOne("s", c.B); err != nil || dumpDoc(fromAST(a)) != dumpDoc(db) {
			return nil
		}
	}
	return c
}

func init() {
	register(&Prop{ID: "L06", Gen: genInline, New: func() Case { return &inlineCase{} }, Quick: 300000, Thorough: 1500000,
		Rule: "a case is a generated document with lint comments inserted at line ends outside strings, and a selection of rules; the reference applies the comments, found by an independent scanner, to what is found when they are made ordinary; non-trivial when an error is suppressed"})
	register(&Prop{ID: "L07", Gen: genSelect, New: func() Case { return &selectCase{} }, Quick: 240000, Thorough: 1000000,
		Rule: "a case is a generated document and a list of rule names (case and blanks varied, a wrong name among them or not); every twentieth goes through the built command; non-trivial when a name is wrong or a finding exists"})
	register(&Prop{ID: "L10", Gen: genPlain, New: func() Case { return &plainCase{} }, Quick: 240000, Thorough: 1200000,
		Rule: "a case is one schema in two presentations: other layout and ordinary comments, or descriptions and strings that look like lint comments against plain ones, or lint comments in effect under other line ends and blank lines; non-trivial when the texts differ and there are findings"})
}
