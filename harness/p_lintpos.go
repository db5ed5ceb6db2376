package main

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- L05: located and ordered

type lintPosCase struct {
	Text  string
	Rules []string // in the order they are run
	Want  []Find
	// Strict has the columns judged even where the shared parser is known to miscount them.
	Strict bool
}

var embedded = regexp.MustCompile(`^(-?\d+):(-?\d+) `)

func (c *lintPosCase) Check(e *Env) string {
	funcs := ruleFuncs(c.Rules)
	if funcs == nil && len(c.Rules) > 0 {
		return "a rule is missing"
	}
	ctx := showFiles("schema", []SrcFile{{"s.graphql", c.Text}})
	got := lintText("s.graphql", c.Text, c.Rules)
	// ordered
	for i := 1; i < len(got); i++ {
		a, b := got[i-1], got[i]
		if a.Line > b.Line || a.Line == b.Line && a.Col > b.Col {
			return fmt.Sprintf("with rules %v: out of order: %v comes before %v\n%s", c.Rules, a, b, ctx)
		}
	}
	// none lost or repeated
	var alone, have []string
	for _, f := range funcs {
		doc, err := parseOne("s.graphql", c.Text)
		if err != nil {
			hfail("case does not parse: %v", err)
		}
		for _, x := range toLErrs(f(doc)) {
			alone = append(alone, x.String())
		}
	}
	for _, x := range got {
		have = append(have, x.String())
	}
	if m := diffMultisets(alone, have, "found by the rules", "reported"); m != "" {
		return fmt.Sprintf("with rules %v: %s\n%s", c.Rules, m, ctx)
	}
	// located
	doc, err := parseOne("s.graphql", c.Text)
	if err != nil {
		hfail("case does not parse: %v", err)
	}
	at := elemPositions(doc)
	_, multi := scanText(c.Text)
	starts := lineStarts(c.Text)
	crlf := strings.Contains(c.Text, "\r\n")
	inside := func(x LErr, f Find) bool {
		if x.Line < f.Line || x.Line > f.LineE {
			return false
		}
		if !c.Strict && (multi[x.Line] || crlf) {
			// the shared parser miscounts columns here: the place must be one it gives this element
			return at[[2]int{x.Line, x.Col}][f.El]
		}
		off := offsetOf(c.Text, starts, x.Line, x.Col)
		return off >= f.Start && off < f.End
	}
	named := func(i, k int) bool {
		if got[i].Rule != c.Want[k].Rule {
			return false
		}
		for _, w := range c.Want[k].Who {
			if !mentions(got[i].Msg, w) {
				return false
			}
		}
		return true
	}
	extra, missing, _ := matchAll(len(got), len(c.Want), func(i, k int) bool { return named(i, k) && inside(got[i], c.Want[k]) })
	for _, i := range extra {
		for _, k := range missing {
			if named(i, k) {
				return fmt.Sprintf("not located on the element it is about (lines %d-%d): %v\n%s", c.Want[k].Line, c.Want[k].LineE, got[i], ctx)
			}
		}
	}
	for _, x := range got {
		if g := embedded.FindStringSubmatch(x.Msg); g != nil && (g[1] != itoa(x.Line) || g[2] != itoa(x.Col)) {
			return fmt.Sprintf("the message names another place than the error: %v\n%s", x, ctx)
		}
	}
	return ""
}

func (c *lintPosCase) Info() (bool, []string) {
	cls := []string{}
	if len(c.Rules) > 1 {
		cls = append(cls, "several-rules")
	}
	if len(c.Want) > 12 {
		cls = append(cls, "over-12-errors")
	}
	lines := map[int]int{}
	seen := map[string]bool{}
	for _, w := range c.Want {
		lines[w.Line]++
		if !seen[w.Rule] {
			seen[w.Rule] = true
			cls = append(cls, w.Rule)
		}
	}
	for _, n := range lines {
		if n > 1 {
			cls = append(cls, "several-on-a-line")
			break
		}
	}
	if strings.Contains(c.Text, "\r\n") {
		cls = append(cls, "columns-by-the-parser")
	} else {
		cls = append(cls, "columns-checked")
	}
	return len(c.Want) > 0, cls
}

// someRules draws a selection of rules in some order.
func someRules(t *rapid.T, label string) []string {
	switch rapid.IntRange(0, 3).Draw(t, label+"Sel") {
	case 0:
		return append([]string{}, lintRules...)
	case 1:
		return []string{rapid.SampledFrom(lintRules).Draw(t, label+"One")}
	}
	p := rapid.Permutation(lintRules).Draw(t, label+"Order")
	return p[:rapid.IntRange(1, len(p)).Draw(t, label+"N")]
}

func genLintPos(t *rapid.T) Case {
	lc := lintCfg{Relay: 35, Descs: 35, Big: true, Free: 15}
	d := genLintDoc(t, lc)
	r := render(t, d, []string{"s.graphql"}, []Style{lintStyle(t, "s")}, false)
	if !faithful(d, r) || len(directives(r.Files[0].Text)) > 0 {
		return nil
	}
	c := &lintPosCase{Text: r.Files[0].Text, Rules: someRules(t, "rules")}
	for _, f := range place(refLint(d), r) {
		if hasStr(c.Rules, f.Rule) {
			c.Want = append(c.Want, f)
		}
	}
	return c
}

func init() {
	register(&Prop{ID: "L05", Gen: genLintPos, New: func() Case { return &lintPosCase{} }, Quick: 300000, Thorough: 1500000,
		Rule:        "a case is a generated document in a drawn layout, a selection of rules in an order, and the place of every element; non-trivial when a finding is expected",
		Assumptions: []string{"where gqlparser v2.5.1 itself miscounts columns (a line on which a multi-line block string ends, CRLF line ends; recorded as known findings) a column must be one the parser gives to the element"}})
}
