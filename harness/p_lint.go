package main

import (
	"fmt"
	"regexp"
	"strings"

	cmdlint "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/linter"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- L01 to L04: the rules are exact

type LErr struct {
	Rule string
	Line int
	Col  int
	Msg  string
}

func (e LErr) String() string { return fmt.Sprintf("%s %d:%d %s", e.Rule, e.Line, e.Col, e.Msg) }

func toLErr(e linter.LintErrorWithMetadata) LErr {
	x := LErr{Rule: string(e.Rule), Line: e.Line, Col: e.Column}
	if e.Err != nil {
		x.Msg = e.Err.Error()
	}
	return x
}

func toLErrs(l []linter.LintErrorWithMetadata) []LErr {
	var r []LErr
	for _, e := range l {
		r = append(r, toLErr(e))
	}
	return r
}

// ruleFunc finds a rule in the list of the code under test.
func ruleFunc(name string) linter.LintRuleFunc {
	for _, r := range linter.AllTheRules {
		if string(r.Name) == name {
			return r.RuleFunction
		}
	}
	return nil
}

func ruleFuncs(names []string) []linter.LintRuleFunc {
	var r []linter.LintRuleFunc
	for _, n := range names {
		f := ruleFunc(n)
		if f == nil {
			return nil
		}
		r = append(r, f)
	}
	return r
}

// lintText lints a text with the chosen rules, as the command does for each file.
func lintText(name, text string, rules []string) []LErr {
	return toLErrs(cmdlint.Lint(name, text, ruleFuncs(rules)))
}

type ruleCase struct {
	Fam  string
	Text string
	Want []Find
}

var ruleFam = map[string][]string{
	"L01": {"type-desc", "args-desc", "field-desc", "enum-desc"},
	"L02": {"enum-caps", "field-camel", "type-caps"},
	"L03": {"relay-conn-type"},
	"L04": {"relay-conn-args"},
}

func findFits(e LErr, f Find) bool {
	if e.Rule != f.Rule || e.Line < f.Line || e.Line > f.LineE {
		return false
	}
	for _, w := range f.Who {
		if !mentions(e.Msg, w) {
			return false
		}
	}
	return lintMisnamed(e, f) == ""
}

var (
	dottedName = regexp.MustCompile(`[_A-Za-z][_0-9A-Za-z]*(?:\.[_A-Za-z][_0-9A-Za-z]*)+`)
	lintKinds  = regexp.MustCompile(`^(?:\d+:\d+ )?(extended )?(type|field|argument|enum value) `)
	lintWords  = []string{"description", "uppercase", "camel", "capitalized"}
	// what an error is about, and a word of the complaint by which the others are known
	lintSpeaks = map[string][2]string{
		"type-desc": {"type", "description"}, "args-desc": {"argument", "description"}, "field-desc": {"field", "description"}, "enum-desc": {"enum value", "description"},
		"enum-caps": {"enum value", "uppercase"}, "field-camel": {"field", "camel"}, "type-caps": {"type", "capitalized"},
	}
)

// lintMisnamed says what is wrong with the way a message names what it is about: the parts of
// a.b.c in another order, another kind of thing, another rule's complaint, the wrong argument.
func lintMisnamed(e LErr, f Find) string {
	text := e.Msg
	if sp, ok := lintSpeaks[e.Rule]; ok {
		if full := strings.Join(f.Who, "."); !strings.Contains(text, full) || strings.Count(text, ".") != strings.Count(full, ".") {
			for _, d := range dottedName.FindAllString(text, -1) {
				if d != full {
					return "names " + d
				}
			}
		}
		if g := lintKinds.FindStringSubmatch(text); g != nil {
			if g[2] != sp[0] {
				return "speaks of a " + g[2]
			}
			if g[1] != "" && !strings.HasPrefix(f.El, "ext:") {
				return "speaks of an extension"
			}
		}
		for _, other := range lintWords {
			if other == sp[1] || !strings.Contains(text, other) {
				continue
			}
			rest := " " + text + " "
			for _, w := range f.Who {
				rest = dropName(rest, w)
			}
			if strings.Contains(rest, other) {
				return "complains of " + other
			}
		}
		return ""
	}
	switch f.Null {
	case 1:
		if !strings.Contains(text, "nullable") {
			return "does not ask for a nullable type"
		}
	case 2:
		if strings.Contains(text, "nullable") {
			return "asks for a nullable type"
		}
		dir := map[string]string{"first": "backward", "last": "forward"}[f.Who[len(f.Who)-1]]
		if mentions(text, dir) && f.Who[0] != dir {
			return "speaks of the other direction"
		}
	}
	for _, q := range [][2]string{{"edges", "pageInfo"}, {"pageInfo", "edges"}} {
		if e.Rule == "relay-conn-type" && len(f.Who) > 1 && f.Who[1] == q[0] && mentions(text, q[1]) {
			return "speaks of " + q[1]
		}
	}
	return ""
}

// dropName removes a name from a text, where it stands alone.
func dropName(text, name string) string {
	return regexp.MustCompile(`(^|[^_0-9A-Za-z])`+regexp.QuoteMeta(name)+`($|[^_0-9A-Za-z])`).ReplaceAllString(text, "$1$2")
}

func compareFinds(got []LErr, want []Find) string {
	extra, missing, _ := matchAll(len(got), len(want), func(i, k int) bool { return findFits(got[i], want[k]) })
	if len(extra)+len(missing) == 0 {
		return ""
	}
	var b strings.Builder
	for _, k := range missing {
		fmt.Fprintf(&b, "not reported: %v\n", want[k])
	}
	for _, i := range extra {
		fmt.Fprintf(&b, "reported without cause (or about something else): %v\n", got[i])
	}
	return b.String()
}

func (c *ruleCase) Check(e *Env) string {
	for _, rule := range ruleFam[c.Fam] {
		f := ruleFunc(rule)
		if f == nil {
			return "there is no rule " + rule
		}
		doc, err := parseOne("s.graphql", c.Text)
		if err != nil {
			hfail("case does not parse: %v", err)
		}
		got := toLErrs(f(doc))
		var want []Find
		for _, w := range c.Want {
			if w.Rule == rule {
				want = append(want, w)
			}
		}
		if m := compareFinds(got, want); m != "" {
			return "rule " + rule + ":\n" + m + showFiles("schema", []SrcFile{{"s.graphql", c.Text}})
		}
	}
	return ""
}

func (c *ruleCase) Info() (bool, []string) {
	var cls []string
	seen := map[string]bool{}
	n := 0
	for _, w := range c.Want {
		ext := ""
		if strings.HasPrefix(w.El, "ext:") {
			ext = " in an extension"
		}
		k := "expect:" + w.Rule + ext
		n++
		if !seen[k] {
			seen[k] = true
			cls = append(cls, k)
		}
	}
	if n == 0 {
		cls = append(cls, "clean")
	}
	return n > 0, cls
}

func ruleProp(id string, lc lintCfg) {
	register(&Prop{
		ID: id, New: func() Case { return &ruleCase{} }, Quick: 400000, Thorough: 2000000,
		Rule: "a case is a generated schema document in a drawn layout; non-trivial when the reference model of the rules expects at least one finding of this property's rules",
		Gen: func(t *rapid.T) Case {
			d := genLintDoc(t, lc)
			r := render(t, d, []string{"s.graphql"}, []Style{lintStyle(t, "s")}, false)
			if !faithful(d, r) {
				return nil
			}
			c := &ruleCase{Fam: id, Text: r.Files[0].Text}
			for _, f := range place(refLint(d), r) {
				if hasStr(ruleFam[id], f.Rule) {
					c.Want = append(c.Want, f)
				}
			}
			return c
		},
	})
}

func init() {
	ruleProp("L01", lintCfg{Relay: 10, Descs: 60, Big: true, Dups: true, Free: 15})
	ruleProp("L02", lintCfg{Relay: 10, Descs: 20, Big: true, Dups: true, Free: 60})
	ruleProp("L03", lintCfg{Relay: 90, Descs: 10, Big: true, Dups: true, Free: 15, Deep: 2})
	ruleProp("L04", lintCfg{Relay: 90, Descs: 10, Big: true, Dups: true, Free: 15, Deep: 2})
}
