package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	cmdlint "github.com/CrowdStrike/gql/cmd/linter"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- L11

type lintPureCase struct {
	Texts []string
	Order []int // the texts as they are linted one after the other
	Rules []string
	Conc  bool
	n     int
	diff  bool
}

// lintNames numbers the texts that are linted under a name of their own.
var lintNames atomic.Int64

func (c *lintPureCase) Check(e *Env) string {
	funcs := ruleFuncs(c.Rules)
	if funcs == nil && len(c.Rules) > 0 {
		return "a rule is missing"
	}
	files := func() string {
		var fs []SrcFile
		for i, x := range c.Texts {
			fs = append(fs, SrcFile{fmt.Sprintf("text %d", i), x})
		}
		return "\n" + showFiles("texts", fs)
	}
	// every rule leaves the document alone
	for i, x := range c.Texts {
		doc, err := parseOne("s.graphql", x)
		if err != nil {
			hfail("case does not parse: %v", err)
		}
		fresh, _ := parseOne("s.graphql", x)
		for k, f := range funcs {
			a := errTexts(toLErrs(f(doc)))
			if !reflect.DeepEqual(doc, fresh) {
				return fmt.Sprintf("rule %s modified the document of text %d%s", c.Rules[k], i, files())
			}
			if b := errTexts(toLErrs(f(doc))); !reflect.DeepEqual(a, b) {
				return fmt.Sprintf("rule %s finds %q in text %d, and %q when asked again%s", c.Rules[k], a, i, b, files())
			}
		}
	}
	// every text is judged by itself, under a name of its own or one they share
	lint := func(i int) []string {
		return errTexts(toLErrs(cmdlint.Lint("s.graphql", c.Texts[i], funcs)))
	}
	alone := func(i int) []string {
		name := fmt.Sprintf("s%d.graphql", lintNames.Add(1))
		return errTexts(toLErrs(cmdlint.Lint(name, c.Texts[i], funcs)))
	}
	ref := make([][]string, len(c.Texts))
	c.n = 0
	for i := range c.Texts {
		ref[i] = alone(i)
		c.n += len(ref[i])
		if i > 0 && !reflect.DeepEqual(ref[i], ref[0]) {
			c.diff = true
		}
	}
	for k, i := range c.Order {
		if got := lint(i); !reflect.DeepEqual(got, ref[i]) {
			return fmt.Sprintf("linted in the order %v, at place %d: %s%s", c.Order, k, diffMultisets(ref[i], got, "found the first time", "found now")+" (or another order)", files())
		}
	}
	if c.Conc {
		var wg sync.WaitGroup
		res := make([][]string, len(c.Order))
		shared, _ := parseOne("s.graphql", c.Texts[0])
		for k, i := range c.Order {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, f := range funcs {
					_ = f(shared)
				}
				res[k] = lint(i)
			}()
		}
		wg.Wait()
		for k, i := range c.Order {
			if !reflect.DeepEqual(res[k], ref[i]) {
				return fmt.Sprintf("text %d linted while others are: %s%s", i, diffMultisets(ref[i], res[k], "found alone", "found now")+" (or another order)", files())
			}
		}
	}
	return ""
}

func (c *lintPureCase) Info() (bool, []string) {
	cls := []string{fmt.Sprintf("texts:%d", len(c.Texts))}
	if c.Conc {
		cls = append(cls, "concurrent")
	}
	if c.diff {
		cls = append(cls, "texts-with-different-findings")
	}
	sup := 0
	for _, x := range c.Texts {
		if len(directives(x)) > 0 {
			sup++
		}
	}
	if sup > 0 && sup < len(c.Texts) {
		cls = append(cls, "lint-comments-in-some")
	}
	return c.n > 0 && len(c.Texts) > 1, cls
}

func genLintPure(t *rapid.T) Case {
	c := &lintPureCase{Rules: someRules(t, "rules"), Conc: rapid.IntRange(0, 4).Draw(t, "conc") == 4}
	for i := rapid.IntRange(1, 4).Draw(t, "nTexts"); i > 0; i-- {
		d := genLintDoc(t, lintCfg{Relay: 30, Descs: 35, Big: true, Free: 10, Dups: true})
		st := lintStyle(t, "s")
		r := render(t, d, []string{"s.graphql"}, []Style{st}, false)
		if !faithful(d, r) {
			return nil
		}
		text := r.Files[0].Text
		if rapid.IntRange(0, 2).Draw(t, "comments") == 2 {
			text = insertComments(t, r, st, rapid.IntRange(1, 4).Draw(t, "nComments"), func() string { return lintComment(t) })
		}
		if _, err := parseOne("s", text); err != nil {
			return nil
		}
		c.Texts = append(c.Texts, text)
		// the next text may be as long, with a letter of the other case
		if rapid.IntRange(0, 3).Draw(t, "sibling") == 3 {
			b := []byte(text)
			for k := rapid.IntRange(1, 3).Draw(t, "nFlips"); k > 0; k-- {
				at := rapid.IntRange(0, max(len(b)-1, 0)).Draw(t, "flip")
				for ; at < len(b); at++ {
					if x := b[at] | 32; x >= 'a' && x <= 'z' {
						b[at] ^= 32
						break
					}
				}
			}
			if _, err := parseOne("s", string(b)); err == nil && !strings.Contains(text, "\r") {
				c.Texts = append(c.Texts, string(b))
			}
		}
		// the next text may be the same with another ending
		if rapid.IntRange(0, 4).Draw(t, "prefix") == 4 {
			c.Texts = append(c.Texts, text+"\ntype zLast { Z: Int }\n")
		}
	}
	for i := rapid.IntRange(2, 7).Draw(t, "nOrder"); i > 0; i-- {
		c.Order = append(c.Order, rapid.IntRange(0, len(c.Texts)-1).Draw(t, "next"))
	}
	return c
}

func init() {
	register(&Prop{ID: "L11", Gen: genLintPure, New: func() Case { return &lintPureCase{} }, Quick: 60000, Thorough: 600000,
		Rule: "a case is a few texts, with and without lint comments, linted one after the other in a drawn order and, in a fifth of the cases, at the same time; non-trivial when there are at least two texts and a finding"})
}
