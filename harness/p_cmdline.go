package main

import (
	"fmt"
	"strings"

	plinter "github.com/CrowdStrike/gql/pkg/linter"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- U03

type cmdCase struct {
	Files []SrcFile
	Cmd   string
	Opts  []cmdOpt // what is asked
	A, B  [][]string
	Fault string
	Args  []string // with the fault
	Names string   // what the message has to name
	code  int
	found bool
}

type cmdOpt struct{ Short, Long, Val string }

var verdicts = []string{noChangesText, "No breaking changes", "Breaking changes in schema", "no lint errors", "Total lint errors"}

func flat(cmd string, groups [][]string) []string {
	r := []string{cmd}
	for _, g := range groups {
		r = append(r, g...)
	}
	return r
}

func (c *cmdCase) Check(e *Env) string {
	return inDir(e, func(dir string) string {
		writeFiles(dir, c.Files)
		about := func(args []string, r runResult) string {
			return fmt.Sprintf("\ngql %q\n%s%s", args, show(r), showFiles("files", c.Files))
		}
		if c.Fault == "" {
			a, b := flat(c.Cmd, c.A), flat(c.Cmd, c.B)
			ra, rb := runGql(e, dir, "", a...), runGql(e, dir, "", b...)
			c.code = ra.Code
			if ra.Out != rb.Out || ra.Err != rb.Err || ra.Code != rb.Code {
				return "the same options written in two ways give different results" + about(a, ra) + about(b, rb)
			}
			c.found = false
			for _, v := range verdicts {
				c.found = c.found || strings.Contains(ra.Out, v)
			}
			if !c.found {
				return "no verdict for faultless options" + about(a, ra)
			}
			return ""
		}
		r := runGql(e, dir, "type t { A: int }\n", c.Args...)
		c.code = r.Code
		for _, v := range verdicts {
			if strings.Contains(r.all(), v) {
				return fmt.Sprintf("%s: a verdict is given: %q%s", c.Fault, v, about(c.Args, r))
			}
		}
		if strings.HasPrefix(c.Fault, "help") {
			if r.Code != 0 {
				return "asking for help fails" + about(c.Args, r)
			}
			want := map[string][]string{
				"help":         {"lint", "compare"},
				"help compare": {"--oldversion", "--newversion", "--breaking-change-only", "--exclude-print-filepath", "-o", "-n", "-b", "-e"},
				"help lint":    {"--filepath", "--rules", "-f", "-r"},
			}[c.Fault]
			if c.Fault == "help lint" {
				for _, x := range plinter.AllTheRules {
					want = append(want, string(x.Name))
				}
			}
			for _, w := range want {
				if !strings.Contains(r.all(), w) {
					return fmt.Sprintf("the help text does not mention %s%s", w, about(c.Args, r))
				}
			}
			return ""
		}
		if r.Code == 0 {
			return c.Fault + ": the exit status is zero" + about(c.Args, r)
		}
		if !strings.Contains(r.all(), c.Names) {
			return fmt.Sprintf("%s: the output does not name %q%s", c.Fault, c.Names, about(c.Args, r))
		}
		return ""
	})
}

func (c *cmdCase) Info() (bool, []string) {
	k := c.Fault
	if k == "" {
		k = "faultless"
	}
	return true, []string{c.Cmd, k, "exit:" + itoa(c.code)}
}

// spelled writes options in some order, each in some way.
func spelled(t *rapid.T, opts []cmdOpt, name string) [][]string {
	var r [][]string
	for i, o := range rapid.Permutation(opts).Draw(t, name) {
		k := rapid.IntRange(0, 4).Draw(t, fmt.Sprintf("%s%d", name, i))
		switch {
		case o.Val == "true":
			r = append(r, []string{[]string{"-" + o.Short, "--" + o.Long, "--" + o.Long + "=true", "-" + o.Short + "=true", "--" + o.Long + "=1"}[k]})
		case o.Val == "false":
			// as good as not written
			r = append(r, [][]string{nil, {"--" + o.Long + "=false"}, {"-" + o.Short + "=false"}, nil, {"--" + o.Long, "--" + o.Long + "=false"}}[k])
		case o.Short == "r" && strings.Contains(o.Val, ",") && rapid.Bool().Draw(t, "apart"):
			for _, x := range strings.Split(o.Val, ",") {
				r = append(r, opt(k, o.Short, o.Long, x))
			}
		default:
			g := opt(k, o.Short, o.Long, o.Val)
			if o.Short != "r" && rapid.IntRange(0, 5).Draw(t, "twice") == 5 {
				// the last one counts
				g = append(opt(k+1, o.Short, o.Long, "other.graphql"), g...)
			}
			r = append(r, g)
		}
	}
	// two switches may be written as one
	for i := range r {
		if len(r[i]) == 1 && r[i][0] == "-b" && len(r) > 1 && rapid.Bool().Draw(t, name+"glue") {
			for j := range r {
				if len(r[j]) == 1 && r[j][0] == "-e" {
					r[i], r[j] = []string{"-be"}, nil
				}
			}
		}
	}
	return r
}

func genCmd(t *rapid.T) Case {
	c := &cmdCase{}
	n := func(lo, hi int, l string) int { return rapid.IntRange(lo, hi).Draw(t, l) }
	cfg := fullCfg()
	cfg.MaxTypes = 2
	g := &gen{t: t, cfg: cfg}
	one := func(name string) {
		d := g.doc()
		c.Files = append(c.Files, render(t, d, []string{name}, []Style{plainStyle}, false).Files...)
	}
	one("a.graphql")
	if n(0, 4, "same") == 4 {
		c.Files = append(c.Files, SrcFile{"b.graphql", c.Files[0].Text})
	} else {
		one("b.graphql")
	}
	if rapid.Bool().Draw(t, "compare") {
		c.Cmd = "compare"
		c.Opts = []cmdOpt{{"o", "oldversion", "a.graphql"}, {"n", "newversion", "b.graphql"}}
		for _, o := range []cmdOpt{{"b", "breaking-change-only", ""}, {"e", "exclude-print-filepath", ""}} {
			o.Val = []string{"true", "false"}[n(0, 1, o.Long)]
			c.Opts = append(c.Opts, o)
		}
	} else {
		c.Cmd = "lint"
		c.Opts = []cmdOpt{{"f", "filepath", []string{"a.graphql", "*.graphql", "b.graphql"}[n(0, 2, "path")]}}
		if rs := someRules(t, "rules"); len(rs) > 0 {
			c.Opts = append(c.Opts, cmdOpt{"r", "rules", strings.Join(rs, ",")})
		}
	}
	c.A = spelled(t, c.Opts, "a")
	k := n(0, 9, "fault")
	at := n(0, len(c.A), "at")
	with := func(x ...string) {
		var gs [][]string
		gs = append(append(append(gs, c.A[:at]...), x), c.A[at:]...)
		c.Args = flat(c.Cmd, gs)
	}
	other := map[string][]string{"compare": {"f", "r", "x", "q", "1"}, "lint": {"o", "n", "b", "e", "x"}}[c.Cmd]
	otherLong := map[string][]string{"compare": {"filepath", "rules", "breaking", "Oldversion", "old-version", "x", "quiet"}, "lint": {"oldversion", "rule", "file-path", "Rules", "x", "fix"}}[c.Cmd]
	bad := other[n(0, len(other)-1, "bad")]
	badLong := otherLong[n(0, len(otherLong)-1, "badLong")]
	if k == 3 && c.Cmd != "compare" {
		k = 2 // it has no switches
	}
	switch k {
	case 0:
		c.Fault, c.Names = "unknown short option", "'"+bad+"'"
		with([]string{"-" + bad, "-" + bad + "=a", "-" + bad + "a"}[n(0, 2, "form")])
	case 1:
		c.Fault, c.Names = "unknown long option", "--"+badLong
		with([]string{"--" + badLong, "--" + badLong + "=a"}[n(0, 1, "form")])
	case 2:
		v := c.Opts[0]
		for _, o := range c.Opts {
			if o.Val != "true" && o.Val != "false" && rapid.Bool().Draw(t, "which") {
				v = o
			}
		}
		at = len(c.A)
		if rapid.Bool().Draw(t, "long") {
			c.Fault, c.Names = "option without its value", "--"+v.Long
			with("--" + v.Long)
		} else {
			c.Fault, c.Names = "option without its value", "'"+v.Short+"'"
			with("-" + v.Short)
		}
	case 3:
		v := []string{"maybe", "2", "yes", "\"true\"", "TrUe"}[n(0, 4, "val")]
		o := c.Opts[n(2, 3, "switch")]
		c.Fault, c.Names = "malformed value", v
		if v[0] == '"' {
			c.Names = o.Long
		}
		with([]string{"--" + o.Long + "=" + v, "-" + o.Short + "=" + v}[n(0, 1, "form")])
	case 4:
		w := []string{"lnt", "Lint", "LINT", "comp", "Compare", "diff", "lint2", "check", "compares", "linter"}[n(0, 9, "word")]
		c.Fault, c.Names = "unknown command", w
		c.Args = flat(w, c.A)
		if rapid.IntRange(0, 3).Draw(t, "bare") == 3 {
			c.Args = c.Args[:1]
		}
	case 5:
		switch n(0, 3, "help") {
		case 0:
			c.Fault = "help"
			c.Args = [][]string{{}, {"-h"}, {"--help"}, {"help"}}[n(0, 3, "form")]
		case 1:
			c.Fault = "help compare"
			c.Args = [][]string{{"compare", "-h"}, {"compare", "--help"}, {"help", "compare"}}[n(0, 2, "form")]
		case 2:
			c.Fault = "help lint"
			c.Args = [][]string{{"lint", "-h"}, {"lint", "--help"}, {"help", "lint"}}[n(0, 2, "form")]
		default:
			c.Fault = "help " + c.Cmd
			with([]string{"-h", "--help"}[n(0, 1, "form")])
		}
	default:
		c.B = spelled(t, c.Opts, "b")
		return c
	}
	c.A = nil
	return c
}

func init() {
	register(&Prop{ID: "U03", Gen: genCmd, New: func() Case { return &cmdCase{} }, Quick: 16000, Thorough: 80000,
		Rule: "a case is a command line: the same options spelled and ordered in two ways, one with something unknown, missing or malformed at a drawn place, or one that asks for help; all are non-trivial"})
}
