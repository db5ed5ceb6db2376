package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C13

var marks = []string{"✅", "✋️", "❌"} // by severity

type reportCase struct {
	Old, New []SrcFile
	Glob     bool
	Odd      bool // file names of odd looks
	Full     bool // also with a standard output that takes nothing
	Mode     string
	Spell    int    // how the arguments are written
	N        [3]int // changes per severity, as the reference expects
}

// oneLine is a printed change.
type oneLine struct {
	Sev  int
	File string
	Line int
	Rest string // what follows the location
	All  string // what follows the mark
}

// location splits a change line behind its mark into the file, the line and the rest.
func location(rest string, files []SrcFile) (file string, line int, msg string, ok bool) {
	for _, f := range files {
		at := strings.Index(rest, f.Name+":")
		if at < 0 || at > 0 && (rest[at-1] != '/' || strings.Contains(rest[:at], " ")) {
			continue
		}
		tail := rest[at+len(f.Name)+1:]
		num, text, found := strings.Cut(tail, " ")
		n, err := strconv.Atoi(num)
		if !found || err != nil || n < 0 || ok && at+len(f.Name) < len(file) {
			continue
		}
		file, line, msg, ok = rest[:at+len(f.Name)], n, text, true
	}
	return
}

// readReport splits an output into its change lines and the other lines; files are those named in locations.
func readReport(out string, withLoc bool, files []SrcFile) (ch []oneLine, other []string) {
	for _, l := range strings.Split(out, "\n") {
		found := false
		for s, m := range marks {
			// other text may stand before the mark (the note about an empty file has no line end)
			at := strings.Index(l, m+"  ")
			if at < 0 {
				continue
			}
			rest := l[at+len(m)+2:]
			found = true
			x := oneLine{Sev: s, Rest: rest, All: rest}
			if withLoc {
				if file, line, msg, ok := location(rest, files); ok {
					x.File, x.Line, x.Rest = file, line, msg
				}
			}
			ch = append(ch, x)
			break
		}
		if !found {
			other = append(other, l)
		}
	}
	return
}

var breakingTotal = regexp.MustCompile(`Breaking changes in schema:\s*(\d+)`)

func (c *reportCase) args(flags ...string) []string {
	o, n := c.Old[0].Name, c.New[0].Name
	if c.Glob {
		o, n = "old*.graphql", "new*.graphql"
	}
	return compareArgs(c.Spell, o, n, flags...)
}

func (c *reportCase) Check(e *Env) string {
	changes := compareFiles(c.Old, c.New)
	nBrk := 0
	for _, x := range changes {
		if x.Sev == sevBrk {
			nBrk++
		}
	}
	ctx := func(r runResult) string { return "\n" + show(r) + showFiles("old", c.Old) + showFiles("new", c.New) }
	return inDir(e, func(dir string) string {
		writeFiles(dir, c.Old)
		writeFiles(dir, c.New)
		var withLoc []oneLine
		for _, flags := range [][]string{{}, {"-b"}, {"-e"}, {"-b", "-e"}} {
			only, noLoc := false, false
			for _, f := range flags {
				only = only || f == "-b"
				noLoc = noLoc || f == "-e"
			}
			r := runGql(e, dir, "", c.args(flags...)...)
			what := fmt.Sprintf("gql compare with flags %v: ", flags)
			if (r.Code != 0) != (nBrk > 0) {
				return what + fmt.Sprintf("exit status %d with %d breaking changes", r.Code, nBrk) + ctx(r)
			}
			if strings.Contains(r.Out, noChangesText) != (len(changes) == 0) {
				return what + fmt.Sprintf("%d changes exist, and the output says otherwise", len(changes)) + ctx(r)
			}
			files := append(append([]SrcFile{}, c.Old...), c.New...)
			lines, other := readReport(r.Out, !noLoc, files)
			var want, got []string
			for _, x := range changes {
				if only && x.Sev != sevBrk {
					continue
				}
				want = append(want, fmt.Sprintf("%s %s", sevText(x.Sev), strings.TrimSpace(x.Msg)))
			}
			printedBrk := 0
			for _, l := range lines {
				got = append(got, fmt.Sprintf("%s %s", sevText(l.Sev), strings.TrimSpace(l.Rest)))
				if l.Sev == sevBrk {
					printedBrk++
				}
			}
			if m := diffMultisets(want, got, "found", "printed"); m != "" {
				return what + m + ctx(r)
			}
			text := strings.Join(other, "\n")
			g := breakingTotal.FindAllStringSubmatch(text+"\n"+r.Out, -1)
			if printedBrk > 0 {
				if len(g) == 0 {
					return what + "no total of the breaking changes" + ctx(r)
				}
				for _, x := range g {
					if x[1] != strconv.Itoa(printedBrk) {
						return what + fmt.Sprintf("the total says %s, %d breaking changes are printed", x[1], printedBrk) + ctx(r)
					}
				}
				if strings.Contains(r.Out, "No breaking changes") {
					return what + "the output says there are no breaking changes" + ctx(r)
				}
			} else if len(g) > 0 {
				return what + "a total of breaking changes where there are none" + ctx(r)
			}
			if len(flags) == 0 {
				withLoc = lines
				// the location printed is that of the change
				var a, b []string
				for _, x := range changes {
					a = append(a, fmt.Sprintf("%s %s:%d %s", sevText(x.Sev), filepath.Base(x.File), x.Line, strings.TrimSpace(x.Msg)))
				}
				for _, l := range lines {
					b = append(b, fmt.Sprintf("%s %s:%d %s", sevText(l.Sev), filepath.Base(l.File), l.Line, strings.TrimSpace(l.Rest)))
				}
				if m := diffMultisets(a, b, "found", "printed"); m != "" {
					return what + m + ctx(r)
				}
			}
			if noLoc {
				// the same lines without the locations
				var a, b []string
				for _, l := range withLoc {
					if !only || l.Sev == sevBrk {
						a = append(a, sevText(l.Sev)+" "+l.Rest)
					}
				}
				for _, l := range lines {
					b = append(b, sevText(l.Sev)+" "+l.All)
				}
				if m := diffMultisets(a, b, "with locations", "without locations"); m != "" {
					return what + m + ctx(r)
				}
			}
			if c.Full && nBrk > 0 {
				if r := runFull(e, dir, c.args(flags...)...); r.Code == 0 {
					return what + fmt.Sprintf("exit status 0 with %d breaking changes when the output cannot be written", nBrk) + ctx(r)
				}
			}
		}
		return ""
	})
}

func (c *reportCase) Info() (bool, []string) {
	cls := []string{"mode:" + c.Mode}
	for i, n := range c.N {
		k := "none"
		if n == 1 {
			k = "one"
		} else if n > 1 {
			k = "several"
		}
		cls = append(cls, sevName[i]+":"+k)
	}
	if c.Glob {
		cls = append(cls, "several-files")
	}
	if c.Odd {
		cls = append(cls, "odd-file-names")
	}
	if c.Full && c.N[sevBrk] > 0 {
		cls = append(cls, "output-to-a-full-disk")
	}
	return c.N[0]+c.N[1]+c.N[2] > 0, cls
}

func genReport(t *rapid.T) Case {
	cfg := fullCfg()
	cfg.MaxTypes = 3
	var o, n *Doc
	mode := "same"
	if rapid.IntRange(0, 11).Draw(t, "same") == 11 {
		g := &gen{t: t, cfg: cfg}
		o = g.doc()
		n = g.shuffleDoc(o)
	} else {
		o, n, mode = genPair(t, cfg)
	}
	want := refDiff(o, n)
	// sides without breaking changes are rare: keep only the added things sometimes
	ro, rn := presentPair(t, o, n)
	if ro == nil || rn == nil {
		return nil
	}
	c := &reportCase{Old: ro.Files, New: rn.Files, Mode: mode, Spell: rapid.IntRange(0, spellings-1).Draw(t, "spell"), Glob: len(ro.Files)+len(rn.Files) > 2}
	for _, w := range want {
		c.N[w.Sev]++
	}
	c.Full = rapid.IntRange(0, 9).Draw(t, "full") == 9
	if rapid.IntRange(0, 3).Draw(t, "oddNames") == 3 {
		oddFileNames(t, c.Old, "old")
		oddFileNames(t, c.New, "new")
		if !c.Glob && rapid.IntRange(0, 3).Draw(t, "shortNames") == 3 {
			c.Old[0].Name = rapid.SampledFrom([]string{"o", "a", "0", "_", "o.graphql"}).Draw(t, "shortOld")
			c.New[0].Name = rapid.SampledFrom([]string{"n", "b", "1", "O", "ab"}).Draw(t, "shortNew")
		}
		c.Odd = true
	}
	return c
}

// oddTails are what file names may look like behind the word for the side.
var oddTails = []string{"%d", "%", "100%s", "%!", " x", ":3:4", "\u00e9", "-b", "'q'", "~", "&", "+x", "$HOME", "#1", "a,b", "=", "%v%v"}

// oddFileNames gives files other names with the same beginning and end.
func oddFileNames(t *rapid.T, fs []SrcFile, side string) {
	used := map[string]bool{}
	for i := range fs {
		s := side + rapid.SampledFrom(oddTails).Draw(t, "tail")
		for used[s] {
			s += "1"
		}
		used[s] = true
		fs[i].Name = s + ".graphql"
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name < fs[j].Name }) // as a pattern finds them
}

// numbers at which a count that is kept in a narrow field changes
var edgeCounts = []int{1, 2, 9, 10, 63, 64, 100, 127, 128, 255, 256, 257, 511, 512, 513, 768, 1024, 2048, 4096}

// enumReport emits pairs with a given number of changes of one severity, and perhaps some of another.
func enumReport(tier string, emit func(Case)) {
	for _, k := range edgeCounts {
		for _, sev := range []int{sevNon, sevDang, sevBrk} {
			for _, extra := range []int{-1, sevNon, sevDang, sevBrk} {
				if extra == sev {
					continue
				}
				var o, n strings.Builder
				for i, x := range []int{sev, extra} {
					cnt := k
					if i == 1 {
						cnt = 3
					}
					with, without := strings.Builder{}, strings.Builder{}
					kind := map[int]string{sevNon: "type", sevDang: "enum", sevBrk: "input"}[x]
					if kind == "" {
						continue
					}
					typ := map[int]string{sevNon: ": Int", sevDang: "", sevBrk: ": Int"}[x]
					fmt.Fprintf(&with, "%s T%d {\n  keep%s\n", kind, i, typ)
					fmt.Fprintf(&without, "%s T%d {\n  keep%s\n", kind, i, typ)
					for j := 0; j < cnt; j++ {
						fmt.Fprintf(&with, "  f%d%s\n", j, typ)
					}
					with.WriteString("}\n")
					without.WriteString("}\n")
					if x == sevBrk { // removed input fields
						o.WriteString(with.String())
						n.WriteString(without.String())
					} else { // added fields and enum values
						o.WriteString(without.String())
						n.WriteString(with.String())
					}
				}
				c := &reportCase{Old: []SrcFile{{"old0.graphql", o.String()}}, New: []SrcFile{{"new0.graphql", n.String()}}, Mode: "counted"}
				c.N[sev] = k
				if extra >= 0 {
					c.N[extra] = 3
				}
				emit(c)
			}
		}
	}
}

// ---------------------------------------------------------------- C14

type orderCase struct {
	Old, New []SrcFile
	Flags    []string
	Spell    int
	Rep      int
	Mode     string
	N        int
	Files    int
	Dirs     bool // the files are in directories
}

// sides are the paths of both sides.
func (c *orderCase) sides() (string, string) {
	if c.Dirs {
		return "old*/*/*", "new*/*/*"
	}
	return "old*", "new*"
}

func (c *orderCase) Check(e *Env) string {
	found := compareFiles(c.Old, c.New)
	want := len(found)
	if hasStr(c.Flags, "-b") {
		want = 0
		for _, x := range found {
			if x.Sev == sevBrk {
				want++
			}
		}
	}
	op, np := c.sides()
	return inDir(e, func(dir string) string {
		writeFiles(dir, c.Old)
		writeFiles(dir, c.New)
		var first runResult
		for i := 0; i < c.Rep; i++ {
			r := runGql(e, dir, "", compareArgs(c.Spell, op, np, c.Flags...)...)
			if i == 0 {
				first = r
				continue
			}
			if r.Out != first.Out || r.Err != first.Err || r.Code != first.Code {
				return fmt.Sprintf("run %d of the same comparison differs from the first\n--- first\n%s--- this\n%s%s%s", i+1, show(first), show(r), showFiles("old", c.Old), showFiles("new", c.New))
			}
		}
		noLoc := hasStr(c.Flags, "-e")
		files := append(append([]SrcFile{}, c.Old...), c.New...)
		lines, _ := readReport(first.Out, !noLoc, files)
		if len(lines) != want {
			return fmt.Sprintf("%d changes exist, %d are printed\n%s%s%s", want, len(lines), show(first), showFiles("old", c.Old), showFiles("new", c.New))
		}
		if noLoc {
			// the places of the changes whose text is not that of another one
			at := map[string][]oneLine{}
			full, _ := readReport(runGql(e, dir, "", compareArgs(c.Spell, op, np)...).Out, true, files)
			for _, x := range full {
				k := strings.TrimSpace(x.Rest)
				at[k] = append(at[k], x)
			}
			var known []oneLine
			for _, l := range lines {
				if x := at[strings.TrimSpace(l.Rest)]; len(x) == 1 {
					l.File, l.Line = x[0].File, x[0].Line
					known = append(known, l)
				}
			}
			lines = known
		}
		for i := 1; i < len(lines); i++ {
			a, b := lines[i-1], lines[i]
			if a.Sev != b.Sev {
				for _, x := range lines[i:] {
					if x.Sev == a.Sev {
						return fmt.Sprintf("the %s changes are not printed together\n%s", sevName[a.Sev], show(first))
					}
				}
				continue
			}
			if a.File > b.File || a.File == b.File && a.Line > b.Line {
				return fmt.Sprintf("out of order: %s:%d before %s:%d\n%s", a.File, a.Line, b.File, b.Line, show(first))
			}
		}
		return ""
	})
}

func (c *orderCase) Info() (bool, []string) {
	cls := []string{"mode:" + c.Mode, fmt.Sprintf("files:%d", c.Files)}
	if c.Dirs {
		cls = append(cls, "in-directories")
	}
	if c.N > 12 {
		cls = append(cls, "over-12-changes")
	}
	if c.N > 40 {
		cls = append(cls, "over-40-changes")
	}
	return c.N > 1, cls
}

func genOrder(t *rapid.T) Case {
	cfg := fullCfg()
	cfg.MaxTypes = 8
	cfg.BigChance = 40
	var o, n *Doc
	mode := "unrelated"
	switch rapid.IntRange(0, 3).Draw(t, "pair") {
	case 0:
		g := &gen{t: t, cfg: cfg}
		o, n = g.doc(), g.doc()
	default:
		o, n, mode = genPair(t, cfg)
	}
	nf := rapid.IntRange(1, 5).Draw(t, "nFiles")
	dirs := nf > 1 && rapid.IntRange(0, 2).Draw(t, "dirs") == 2
	names := func(side string, k int) []string {
		var r []string
		pool := []string{"a", "b", "B", "a10", "a2", "_", "zz", "a-b", "a b", "%d", "\u00e9", "a:7"}
		for i := 0; i < k; i++ {
			s := rapid.SampledFrom(pool).Draw(t, "fname")
			lead := side
			if dirs {
				lead += rapid.SampledFrom([]string{"", "", "2"}).Draw(t, "dir0") + "/" + rapid.SampledFrom(pool).Draw(t, "dir1") + "/"
			}
			for n := s; ; n += "1" {
				if s = lead + n + ".graphql"; !hasStr(r, s) {
					break
				}
			}
			r = append(r, s)
		}
		return r
	}
	o, n = spread(t, o, nf), spread(t, n, nf)
	so, sn := []Style{plainStyle}, []Style{plainStyle}
	if rapid.IntRange(0, 2).Draw(t, "styled") == 2 {
		sn = genStyles(t, "n", nf)
	}
	ro := render(t, o, names("old", nf), so, false)
	rn := render(t, n, names("new", nf), sn, true)
	if !faithful(o, ro) || !faithful(n, rn) {
		return nil
	}
	c := &orderCase{Old: ro.Files, New: rn.Files, Mode: mode, Files: nf, Dirs: dirs, Rep: 3, N: len(refDiff(o, n))}
	if rapid.IntRange(0, 2).Draw(t, "flags") == 2 {
		c.Flags = []string{rapid.SampledFrom([]string{"-e", "-b"}).Draw(t, "flag")}
	}
	c.Spell = rapid.IntRange(0, spellings-1).Draw(t, "spell")
	return c
}

// ---------------------------------------------------------------- C15

type badCase struct {
	Kind   string // what is wrong
	Side   string // old or new
	Good   []SrcFile
	Bad    []SrcFile // the faulty side's files; BadAt is the faulty one
	BadAt  int
	Flags  []string
	Spell  int
	Equal  bool // the sound files are the same on both sides
	GoodIs int
}

// The faults of one side.
var badKinds = []string{"missing-flag", "no-match", "syntax", "syntax", "syntax", "directory", "unreadable", "dangling", "same-path", "bad-pattern", "empty-path", "unterminated", "binary"}

func (c *badCase) Check(e *Env) string {
	return inDir(e, func(dir string) string {
		_ = os.Chmod(dir, 0o755)
		good, bad := "new", "old"
		if c.Side == "new" {
			good, bad = "old", "new"
		}
		mk := func(side string, fs []SrcFile) {
			d := filepath.Join(dir, side)
			_ = os.MkdirAll(d, 0o755)
			writeFiles(d, fs)
		}
		mk(good, c.Good)
		mk(bad, c.Bad)
		path := map[string]string{good: good + "/*.graphql", bad: bad + "/*.graphql"}
		faulty := ""
		if len(c.Bad) > 0 {
			faulty = filepath.Join(dir, bad, c.Bad[c.BadAt].Name)
		}
		asUser := false
		switch c.Kind {
		case "no-match":
			path[bad] = bad + "/nothing*.graphql"
		case "directory":
			_ = os.Remove(faulty)
			if err := os.Mkdir(faulty, 0o755); err != nil {
				hfail("%v", err)
			}
		case "unreadable":
			if err := os.Chmod(faulty, 0); err != nil {
				hfail("%v", err)
			}
			asUser = true
		case "dangling":
			_ = os.Remove(faulty)
			if err := os.Symlink("nowhere", faulty); err != nil {
				hfail("%v", err)
			}
		case "same-path":
			path[good] = path[bad]
		case "bad-pattern":
			path[bad] = bad + "/[a.graphql"
		case "empty-path":
			path[bad] = ""
		}
		args := compareArgs(c.Spell, path["old"], path["new"], c.Flags...)
		if c.Kind == "missing-flag" {
			args = append([]string{"compare"}, opt(c.Spell, good[:1], good+"version", path[good])...)
			args = append(args, c.Flags...)
		}
		var r runResult
		if asUser && os.Geteuid() == 0 {
			r = runAsNobody(e, dir, args...)
		} else {
			r = runGql(e, dir, "", args...)
		}
		said := r.all()
		if r.Code == 0 {
			return fmt.Sprintf("%s on the %s side: exit status 0\n%s%s", c.Kind, c.Side, show(r), showFiles(bad, c.Bad))
		}
		if strings.Contains(said, noChangesText) || strings.Contains(said, "No breaking changes") {
			return fmt.Sprintf("%s on the %s side: the output approves the schemas\n%s%s", c.Kind, c.Side, show(r), showFiles(bad, c.Bad))
		}
		if strings.TrimSpace(said) == "" {
			return fmt.Sprintf("%s on the %s side: nothing is printed\n%s", c.Kind, c.Side, show(r))
		}
		if strings.Contains(said, "goroutine ") && strings.Contains(said, "panic") {
			return fmt.Sprintf("%s on the %s side: the command crashed\n%s%s", c.Kind, c.Side, show(r), showFiles(bad, c.Bad))
		}
		if p := path[bad]; c.Kind != "missing-flag" && p != "" && !strings.Contains(said, bad+"/") {
			return fmt.Sprintf("%s on the %s side: the output does not name %q, where the fault is\n%s%s", c.Kind, c.Side, p, show(r), showFiles(bad, c.Bad))
		}
		for _, m := range marks {
			if strings.Contains(said, m+" ") {
				return fmt.Sprintf("%s on the %s side: changes are reported for input that cannot be compared\n%s%s", c.Kind, c.Side, show(r), showFiles(bad, c.Bad))
			}
		}
		return ""
	})
}

func (c *badCase) Info() (bool, []string) {
	return true, []string{c.Kind + "/" + c.Side, fmt.Sprintf("files:%d", len(c.Bad)), fmt.Sprintf("fault-at:%d", c.BadAt)}
}

// runAsNobody runs gql without the right to override file permissions.
func runAsNobody(e *Env, dir string, args ...string) runResult {
	restore := openPath(dir)
	defer restore()
	return runGqlAs(e, dir, &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: false}, args...)
}

var brokenTexts = []string{"type T {", "type T { a Int }", "}", "type", "type T { a: Int ! ! }", "enum { A }", "type T { a: }", "\"unterminated", "\"\"\"unterminated", "query { a }", "{ a }", "type T { a: Int } garbage", "directive @d on NOWHERE", "type T { a: Int = 1 }", "union U = ", "input I { a(b: Int): Int }", "schema { foo: Q }", "type T { a: [Int }", "extend type T", "extend T", "type T { a: Int \"x\" }", "type T @", "$", "type T { a: Int } \x00", "enum E { true }", "type T { a: Int", "...", "type 1T { a: Int }"}

func genBad(t *rapid.T) Case {
	cfg := fullCfg()
	cfg.MaxTypes, cfg.Bulk = 2, 0
	c := &badCase{Kind: rapid.SampledFrom(badKinds).Draw(t, "kind"), Side: rapid.SampledFrom([]string{"old", "new"}).Draw(t, "side")}
	nf := rapid.IntRange(1, 4).Draw(t, "files")
	mk := func() string { return renderPlain(genDoc(t, cfg), "x") }
	for i := 0; i < nf; i++ {
		f := SrcFile{fmt.Sprintf("f%d.graphql", i), mk()}
		c.Bad = append(c.Bad, f)
		if rapid.IntRange(0, 2).Draw(t, "alike") > 0 {
			c.Good = append(c.Good, f)
		}
	}
	c.Equal = len(c.Good) == len(c.Bad)
	if len(c.Good) == 0 {
		c.Good = []SrcFile{{"f0.graphql", mk()}}
	}
	c.BadAt = rapid.IntRange(0, nf-1).Draw(t, "at")
	switch c.Kind {
	case "syntax":
		b := rapid.SampledFrom(brokenTexts).Draw(t, "broken")
		if rapid.Bool().Draw(t, "mixed") {
			if rapid.Bool().Draw(t, "front") {
				b = b + "\n" + c.Bad[c.BadAt].Text
			} else {
				b = c.Bad[c.BadAt].Text + "\n" + b
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "mutated") == 3 {
			b = mutateText(t, c.Bad[c.BadAt].Text)
		}
		if _, err := parseOne("x", b); err == nil {
			b = "type Broken {"
		}
		c.Bad[c.BadAt].Text = b
	case "unterminated":
		c.Bad[c.BadAt].Text += "\n\"\"\" never closed\n"
	case "binary":
		c.Bad[c.BadAt].Text = "\x00\x01\x02" + c.Bad[c.BadAt].Text
	}
	c.Spell = rapid.IntRange(0, spellings-1).Draw(t, "spell")
	for _, f := range []string{"-b", "-e"} {
		if rapid.IntRange(0, 3).Draw(t, "flag"+f) == 3 {
			c.Flags = append(c.Flags, f)
		}
	}
	return c
}

func init() {
	register(&Prop{ID: "C13", Gen: genReport, New: func() Case { return &reportCase{} }, Quick: 16000, Thorough: 80000, Enum: enumReport,
		Rule: "a case is a generated pair of documents on disk, compared by the built command under four flag sets in varied spellings; non-trivial when the reference comparison expects a change"})
	register(&Prop{ID: "C14", Gen: genOrder, New: func() Case { return &orderCase{} }, Quick: 18000, Thorough: 90000,
		Rule: "a case is a generated pair of documents over up to five files a side, compared three times by the built command; non-trivial when at least two changes are expected"})
	register(&Prop{ID: "C15", Gen: genBad, New: func() Case { return &badCase{} }, Quick: 32000, Thorough: 160000,
		Rule: "a case is a pair of sides one of which has a fault (missing, no match, syntax error in one of several files, directory, unreadable, dangling link, malformed pattern, same path); every case is non-trivial"})
}
