package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/CrowdStrike/gql/utils"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- U01

type TreeFile struct {
	Name string
	Kind string // file, dir, dangling, loop, link, locked
	Data []byte // file
	Pad  int    // further bytes, by a fixed pattern
	To   string // link
}

type readCase struct {
	Tree    []TreeFile
	Pattern string // relative to the directory of the tree
	Many    int    // further files m0..., matched by the pattern m*
	Mode    string
	Abs     bool
}

// causes are texts of the operating system's or the pattern matcher's errors.
var causes = map[string][]string{
	"dir":      {"is a directory"},
	"dangling": {"no such file"},
	"loop":     {"too many levels"},
	"locked":   {"permission denied"},
}

// glob is the reference: which of the tree's entries a pattern matches. Patterns have at most
// directory levels of plain elements, * and ? and classes within one element.
func (c *readCase) glob() []TreeFile {
	var r []TreeFile
	for _, f := range c.entries() {
		if elemMatch(c.Pattern, f.Name) {
			r = append(r, f)
		}
	}
	return r
}

// entries lists the tree with the directories its files are in.
func (c *readCase) entries() []TreeFile {
	r := append([]TreeFile{}, c.Tree...)
	have := map[string]bool{}
	for _, f := range c.Tree {
		have[f.Name] = true
	}
	for _, f := range c.Tree {
		for d := filepath.Dir(f.Name); d != "."; d = filepath.Dir(d) {
			if !have[d] {
				have[d] = true
				r = append(r, TreeFile{Name: d, Kind: "dir"})
			}
		}
	}
	return r
}

func elemMatch(pat, name string) bool {
	ps, ns := strings.Split(pat, "/"), strings.Split(name, "/")
	if len(ps) != len(ns) {
		return false
	}
	for i := range ps {
		if !wild([]rune(ps[i]), []rune(ns[i])) {
			return false
		}
	}
	return true
}

// wild is a plain matcher for *, ?, [abc], [a-c], [^a] and \x.
func wild(p, s []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if wild(p[1:], s[i:]) {
				return true
			}
		}
		return false
	case '?':
		return len(s) > 0 && wild(p[1:], s[1:])
	case '[':
		if len(s) == 0 {
			return false
		}
		i, neg, in := 1, false, false
		if p[i] == '^' {
			neg = true
			i++
		}
		for p[i] != ']' {
			lo := p[i]
			hi := lo
			if p[i+1] == '-' {
				hi = p[i+2]
				i += 2
			}
			i++
			in = in || s[0] >= lo && s[0] <= hi
		}
		return in != neg && wild(p[i+1:], s[1:])
	case '\\':
		return len(s) > 0 && s[0] == p[1] && wild(p[2:], s[1:])
	}
	return len(s) > 0 && s[0] == p[0] && wild(p[1:], s[1:])
}

// bytes is the content of the file.
func (f TreeFile) bytes() []byte {
	if f.Pad == 0 {
		return f.Data
	}
	b := make([]byte, len(f.Data)+f.Pad)
	copy(b, f.Data)
	x := uint32(2463534242)
	for i := len(f.Data); i < len(b); i++ {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x)
	}
	return b
}

func (c *readCase) build(dir string) {
	for _, f := range c.Tree {
		p := filepath.Join(dir, f.Name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			hfail("%v", err)
		}
		var err error
		switch f.Kind {
		case "file", "locked":
			err = os.WriteFile(p, f.bytes(), 0o644)
			if f.Kind == "locked" && err == nil {
				err = os.Chmod(p, 0)
			}
		case "dir":
			err = os.MkdirAll(p, 0o755)
		case "dangling":
			err = os.Symlink("nowhere-at-all", p)
		case "loop":
			err = os.Symlink(filepath.Base(p), p)
		case "link":
			err = os.Symlink(f.To, p)
		}
		if err != nil {
			hfail("%v", err)
		}
	}
}

func (c *readCase) Check(e *Env) string {
	return inDir(e, func(dir string) string {
		c.build(dir)
		switch c.Mode {
		case "many":
			return c.checkMany(e, dir)
		case "locked":
			return c.checkLocked(e, dir)
		}
		pat := c.Pattern
		old, err := os.Getwd()
		if err != nil {
			hfail("%v", err)
		}
		if c.Abs {
			pat = filepath.Join(dir, c.Pattern)
		} else {
			if err := os.Chdir(dir); err != nil {
				hfail("%v", err)
			}
			defer os.Chdir(old)
		}
		got, rerr := utils.ReadFiles(pat)
		return c.judge(dir, got, rerr)
	})
}

func (c *readCase) judge(dir string, got map[string][]byte, err error) string {
	var names []string
	for _, f := range c.Tree {
		names = append(names, f.Name+" ("+f.Kind+")")
	}
	ctx := fmt.Sprintf("\npattern %q, absolute %v, in a directory with %q", c.Pattern, c.Abs, names)
	if c.Mode == "bad-pattern" {
		if err == nil {
			return "a malformed pattern is accepted" + ctx
		}
		if !strings.Contains(err.Error(), "syntax error in pattern") {
			return fmt.Sprintf("the error for a malformed pattern does not say so: %v%s", err, ctx)
		}
		return ""
	}
	m := c.glob()
	if len(m) == 0 {
		if err == nil {
			return "a pattern that matches nothing is no error" + ctx
		}
		if !strings.Contains(err.Error(), c.Pattern) {
			return fmt.Sprintf("the error for a pattern that matches nothing does not name it: %v%s", err, ctx)
		}
		return ""
	}
	var bad []TreeFile
	content := map[string][]byte{}
	byName := map[string]TreeFile{}
	for _, f := range c.Tree {
		byName[f.Name] = f
	}
	for _, f := range m {
		g := f
		if f.Kind == "link" {
			g = byName[filepath.Join(filepath.Dir(f.Name), f.To)]
		}
		if g.Kind != "file" {
			bad = append(bad, g)
			continue
		}
		n := f.Name
		if c.Abs {
			n = filepath.Join(dir, n)
		}
		content[n] = g.bytes()
	}
	if len(bad) > 0 {
		if err == nil {
			return fmt.Sprintf("%q cannot be read (%s), and %d files are returned without an error%s", bad[0].Name, bad[0].Kind, len(got), ctx)
		}
		if len(got) > 0 {
			return fmt.Sprintf("%q cannot be read (%s), and a partial result of %d files comes with the error%s", bad[0].Name, bad[0].Kind, len(got), ctx)
		}
		for _, b := range bad {
			for _, t := range causes[b.Kind] {
				if strings.Contains(err.Error(), t) {
					return ""
				}
			}
		}
		return fmt.Sprintf("the error does not state the cause (%s): %v%s", bad[0].Kind, err, ctx)
	}
	if err != nil {
		return fmt.Sprintf("%d readable files match, and reading fails: %v%s", len(m), err, ctx)
	}
	var diff []string
	for n, b := range content {
		if g, ok := got[n]; !ok {
			diff = append(diff, fmt.Sprintf("%q is not returned", n))
		} else if !bytes.Equal(g, b) {
			diff = append(diff, fmt.Sprintf("%q: %d bytes are returned, the file has %d, or other bytes", n, len(g), len(b)))
		}
	}
	for n := range got {
		if _, ok := content[n]; !ok {
			diff = append(diff, fmt.Sprintf("%q is returned and does not match", n))
		}
	}
	if len(diff) > 0 {
		sort.Strings(diff)
		return strings.Join(diff, "\n") + ctx
	}
	return ""
}

// checkMany reads more files than the process may have open at once.
func (c *readCase) checkMany(e *Env, dir string) string {
	for i := 0; i < c.Many; i++ {
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("m%d.graphql", i)), []byte(fmt.Sprintf("\"d\"\ntype M%d { b%d: Int }\n", i, i)), 0o644); err != nil {
			hfail("%v", err)
		}
	}
	r := runLimited(e, dir, 48, "lint", "-f", "m*.graphql", "-r", "field-desc")
	rep := 0
	for i := 0; i < c.Many; i++ {
		if strings.Contains(r.Out, fmt.Sprintf("m%d.graphql:2:", i)) {
			rep++
		}
	}
	if rep != c.Many || r.Code == 0 {
		return fmt.Sprintf("%d files match, %d are read (the process may have 48 files open)\n%s", c.Many, rep, show(r))
	}
	return ""
}

// checkLocked reads as a user without the right to.
func (c *readCase) checkLocked(e *Env, dir string) string {
	if os.Geteuid() != 0 {
		return ""
	}
	_ = os.Chmod(dir, 0o755)
	r := runAsNobody(e, dir, "lint", "-f", c.Pattern)
	if r.Code == 0 || strings.Contains(r.all(), lintCleanText) {
		return "a file that may not be read: the command succeeds\n" + show(r)
	}
	if !strings.Contains(r.all(), causes["locked"][0]) {
		return "a file that may not be read: the error does not state the cause\n" + show(r)
	}
	return ""
}

// runLimited runs gql with a limit on open files.
func runLimited(e *Env, dir string, n int, args ...string) runResult {
	sh := "ulimit -n " + itoa(n) + " && exec \"$0\" \"$@\""
	return runCmd(e, dir, "", "/bin/sh", append([]string{"-c", sh, e.Gql}, args...)...)
}

func (c *readCase) Info() (bool, []string) {
	cls := []string{"mode:" + c.Mode}
	if c.Mode != "tree" {
		return true, cls
	}
	m := c.glob()
	odd := 0
	for _, f := range m {
		if f.Kind != "file" && f.Kind != "link" {
			odd++
		}
	}
	switch {
	case len(m) == 0:
		cls = append(cls, "no-match")
	case odd > 0 && len(m) > odd:
		cls = append(cls, "unreadable-among-readable")
	case odd > 0:
		cls = append(cls, "only-unreadable")
	case len(m) == 1:
		cls = append(cls, "one-match")
	default:
		cls = append(cls, "several-matches")
	}
	if len(m) > 0 && len(m) < len(c.Tree) {
		cls = append(cls, "some-do-not-match")
	}
	return len(m) > 0, cls
}

var (
	treeNames = []string{"a.graphql", "b.graphql", "ab.graphql", "a.gql", "c", "A.graphql", ".hidden.graphql", "a b.graphql", "d/a.graphql", "d/b.graphql", "d/e/a.graphql", "d2/a.graphql", "a1.graphql", "a10.graphql", "x-y.graphql", "\u00e9.graphql", "[a].graphql", "a*.graphql", "-f.graphql", "graphql", "aa.graphql"}
	patterns  = []string{"a.graphql", "*.graphql", "*", "a*.graphql", "?.graphql", "[ab].graphql", "[a-c]*.graphql", "[^a]*.graphql", "d/*.graphql", "*/a.graphql", "d/*/*.graphql", "d*/a.graphql", "*/*", "a1*", "\\[a].graphql", "a\\*.graphql", "*.gql", "c", "nothing.graphql", "d/nothing*", "\u00e9.graphql", "*a*", "d/e/a.graphql", "?b.graphql", "*l", "x-y.graphql", "a b.graphql", "**.graphql", "*.*"}
)

func genRead(t *rapid.T) Case {
	c := &readCase{Mode: "tree", Abs: rapid.Bool().Draw(t, "abs")}
	k := rapid.IntRange(0, 99).Draw(t, "mode")
	switch {
	case k >= 98:
		c.Mode = "many"
		c.Many = rapid.IntRange(20, 150).Draw(t, "many")
		c.Pattern = "m*.graphql"
		return c
	case k >= 96:
		c.Mode = "locked"
		c.Pattern = "*.graphql"
	case k >= 93:
		c.Mode = "bad-pattern"
	}
	used := map[string]bool{}
	isDir := map[string]bool{"d": true, "d2": true, "d/e": true}
	for i := rapid.IntRange(1, 8).Draw(t, "files"); i > 0; i-- {
		n := rapid.SampledFrom(treeNames).Draw(t, "name")
		if used[n] || isDir[n] {
			continue
		}
		used[n] = true
		f := TreeFile{Name: n, Kind: "file"}
		switch rapid.IntRange(0, 24).Draw(t, "kind") {
		case 20:
			f.Kind = "dir"
		case 21:
			f.Kind = "dangling"
		case 22:
			f.Kind = "loop"
		case 23, 24:
			// a link to an earlier file of the same directory
			for _, x := range c.Tree {
				if x.Kind == "file" && filepath.Dir(x.Name) == filepath.Dir(n) {
					f.Kind, f.To = "link", filepath.Base(x.Name)
				}
			}
		}
		if f.Kind == "file" {
			f.Data = fileData(t)
			if rapid.IntRange(0, 299).Draw(t, "large") == 299 {
				f.Pad = rapid.SampledFrom(largeSizes).Draw(t, "pad") + rapid.IntRange(-2, 2).Draw(t, "padOff") - len(f.Data)
				if f.Pad < 0 {
					f.Pad = 0
				}
			}
		}
		c.Tree = append(c.Tree, f)
	}
	if c.Mode == "locked" {
		c.Tree = []TreeFile{{Name: "a.graphql", Kind: "file", Data: []byte("\"d\" scalar A")}, {Name: "b.graphql", Kind: "file", Data: []byte("\"d\" scalar B")}, {Name: "c.graphql", Kind: "file", Data: []byte("\"d\" scalar C")}}
		c.Tree[rapid.IntRange(0, 2).Draw(t, "lockedAt")].Kind = "locked"
		if rapid.Bool().Draw(t, "lockedAlone") {
			for i := range c.Tree {
				if c.Tree[i].Kind == "locked" {
					c.Pattern = c.Tree[i].Name
				}
			}
		}
		return c
	}
	if c.Mode == "bad-pattern" {
		c.Pattern = rapid.SampledFrom([]string{"[a", "a[", "*[.graphql", "[]a].graphql", "a[b-].graphql", "[-].graphql", "[^", "a\\"}).Draw(t, "badPattern")
		// the matcher reads a pattern only as far as it needs to; a file named a makes it
		c.Tree = append(c.Tree, TreeFile{Name: "a", Kind: "file"}, TreeFile{Name: "a]", Kind: "file"})
		return c
	}
	c.Pattern = rapid.SampledFrom(patterns).Draw(t, "pattern")
	if rapid.IntRange(0, 2).Draw(t, "exact") == 2 && len(c.Tree) > 0 {
		n := rapid.SampledFrom(c.Tree).Draw(t, "exactOf").Name
		if !strings.ContainsAny(n, "*[") {
			c.Pattern = n
		}
	}
	return c
}

var largeSizes = []int{1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 21, 1<<22 + 1<<20, 1000 * 1000, 1 << 23}

// enumRead emits a file of every size around the powers of two, alone and among others.
func enumRead(tier string, emit func(Case)) {
	for k := 9; k <= 23; k++ {
		for off := -1; off <= 1; off++ {
			emit(&readCase{Mode: "tree", Pattern: "*.graphql", Tree: []TreeFile{{Name: "a.graphql", Kind: "file", Pad: 1<<k + off}, {Name: "b.graphql", Kind: "file", Data: []byte("scalar B")}}})
		}
	}
	for _, n := range []int{1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 999, 1000, 1001, 1023, 1025, 2000} {
		emit(&readCase{Mode: "many", Many: n, Pattern: "m*.graphql"})
		c := &readCase{Mode: "tree", Pattern: "*.graphql"}
		for i := 0; i < n; i++ {
			c.Tree = append(c.Tree, TreeFile{Name: fmt.Sprintf("f%d.graphql", i), Kind: "file", Data: []byte(itoa(i))})
		}
		emit(c)
	}
}

func fileData(t *rapid.T) []byte {
	switch rapid.IntRange(0, 9).Draw(t, "data") {
	case 0:
		return []byte{}
	case 1:
		return []byte("\xef\xbb\xbftype A { b: Int }\r\n\x00\xff tail")
	case 2:
		return bytes.Repeat([]byte("0123456789abcde\n"), rapid.IntRange(1, 9000).Draw(t, "blocks"))
	case 3:
		b := bytes.Repeat([]byte{0}, rapid.SampledFrom([]int{1, 511, 512, 513, 4095, 4096, 4097, 65535, 65536, 65537}).Draw(t, "size"))
		b[len(b)-1] = 'x'
		return b
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
}

func init() {
	register(&Prop{ID: "U01", Gen: genRead, New: func() Case { return &readCase{} }, Enum: enumRead, Quick: 80000, Thorough: 400000,
		Rule: "a case is a generated directory tree (files of any bytes, directories, dangling and looping links, unreadable files) and a pattern; non-trivial when the pattern matches something, is malformed, or the case limits open files or permissions"})
}
