package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strings"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/vektah/gqlparser/v2/ast"
	"pgregory.net/rapid"
)

// Chg is one change reported by the code under test.
type Chg struct {
	T    string
	Sev  int
	Path string
	Msg  string
	File string
	Line int
	Col  int
	Pos  bool
	Off  int
}

func (c Chg) String() string {
	return fmt.Sprintf("%s %s path=%q %q at %s:%d", sevText(c.Sev), c.T, c.Path, c.Msg, c.File, c.Line)
}

func sevText(s int) string {
	if s >= 0 && s < 3 {
		return sevName[s]
	}
	return fmt.Sprint("severity ", s)
}

// key leaves out the position.
func (c Chg) key() string { return fmt.Sprintf("%s|%d|%s|%s", c.T, c.Sev, c.Path, c.Msg) }

func toChg(c *compare.Change) Chg {
	x := Chg{T: string(c.GetChangeType()), Sev: int(c.GetChangeCriticalityLevel()), Path: c.GetPath(), Msg: c.GetMessage()}
	if p := c.GetPosition(); p != nil {
		x.Pos = true
		x.Line = p.Line
		x.Col = p.Column
		x.Off = p.Start
		if p.Src != nil {
			x.File = p.Src.Name
		}
	}
	return x
}

func toChgs(l []*compare.Change) []Chg {
	var r []Chg
	for _, c := range l {
		r = append(r, toChg(c))
	}
	return r
}

func mustParse(fs []SrcFile) *ast.SchemaDocument {
	d, err := parseFiles(fs)
	if err != nil {
		hfail("case does not parse: %v", err)
	}
	return d
}

// compareFiles runs the comparison on freshly parsed documents.
func compareFiles(o, n []SrcFile) []Chg {
	return toChgs(compare.FindChangesInSchemas(mustParse(o), mustParse(n)))
}

func isNameByte(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

// mentions says whether the text contains the token, not as a part of a longer name.
func mentions(text, tok string) bool {
	if tok == "" {
		return true
	}
	for i := 0; i+len(tok) <= len(text); i++ {
		j := strings.Index(text[i:], tok)
		if j < 0 {
			return false
		}
		i += j
		e := i + len(tok)
		if (i == 0 || !isNameByte(tok[0]) || !isNameByte(text[i-1])) && (e == len(text) || !isNameByte(tok[len(tok)-1]) || !isNameByte(text[e])) {
			return true
		}
	}
	return false
}

// matchAll pairs got with want under ok; it returns the indexes left over on both sides.
func matchAll(nGot, nWant int, ok func(g, w int) bool) (extra, missing []int, assign []int) {
	adj := make([][]int, nWant)
	for w := 0; w < nWant; w++ {
		for g := 0; g < nGot; g++ {
			if ok(g, w) {
				adj[w] = append(adj[w], g)
			}
		}
	}
	owner := make([]int, nGot)
	for i := range owner {
		owner[i] = -1
	}
	var try func(w int, seen []bool) bool
	try = func(w int, seen []bool) bool {
		for _, g := range adj[w] {
			if seen[g] {
				continue
			}
			seen[g] = true
			if owner[g] < 0 || try(owner[g], seen) {
				owner[g] = w
				return true
			}
		}
		return false
	}
	for w := 0; w < nWant; w++ {
		try(w, make([]bool, nGot))
	}
	assign = make([]int, nWant)
	for i := range assign {
		assign[i] = -1
	}
	for g, w := range owner {
		if w < 0 {
			extra = append(extra, g)
		} else {
			assign[w] = g
		}
	}
	for w, g := range assign {
		if g < 0 {
			missing = append(missing, w)
		}
	}
	return
}

func chgFits(c Chg, e Exp) bool {
	if c.T != e.T || c.Sev != e.Sev || (e.Path != "*" && c.Path != e.Path) {
		return false
	}
	for _, w := range e.Who {
		if !mentions(c.Msg, w) {
			return false
		}
	}
	return true
}

// compareExact checks that the changes of the chosen types are exactly the expected ones.
func compareExact(got []Chg, want []Exp, mine func(t string) bool) string {
	var g []Chg
	var w []Exp
	for _, c := range got {
		if mine(c.T) {
			g = append(g, c)
		}
	}
	for _, e := range want {
		if mine(e.T) {
			w = append(w, e)
		}
	}
	extra, missing, _ := matchAll(len(g), len(w), func(i, k int) bool { return chgFits(g[i], w[k]) })
	if len(extra)+len(missing) == 0 {
		return ""
	}
	var b strings.Builder
	for _, i := range missing {
		fmt.Fprintf(&b, "not reported: %v\n", w[i])
	}
	for _, i := range extra {
		fmt.Fprintf(&b, "reported without cause (or in the wrong form): %v\n", g[i])
	}
	return b.String()
}

// diffMultisets compares two multisets of texts.
func diffMultisets(a, b []string, an, bn string) string {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	var out []string
	for k, v := range m {
		if v > 0 {
			out = append(out, fmt.Sprintf("%d x only %s: %s", v, an, k))
		}
		if v < 0 {
			out = append(out, fmt.Sprintf("%d x only %s: %s", -v, bn, k))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func chgKeys(l []Chg) []string {
	var r []string
	for _, c := range l {
		r = append(r, c.key())
	}
	return r
}

func showFiles(label string, fs []SrcFile) string {
	var b strings.Builder
	for _, f := range fs {
		t := f.Text
		if len(t) > 1500 {
			t = t[:1500] + "..."
		}
		fmt.Fprintf(&b, "--- %s %s\n%s\n", label, f.Name, t)
	}
	return b.String()
}

func fileNames(prefix string, n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprintf("%s%d.graphql", prefix, i))
	}
	return r
}

// spread assigns the items of a document to n files.
func spread(t *rapid.T, d *Doc, n int) *Doc {
	d = d.Clone()
	for _, x := range d.Types {
		x.File = rapid.IntRange(0, n-1).Draw(t, "file")
	}
	for _, x := range d.Dirs {
		x.File = rapid.IntRange(0, n-1).Draw(t, "file")
	}
	for _, x := range d.Schemas {
		x.File = rapid.IntRange(0, n-1).Draw(t, "file")
	}
	return d
}

func nFiles(t *rapid.T, label string) int {
	return rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, label)
}

func genStyles(t *rapid.T, label string, n int) []Style {
	var r []Style
	for i := 0; i < n; i++ {
		r = append(r, genStyle(t, label))
	}
	return r
}

// present renders a document in one of the plain or noisy styles over some files.
func present(t *rapid.T, d *Doc, prefix string) *Rendered {
	n := nFiles(t, prefix+"Files")
	if n > 1 {
		d = spread(t, d, n)
	}
	styles := []Style{plainStyle}
	if rapid.IntRange(0, 2).Draw(t, prefix+"Styled") == 2 {
		styles = genStyles(t, prefix+"Style", n)
	}
	r := render(t, d, fileNames(prefix, n), styles, false)
	if !faithful(d, r) {
		return nil
	}
	return r
}

// settle assigns the items of a document to n files by their names, so that what is the same in two
// documents is in the same file of both.
func settle(d *Doc, n, salt int) *Doc {
	d = d.Clone()
	seen := map[string]int{}
	at := func(k string) int {
		h := fnv.New32a()
		_, _ = fmt.Fprintf(h, "%d %s %d", salt, k, seen[k])
		seen[k]++
		return int(h.Sum32()>>8) % n
	}
	for _, x := range d.Types {
		x.File = at(x.key())
	}
	for _, x := range d.Dirs {
		x.File = at("@" + x.Name)
	}
	for _, x := range d.Schemas {
		x.File = at(fmt.Sprint("schema ", x.Ext))
	}
	return d
}

// presentPair renders the two sides of a comparison: each in its own way, or like two versions of a
// project, where the files that hold no change are the same byte by byte.
func presentPair(t *rapid.T, o, n *Doc) (*Rendered, *Rendered) {
	if rapid.IntRange(0, 3).Draw(t, "versions") < 3 {
		return present(t, o, "old"), present(t, n, "new")
	}
	return presentVersions(t, o, n)
}

func presentVersions(t *rapid.T, o, n *Doc) (*Rendered, *Rendered) {
	k, salt := rapid.IntRange(1, 4).Draw(t, "versionFiles"), rapid.IntRange(0, 255).Draw(t, "versionSalt")
	st := genStyle(t, "versionStyle")
	if rapid.IntRange(0, 1).Draw(t, "versionPlain") == 1 {
		st = plainStyle
	}
	st.Noise = 0
	r := [2]*Rendered{}
	for i, d := range []*Doc{o, n} {
		d = settle(d, k, salt)
		r[i] = render(t, d, fileNames([]string{"old", "new"}[i], k), []Style{st}, false)
		if !faithful(d, r[i]) {
			return nil, nil
		}
	}
	return r[0], r[1]
}

// captureStdout runs f with the process's standard output redirected and returns what was printed.
func captureStdout(e *Env, f func()) string {
	e.seq++
	tmp, err := os.Create(fmt.Sprintf("%s/out%d", e.Scratch, e.seq))
	if err != nil {
		hfail("capture: %v", err)
	}
	old := os.Stdout
	os.Stdout = tmp
	defer func() {
		os.Stdout = old
		_ = tmp.Close()
		_ = os.Remove(tmp.Name())
	}()
	f()
	os.Stdout = old
	b, err := os.ReadFile(tmp.Name())
	if err != nil {
		hfail("capture: %v", err)
	}
	return string(b)
}
