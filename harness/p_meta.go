package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/utils"
	"github.com/vektah/gqlparser/v2/ast"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C01

type sameCase struct {
	A, B  []SrcFile
	Size  int
	Diffs []string // what differs between the two presentations
	Cli   bool
}

func parseLikeGql(fs []SrcFile) *ast.SchemaDocument {
	m := map[string][]byte{}
	for _, f := range fs {
		m[f.Name] = []byte(f.Text)
	}
	d, err := utils.ParseSchema(m)
	if err != nil {
		hfail("case does not parse: %v", err)
	}
	return d
}

func (c *sameCase) Check(e *Env) string {
	got := toChgs(compare.FindChangesInSchemas(parseLikeGql(c.A), parseLikeGql(c.B)))
	if len(got) > 0 {
		return fmt.Sprintf("two documents that say the same thing compare as changed: %v\n%s%s", got, showFiles("old", c.A), showFiles("new", c.B))
	}
	if c.Cli {
		return inDir(e, func(dir string) string {
			writeFiles(dir, c.A)
			writeFiles(dir, c.B)
			r := runGql(e, dir, "", "compare", "-o", "a*.graphql", "-n", "b*.graphql")
			if r.Code != 0 || !strings.Contains(r.Out, noChangesText) {
				return "two documents that say the same thing: the command reports changes\n" + show(r)
			}
			return ""
		})
	}
	return ""
}

func (c *sameCase) Info() (bool, []string) {
	cls := append([]string{}, c.Diffs...)
	if c.Cli {
		cls = append(cls, "command")
	}
	return c.Size > 1 && len(c.Diffs) > 0, cls
}

func genSame(t *rapid.T) Case {
	g := &gen{t: t, cfg: fullCfg()}
	g.cfg.BigChance = 8
	d := g.doc()
	if rapid.IntRange(0, 3).Draw(t, "dirHeavy") == 3 {
		g.cfg.DirHeavy = true
		d = g.doc()
	}
	if g.n(0, 7, "rename") == 7 {
		g.renamed(d)
	}
	c := &sameCase{Size: len(d.Types) + len(d.Dirs) + len(d.Schemas)}
	e := d
	if rapid.IntRange(0, 3).Draw(t, "shuffle") > 0 {
		e = g.shuffleDoc(d)
		if dumpOrdered(e) != dumpOrdered(d) {
			c.Diffs = append(c.Diffs, "order")
		}
	}
	na, nb := nFiles(t, "aFiles"), nFiles(t, "bFiles")
	if na != nb {
		c.Diffs = append(c.Diffs, "files")
	}
	da, db := spread(t, d, na), spread(t, e, nb)
	sa, sb := []Style{plainStyle}, genStyles(t, "b", nb)
	if rapid.IntRange(0, 2).Draw(t, "aStyled") == 2 {
		sa = genStyles(t, "a", na)
	}
	for i := range sb {
		x, y := sa[i%len(sa)], sb[i]
		if x.NL != y.NL {
			c.Diffs = append(c.Diffs, "line-ends")
			break
		}
	}
	for i := range sb {
		x, y := sa[i%len(sa)], sb[i]
		if x.Block != y.Block {
			c.Diffs = append(c.Diffs, "string-form")
			break
		}
	}
	for i := range sb {
		x, y := sa[i%len(sa)], sb[i]
		if x.Min != y.Min || x.Noise != y.Noise || x.Inline != y.Inline || x.Commas != y.Commas || x.Lead != y.Lead {
			c.Diffs = append(c.Diffs, "layout")
			break
		}
	}
	ra := render(t, da, fileNames("a", na), sa, false)
	rb := render(t, db, fileNames("b", nb), sb, true)
	if !faithful(da, ra) || !faithful(db, rb) {
		return nil
	}
	c.A, c.B = ra.Files, rb.Files
	c.Cli = rapid.IntRange(0, 59).Draw(t, "cli") == 59
	return c
}

func dumpOrdered(d *Doc) string { return renderPlain(d, "x") }

// ---------------------------------------------------------------- C10

type splitCase struct {
	OldA, NewA []SrcFile // one presentation of the pair
	OldB, NewB []SrcFile // the extensions cut differently
	Blocks     int       // extension blocks whose cut differs
	Changes    int
}

func (c *splitCase) Check(e *Env) string {
	a, b := compareFiles(c.OldA, c.NewA), compareFiles(c.OldB, c.NewB)
	c.Changes = len(a)
	if m := diffMultisets(chgKeys(a), chgKeys(b), "with the extensions cut one way", "with the extensions cut another way"); m != "" {
		return m + "\n" + showFiles("old", c.OldA) + showFiles("new", c.NewA) + showFiles("old, cut differently", c.OldB) + showFiles("new, cut differently", c.NewB)
	}
	// the same files as the commands read them
	bo, err := utils.ParseSchema(fileMap(c.OldB))
	if err != nil {
		return fmt.Sprintf("the files parse one after the other, but not as one schema: %v\n", err) + showFiles("files", c.OldB)
	}
	bn, err := utils.ParseSchema(fileMap(c.NewB))
	if err != nil {
		return fmt.Sprintf("the files parse one after the other, but not as one schema: %v\n", err) + showFiles("files", c.NewB)
	}
	if m := diffMultisets(chgKeys(a), chgKeys(toChgs(compare.FindChangesInSchemas(bo, bn))), "from the sources", "from the files read together"); m != "" {
		return m + "\n" + showFiles("old", c.OldB) + showFiles("new", c.NewB)
	}
	return ""
}

func fileMap(fs []SrcFile) map[string][]byte {
	m := map[string][]byte{}
	for _, f := range fs {
		m[f.Name] = []byte(f.Text)
	}
	return m
}

func (c *splitCase) Info() (bool, []string) {
	cls := []string{}
	if c.Changes > 0 {
		cls = append(cls, "with-changes")
	}
	if c.Blocks > 0 {
		cls = append(cls, "recut")
	}
	if sharesFile(c.OldA, c.NewA) && c.Changes > 0 {
		cls = append(cls, "changes-beside-a-file-that-is-the-same")
	}
	return c.Blocks > 0, cls
}

// sharesFile: some file with content is the same on both sides.
func sharesFile(a, b []SrcFile) bool {
	for _, x := range a {
		for _, y := range b {
			if x.Text == y.Text && len(strings.TrimSpace(x.Text)) > 0 {
				return true
			}
		}
	}
	return false
}

// recut writes the extensions of every type, and the schema extensions, as other blocks.
func (g *gen) recut(d *Doc) (*Doc, int) {
	r := &Doc{}
	n := 0
	m := d.merged(true)
	count := map[string]int{}
	for _, x := range d.Types {
		if !x.Ext {
			r.Types = append(r.Types, x.Clone())
		} else {
			count[x.Name]++
		}
	}
	for _, name := range sortedKeys(m) {
		x := m[name]
		k := g.n(1, 3, "blocks")
		bs := make([]*Type, k)
		for i := range bs {
			bs[i] = &Type{Ext: true, Kind: x.Kind, Name: x.Name}
		}
		to := func() *Type { return bs[g.n(0, k-1, "to")] }
		for _, y := range x.Ifaces {
			b := to()
			b.Ifaces = append(b.Ifaces, y)
		}
		for _, y := range x.Fields {
			b := to()
			b.Fields = append(b.Fields, y)
		}
		for _, y := range x.Vals {
			b := to()
			b.Vals = append(b.Vals, y)
		}
		for _, y := range x.Members {
			b := to()
			b.Members = append(b.Members, y)
		}
		for _, y := range x.Dirs {
			b := to()
			b.Dirs = append(b.Dirs, y)
		}
		used := 0
		for _, b := range bs {
			if !b.empty() {
				r.Types = append(r.Types, b)
				used++
			}
		}
		if used != count[name] || used > 1 {
			n++
		}
	}
	for _, x := range d.Dirs {
		r.Dirs = append(r.Dirs, x.Clone())
	}
	var ops []RootOp
	var dirs []DirUse
	exts := 0
	for _, s := range d.Schemas {
		if s.Ext {
			ops = append(ops, s.Ops...)
			dirs = append(dirs, cloneDirs(s.Dirs)...)
			exts++
		} else {
			r.Schemas = append(r.Schemas, s.Clone())
		}
	}
	if exts > 0 {
		k := g.n(1, 3, "schemaBlocks")
		bs := make([]*SchemaBlk, k)
		for i := range bs {
			bs[i] = &SchemaBlk{Ext: true}
		}
		for _, o := range ops {
			b := bs[g.n(0, k-1, "to")]
			b.Ops = append(b.Ops, o)
		}
		for _, o := range dirs {
			b := bs[g.n(0, k-1, "to")]
			b.Dirs = append(b.Dirs, o)
		}
		used := 0
		for _, b := range bs {
			if len(b.Ops)+len(b.Dirs) > 0 {
				r.Schemas = append(r.Schemas, b)
				used++
			}
		}
		if used != exts || used > 1 {
			n++
		}
	}
	return r, n
}

func presentSure(t *rapid.T, d *Doc, prefix string, shuffle bool) *Rendered {
	n := nFiles(t, prefix+"Files")
	d = spread(t, d, n)
	r := render(t, d, fileNames(prefix, n), []Style{plainStyle}, shuffle)
	if !faithful(d, r) {
		return nil
	}
	return r
}

func genSplit(t *rapid.T) Case {
	cfg := fullCfg()
	cfg.Types = typePool[:8]
	cfg.RootHeavy = rapid.IntRange(0, 3).Draw(t, "rootHeavy") == 3
	o, n, _ := genPair(t, cfg)
	g := &gen{t: t, cfg: cfg}
	c := &splitCase{}
	ob, k1 := g.recut(o)
	nb, k2 := g.recut(n)
	c.Blocks = k1 + k2
	if rapid.IntRange(0, 1).Draw(t, "versions") == 1 {
		// the first pair are two versions of a project
		ra, rb := presentVersions(t, o, n)
		rc, rd := presentSure(t, ob, "ob", true), presentSure(t, nb, "nb", true)
		if rapid.IntRange(0, 1).Draw(t, "versionsB") == 1 {
			rc, rd = presentVersions(t, ob, nb)
		}
		if ra == nil || rb == nil || rc == nil || rd == nil {
			return nil
		}
		c.OldA, c.NewA, c.OldB, c.NewB = ra.Files, rb.Files, rc.Files, rd.Files
		c.Changes = len(refDiff(o, n))
		return c
	}
	rs := []*Rendered{presentSure(t, o, "oa", false), presentSure(t, n, "na", false), presentSure(t, ob, "ob", true), presentSure(t, nb, "nb", true)}
	for _, r := range rs {
		if r == nil {
			return nil
		}
	}
	c.OldA, c.NewA, c.OldB, c.NewB = rs[0].Files, rs[1].Files, rs[2].Files, rs[3].Files
	c.Changes = len(refDiff(o, n))
	return c
}

// ---------------------------------------------------------------- C11

type composeCase struct {
	Base   []SrcFile
	Single [][]SrcFile // base with one edit
	All    []SrcFile   // base with all edits
	Frame  []SrcFile   // unrelated definitions
	Whats  []string
}

func (c *composeCase) Check(e *Env) string {
	var sum []string
	for _, s := range c.Single {
		sum = append(sum, chgKeys(compareFiles(c.Base, s))...)
	}
	all := chgKeys(compareFiles(c.Base, c.All))
	if m := diffMultisets(all, sum, "when the edits are made together", "when they are made one by one"); m != "" {
		return fmt.Sprintf("edits %v:\n%s\n%s%s", c.Whats, m, showFiles("base", c.Base), showFiles("all edits", c.All))
	}
	with := chgKeys(compareFiles(append(append([]SrcFile{}, c.Base...), c.Frame...), append(append([]SrcFile{}, c.All...), c.Frame...)))
	if m := diffMultisets(all, with, "without unrelated definitions", "with unrelated definitions on both sides"); m != "" {
		return m + "\n" + showFiles("base", c.Base) + showFiles("all edits", c.All) + showFiles("unrelated", c.Frame)
	}
	return ""
}

func (c *composeCase) Info() (bool, []string) {
	return len(c.Single) > 1, []string{fmt.Sprintf("edits:%d", len(c.Single))}
}

// conflict says whether two edit targets may touch the same thing.
func conflict(a, b string) bool {
	top := func(s string) string {
		if strings.HasPrefix(s, "ext:") {
			s, _, _ = strings.Cut(s, ".")
			s, _, _ = strings.Cut(s, "#")
		}
		return s
	}
	a, b = top(a), top(b)
	// what follows a # is a facet of the element: its description, one argument and so on
	under := func(x, y string) bool {
		return x == y || strings.HasPrefix(x, y+".") && !strings.Contains(y, "#") || strings.HasPrefix(x, y+"#")
	}
	if under(a, b) || under(b, a) {
		return true
	}
	name := func(s string) string {
		_, n, _ := strings.Cut(s, ":")
		n, _, _ = strings.Cut(n, ".")
		n, _, _ = strings.Cut(n, "#")
		return n
	}
	typ := func(s string) bool { return strings.HasPrefix(s, "def:") || strings.HasPrefix(s, "ext:") }
	rooty := func(s string) bool {
		n := name(s)
		return typ(s) && (n == "Query" || n == "Mutation" || n == "Subscription")
	}
	if a == "schema" && rooty(b) || b == "schema" && rooty(a) {
		return true
	}
	// the two halves of one type share its kind
	return typ(a) && typ(b) && name(a) == name(b) && a[:4] != b[:4]
}

func genCompose(t *rapid.T) Case {
	cfg := fullCfg()
	switch rapid.IntRange(0, 3).Draw(t, "flavour") {
	case 1:
		cfg.DirHeavy = true
	case 2:
		cfg.RootHeavy = true
	}
	max := 6
	if rapid.IntRange(0, 1).Draw(t, "dense") == 1 {
		// many edits of few types: several facets of one element
		cfg.MaxTypes, cfg.Exts, max = 2, false, 12
	}
	g := &gen{t: t, cfg: cfg}
	if cfg.MaxTypes == 2 && g.n(0, 1, "focus") == 1 {
		g.focus = true
		if g.args3 = g.n(0, 2, "args3") == 2; g.args3 {
			g.cfg.Kinds = []string{kObject, kInterface}
		}
	}
	base := g.doc()
	if g.focus {
		g.at = [3]int{g.n(0, 1, "focusType"), g.n(0, 3, "focusField"), g.n(0, 2, "focusDir")}
	}
	var targets []string
	var edits []Edit
	for i := g.n(2, max, "nEdits"); i > 0; i-- {
		e := g.edit(base)
		ok := true
		for _, x := range targets {
			ok = ok && !conflict(x, e.Target)
		}
		// several root types of a schema are one target; implicit roots follow the types
		if ok {
			targets = append(targets, e.Target)
			edits = append(edits, e)
		}
	}
	c := &composeCase{}
	rend := func(d *Doc, p string) []SrcFile {
		r := render(t, d, fileNames(p, 1), []Style{plainStyle}, false)
		if !faithful(d, r) {
			return nil
		}
		return r.Files
	}
	all := base.Clone()
	for _, e := range edits {
		one := base.Clone()
		e.Do(one)
		fs := rend(one, "one")
		if fs == nil {
			return nil
		}
		c.Single = append(c.Single, fs)
		c.Whats = append(c.Whats, e.What)
	}
	for _, e := range edits {
		e.Do(all)
	}
	// unrelated definitions: fresh names
	fg := &gen{t: t, cfg: fullCfg()}
	fg.cfg.Schemas = false
	fg.cfg.MaxTypes = 3
	fd := fg.doc()
	for _, x := range fd.Types {
		x.Name = "Frame" + x.Name
	}
	for _, x := range fd.Dirs {
		x.Name = "frame" + x.Name
	}
	c.Base, c.All, c.Frame = rend(base, "base"), rend(all, "all"), rend(fd, "frame")
	if c.Base == nil || c.All == nil || c.Frame == nil {
		return nil
	}
	return c
}

// ---------------------------------------------------------------- C17

type mirrorCase struct {
	A, B []SrcFile
	N    int
	Mode string
}

var mirrorOf = func(t string) string {
	switch {
	case strings.HasSuffix(t, "_ADDED"):
		return strings.TrimSuffix(t, "_ADDED") + "_REMOVED"
	case strings.HasSuffix(t, "_REMOVED"):
		return strings.TrimSuffix(t, "_REMOVED") + "_ADDED"
	}
	return t
}

// mirrorKeys abstracts the changes to (type, element). Instances of repeated directives are told
// only as changed or not, since a changed instance seen from the other side may be an added one.
func mirrorKeys(l []Chg, mirror bool) []string {
	var r []string
	rep := map[string]bool{}
	for _, c := range l {
		t, path := c.T, c.Path
		use := (t == "DIRECTIVE_ADDED" || t == "DIRECTIVE_REMOVED" || t == "DIRECTIVE_CHANGED") && !strings.HasPrefix(path, "@")
		if use {
			name := ""
			if i := strings.Index(c.Msg, "'@"); i >= 0 {
				name = c.Msg[i+2:]
				if j := strings.IndexByte(name, '\''); j >= 0 {
					name = name[:j]
				}
			}
			rep["applied directive @"+name+" of "+path] = true
			continue
		}
		if t == "DIRECTIVE_ARGUMENT_ADDED" && !strings.HasPrefix(path, "@") {
			t = "USE_ARGUMENT_ADDED"
			path = path[strings.LastIndex(path, "@"):]
		}
		if t == "DIRECTIVE_ARGUMENT_REMOVED" && c.Sev == sevDang {
			t = "USE_ARGUMENT_REMOVED"
			path, _, _ = strings.Cut(path, ".")
		}
		if mirror {
			t = mirrorOf(t)
		}
		r = append(r, t+" "+path)
	}
	for k := range rep {
		r = append(r, k)
	}
	return r
}

func (c *mirrorCase) Check(e *Env) string {
	f, b := compareFiles(c.A, c.B), compareFiles(c.B, c.A)
	if m := diffMultisets(mirrorKeys(f, false), mirrorKeys(b, true), "from old to new", "seen from new to old"); m != "" {
		return m + "\n" + showFiles("old", c.A) + showFiles("new", c.B)
	}
	return ""
}

func (c *mirrorCase) Info() (bool, []string) { return c.N > 0, []string{"mode:" + c.Mode} }

func genMirror(t *rapid.T) Case {
	cfg := fullCfg()
	switch rapid.IntRange(0, 4).Draw(t, "flavour") {
	case 1:
		cfg.DirHeavy = true
	case 2:
		cfg.RootHeavy = true
	case 3:
		cfg.Kinds = []string{kObject, kInput}
	}
	o, n, mode := genPair(t, cfg)
	ro, rn := presentPair(t, o, n)
	if ro == nil || rn == nil {
		return nil
	}
	return &mirrorCase{ro.Files, rn.Files, len(refDiff(o, n)), mode}
}

// ---------------------------------------------------------------- C16

type oddCase struct {
	A, B  []SrcFile
	Class []string
	Conc  bool
	Large string `json:",omitempty"` // instead of A and B: what there is N of
	N     int    `json:",omitempty"`
	Deep  int    `json:",omitempty"` // of which the one that differs is at this place
}

// large builds a pair of documents with many of something, of which one differs.
func (c *oddCase) large() (string, string) {
	rep := func(sep string, f func(i int) string) (string, string) {
		var a, b []string
		for i := 0; i < c.N; i++ {
			a = append(a, f(i))
			if i != c.Deep {
				b = append(b, f(i))
			}
		}
		return strings.Join(a, sep), strings.Join(b, sep)
	}
	in := func(pre, post, sep string, f func(i int) string) (string, string) {
		a, b := rep(sep, f)
		return pre + a + post, pre + b + post
	}
	num := func(s string) func(int) string {
		return func(i int) string { return strings.ReplaceAll(s, "%", itoa(i)) }
	}
	wrap := func(l, r, x string, n int) string { return strings.Repeat(l, n) + x + strings.Repeat(r, n) }
	switch c.Large {
	case "types":
		return rep("\n", num("type T% { a: Int }"))
	case "mixed types":
		return rep("\n", func(i int) string {
			k := []string{"type T% { a: Int }", "interface T% { a: Int }", "input T% { a: Int }", "enum T% { A }", "union T% = A", "scalar T%"}
			return num(k[i%len(k)])(i)
		})
	case "fields":
		return in("type T {", "}", "\n", num("f%(a: Int = 1): [Int!] @d"))
	case "input fields":
		return in("input T {", "}", "\n", num("f%: [Int!] = [1]"))
	case "arguments":
		return in("type T { f(", "): Int }", "\n", num("a%: Int = 1"))
	case "enum values":
		return in("enum T {", "}", "\n", num("V% @deprecated"))
	case "members":
		return in("union T = ", "", "|", num("M%"))
	case "interfaces":
		return in("type T implements ", " { a: Int }", "&", num("M%"))
	case "applied directives":
		return in("type T ", " { a: Int }", "\n", num("@d(x: %)"))
	case "other applied directives":
		return in("type T { a: Int ", " }", "\n", num("@d%"))
	case "directives":
		return rep("\n", num("directive @d%(a: Int) on FIELD"))
	case "directive arguments":
		return in("directive @d(", ") on FIELD", "\n", num("a%: Int"))
	case "extensions":
		return rep("\n", num("extend type T { f%: Int }"))
	case "schema extensions":
		a, b := rep("\n", num("extend schema @d%"))
		return a + " extend schema { query: Q }", b
	case "nested type":
		return "type T { a: " + wrap("[", "]", "Int", c.N) + " }", "type T { a: " + wrap("[", "]", "Int!", c.N) + " }"
	case "nested argument type":
		return "type T { a(b: " + wrap("[", "]!", "Int", c.N) + "): Int }", "type T { a(b: " + wrap("[", "]!", "Int!", c.N) + "): Int }"
	case "nested default":
		return "input T { a: Int = " + wrap("[", "]", "1", c.N) + " }", "input T { a: Int = " + wrap("[", "]", "2", c.N) + " }"
	case "nested object default":
		return "input T { a: Int = " + wrap("{a: ", "}", "1", c.N) + " }", "input T { a: Int = " + wrap("{a: ", "}", "2", c.N) + " }"
	case "nested directive value":
		return "type T @d(x: " + wrap("[", "]", "1", c.N) + ") { a: Int }", "type T @d(x: " + wrap("[", "]", "2", c.N) + ") { a: Int }"
	case "long default":
		return "input T { a: Int = [" + strings.Repeat("1 ", c.N) + "] }", "input T { a: Int = [" + strings.Repeat("1 ", c.Deep) + "2 " + strings.Repeat("1 ", c.N-c.Deep-1) + "] }"
	case "long name":
		n := strings.Repeat("n", c.N)
		return "type " + n + "a { " + n + ": " + n + " }", "type " + n + "a { " + n + ": " + n + "b }"
	case "long description":
		n := strings.Repeat("n ", c.N)
		return "\"" + n + "a\" type T { a: Int }", "\"" + n + "b\" type T { a: Int }"
	}
	hfail("no such case: %s", c.Large)
	return "", ""
}

var largeKinds = []string{"types", "mixed types", "fields", "input fields", "arguments", "enum values", "members", "interfaces", "applied directives", "other applied directives", "directives", "directive arguments", "extensions", "schema extensions", "nested type", "nested argument type", "nested default", "nested object default", "nested directive value", "long default", "long name", "long description"}

// enumLarge emits pairs with many of everything.
func enumLarge(tier string, emit func(Case)) {
	sizes := []int{100, 300, 1000, 1500}
	if tier == "thorough" {
		sizes = append(sizes, 257, 2048, 4097)
	}
	for _, n := range sizes {
		for _, k := range largeKinds {
			for _, at := range []int{0, n / 2, n - 1} {
				emit(&oddCase{Large: k, N: n, Deep: at, Class: []string{"large"}})
			}
		}
	}
}

func dumpAST(d *ast.SchemaDocument) string { return dumpDoc(fromAST(d)) }

func (c *oddCase) Check(e *Env) string {
	if c.Large != "" {
		a, b := c.large()
		x := &oddCase{A: []SrcFile{{"a", a}}, B: []SrcFile{{"b", b}}}
		fwd := compareFiles(x.A, x.B)
		if len(fwd) == 0 {
			return fmt.Sprintf("%d %s, of which one differs (place %d): no change is found", c.N, c.Large, c.Deep)
		}
		if len(fwd) > 1 {
			return fmt.Sprintf("%d %s, of which one differs (place %d): %d changes are found", c.N, c.Large, c.Deep, len(fwd))
		}
		if m := x.Check(e); m != "" {
			return fmt.Sprintf("%d %s, of which one differs (place %d): %s", c.N, c.Large, c.Deep, tail2(m, 3000))
		}
		x.A, x.B = x.B, x.A
		if m := x.Check(e); m != "" {
			return fmt.Sprintf("%d %s, of which one differs (place %d), in reverse: %s", c.N, c.Large, c.Deep, tail2(m, 3000))
		}
		return ""
	}
	a, b := mustParse(c.A), mustParse(c.B)
	a0, b0 := mustParse(c.A), mustParse(c.B)
	raw := compare.FindChangesInSchemas(a, b)
	first := toChgs(raw)
	ctx := func() string { return "\n" + showFiles("old", c.A) + showFiles("new", c.B) }
	if !reflect.DeepEqual(a, a0) {
		return "the comparison modified the old document" + ctx()
	}
	if !reflect.DeepEqual(b, b0) {
		return "the comparison modified the new document" + ctx()
	}
	again := toChgs(compare.FindChangesInSchemas(a, b))
	full := func(l []Chg) []string {
		var r []string
		for _, x := range l {
			r = append(r, fmt.Sprintf("%s|%s:%d:%d|%v", x.key(), x.File, x.Line, x.Col, x.Pos))
		}
		return r
	}
	if m := diffMultisets(full(first), full(again), "the first time", "when repeated"); m != "" {
		return m + ctx()
	}
	if c.Conc {
		var wg sync.WaitGroup
		res := make([][]Chg, 4)
		for i := range res {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if i%2 == 0 {
					res[i] = toChgs(compare.FindChangesInSchemas(a, b))
				} else {
					_ = compare.FindChangesInSchemas(b, a)
					res[i] = toChgs(compare.FindChangesInSchemas(a, b))
				}
			}()
		}
		wg.Wait()
		for _, r := range res {
			if m := diffMultisets(full(first), full(r), "alone", "when run concurrently"); m != "" {
				return m + ctx()
			}
		}
		if !reflect.DeepEqual(a, a0) || !reflect.DeepEqual(b, b0) {
			return "concurrent comparisons modified a document" + ctx()
		}
	}
	groups := compare.GroupChanges(raw)
	n := 0
	for _, l := range groups {
		n += len(l)
	}
	if n != len(raw) {
		return fmt.Sprintf("%d changes were found, %d after grouping%s", len(raw), n, ctx())
	}
	for sev, l := range groups {
		for _, x := range l {
			if x.GetChangeCriticalityLevel() != sev {
				return fmt.Sprintf("a %v change is grouped with the %v ones: %s%s", x.GetChangeCriticalityLevel(), sev, x.GetMessage(), ctx())
			}
		}
	}
	for _, withPath := range []bool{true, false} {
		out := captureStdout(e, func() {
			compare.ReportBreakingChanges(groups[compare.Breaking], withPath)
			compare.ReportDangerousChanges(groups[compare.Dangerous], withPath)
			compare.ReportNonBreakingChanges(groups[compare.NonBreaking], withPath)
		})
		for _, x := range first {
			if !strings.Contains(out, x.Msg) {
				return fmt.Sprintf("the change %q was found but not printed%s", x.Msg, ctx())
			}
		}
	}
	return ""
}

func (c *oddCase) Info() (bool, []string) {
	return len(c.Class) > 0, c.Class
}

// mutateText makes a small change of the text: it often no longer parses.
func mutateText(t *rapid.T, s string) string {
	toks := strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '\n' || r == '\t' })
	if len(toks) == 0 {
		return s
	}
	for k := rapid.IntRange(1, 3).Draw(t, "muts"); k > 0; k-- {
		i := rapid.IntRange(0, len(toks)-1).Draw(t, "tokA")
		j := rapid.IntRange(0, len(toks)-1).Draw(t, "tokB")
		switch rapid.IntRange(0, 5).Draw(t, "mutOp") {
		case 0:
			toks[i], toks[j] = toks[j], toks[i]
		case 1:
			toks = append(toks[:i], toks[i+1:]...)
		case 2:
			toks[i] = toks[j]
		case 3:
			toks = append(toks[:i+1], append([]string{toks[j]}, toks[i+1:]...)...)
		case 4:
			toks[i] = rapid.SampledFrom([]string{"@d", "{", "}", "!", "null", "extend", "type", "input", "enum", "schema", ":", "=", "$x", "[", "]", "|", "&", "implements", "on", "repeatable", "\"s\"", "__typename", "deprecated", "@deprecated", "query", "fragment"}).Draw(t, "mutTok")
		case 5:
			toks[i] = toks[i] + " " + toks[i]
		}
		if len(toks) == 0 {
			return ""
		}
	}
	return strings.Join(toks, " ")
}

var oddTexts = []string{
	"type T", "extend type T @a", "type T @a @a @b(x: null)", "type T { a: Int a: String }", "enum E", "enum E { A A }", "union U", "union U = A | A",
	"input I { a: Int = {} }", "input I { a: [Int] = [[], [null]] }", "type T { f(a: Int = null, a: String): Int }", "directive @d on FIELD", "directive @d(a: Int = 1) repeatable on FIELD | FIELD",
	"schema { query: Q query: R }", "schema { query: Q } schema { mutation: M }", "extend schema @x", "extend schema { query: Q } extend schema { query: R }",
	"type T type T { a: Int }", "type T interface T", "extend type T @a extend input T @a", "scalar S @a(o: {a: {b: [1, \"x\", E, true, 1.5, null]}})",
	"type Query", "interface Query { a: Int }", "extend type Query { a: Int }", "type T implements A & A", "interface I implements J & K { a: Int }",
	"type T { a: Int @deprecated @deprecated(reason: \"x\") }", "enum E { A @deprecated(reason: null) B @deprecated(why: 1) }", "input I { a: Int! = 1 @deprecated(reason: REASON) }",
	"directive @d on FIELD directive @d(a: Int!) on QUERY", "\"\" type T", "\"\"\"\"\"\" enum E { \"\" A }", "directive @deprecated(reason: String) on FIELD", "type __T { __a: Int }", "type T { a: Int @a(x: $v) }",
	"extend union U = A", "extend enum E { A }", "extend scalar S @a", "extend interface I { a: Int }", "extend input I { a: Int }",
}

func genOdd(t *rapid.T) Case {
	c := &oddCase{}
	side := func(label string) []SrcFile {
		var parts []string
		mk := func() {
			switch rapid.IntRange(0, 3).Draw(t, label+"Kind") {
			case 0, 1:
				parts = append(parts, rapid.SampledFrom(oddTexts).Draw(t, label+"Odd"))
			case 2:
				cfg := fullCfg()
				cfg.MaxTypes, cfg.Bulk = 3, 0
				cfg.Types = typePool[:6]
				cfg.DirHeavy = rapid.Bool().Draw(t, "heavy")
				parts = append(parts, renderPlain(genDoc(t, cfg), "x"))
			case 3:
				cfg := fullCfg()
				cfg.MaxTypes, cfg.Bulk = 2, 0
				cfg.Types = typePool[:4]
				s := mutateText(t, renderPlain(genDoc(t, cfg), "x"))
				if _, err := parseOne("x", s); err == nil {
					parts = append(parts, s)
					c.Class = append(c.Class, "mutated-text")
				}
			}
		}
		for i := rapid.IntRange(0, 4).Draw(t, label+"Parts"); i >= 0; i-- {
			mk()
		}
		var fs []SrcFile
		k := 1
		if rapid.IntRange(0, 3).Draw(t, label+"Files") == 3 {
			k = len(parts)
		}
		for i, p := range parts {
			if k == 1 && i > 0 {
				fs[0].Text += "\n" + p
			} else {
				fs = append(fs, SrcFile{fmt.Sprintf("%s%d", label, i), p})
			}
		}
		return fs
	}
	c.A = side("a")
	if rapid.IntRange(0, 3).Draw(t, "related") > 0 && len(c.A) > 0 {
		for _, f := range c.A {
			s := f.Text
			if rapid.Bool().Draw(t, "mutFile") {
				if m := mutateText(t, s); func() bool { _, err := parseOne("x", m); return err == nil }() {
					s = m
					c.Class = append(c.Class, "mutated-text")
				}
			}
			if rapid.IntRange(0, 2).Draw(t, "more") == 0 {
				s += "\n" + rapid.SampledFrom(oddTexts).Draw(t, "bOdd")
			}
			c.B = append(c.B, SrcFile{"b" + f.Name, s})
		}
	} else {
		c.B = side("b")
	}
	for _, fs := range [][]SrcFile{c.A, c.B} {
		d, err := parseFiles(fs)
		if err != nil {
			return nil
		}
		names := map[string]bool{}
		for _, x := range d.Definitions {
			if names[x.Name] {
				c.Class = append(c.Class, "duplicate-definitions")
				break
			}
			names[x.Name] = true
		}
		if len(d.Schema) > 1 {
			c.Class = append(c.Class, "several-schema-blocks")
		}
		ext := map[string]ast.DefinitionKind{}
		for _, x := range d.Extensions {
			if _, ok := ext[x.Name]; ok {
				c.Class = append(c.Class, "repeated-extension")
				break
			}
			ext[x.Name] = x.Kind
		}
	}
	sort.Strings(c.Class)
	c.Class = uniq(c.Class)
	c.Conc = rapid.IntRange(0, 9).Draw(t, "conc") == 9
	if c.Conc {
		c.Class = append(c.Class, "concurrent")
	}
	return c
}

func uniq(l []string) []string {
	var r []string
	for i, x := range l {
		if i == 0 || x != l[i-1] {
			r = append(r, x)
		}
	}
	return r
}

func init() {
	register(&Prop{ID: "C01", Gen: genSame, New: func() Case { return &sameCase{} }, Quick: 220000, Thorough: 1500000,
		Rule: "a case is one generated document in two presentations; non-trivial when it has at least two items and the presentations differ in order, layout, line ends, string form or files"})
	register(&Prop{ID: "C10", Gen: genSplit, New: func() Case { return &splitCase{} }, Quick: 160000, Thorough: 1200000,
		Rule: "a case is a generated pair of documents, each with its extensions cut into blocks and files in two ways; non-trivial when at least one extended type (or the schema extension) is cut differently or into several blocks"})
	register(&Prop{ID: "C11", Gen: genCompose, New: func() Case { return &composeCase{} }, Quick: 120000, Thorough: 900000,
		Rule: "a case is a document, some edits of it that touch different elements, and unrelated definitions; non-trivial when there are at least two edits"})
	register(&Prop{ID: "C16", Gen: genOdd, Enum: enumLarge, New: func() Case { return &oddCase{} }, Quick: 160000, Thorough: 1200000,
		Rule: "a case is a pair of documents the parser accepts, built from odd fragments, generated documents and mutated texts; non-trivial when it has duplicate definitions, repeated schema blocks or extensions, mutated text, is run concurrently, or differs in one element of a very large or deeply nested document (enumerated: kinds of element by sizes by places)"})
	register(&Prop{ID: "C17", Gen: genMirror, New: func() Case { return &mirrorCase{} }, Quick: 180000, Thorough: 1200000,
		Rule: "a case is a generated pair of documents; non-trivial when the reference comparison expects a change"})
}
