package main

import (
	"fmt"
	"strings"

	"github.com/vektah/gqlparser/v2/ast"
	"pgregory.net/rapid"
)

// Reference model of the lint rules, over the SDL model, and the generator of documents to lint.

var lintRules = []string{"type-desc", "args-desc", "field-desc", "enum-caps", "enum-desc", "field-camel", "type-caps", "relay-conn-type", "relay-conn-args"}

// Find is one expected lint error.
type Find struct {
	Rule string
	Who  []string // names the message must mention
	Null int      // whether the message must ask for a nullable type: 1 must, 2 must not, 0 not judged
	El   string   // element key, as the printer's spans have it
	Idx  int      // which of several spans of that key (duplicate definitions)
	// filled in from the rendering
	Start, End int // byte offsets: the element's own text, description included
	Line       int // first and last line of it
	LineE      int
}

func (f Find) String() string {
	return fmt.Sprintf("%s about %v (lines %d-%d)", f.Rule, f.Who, f.Line, f.LineE)
}

func isLowerCamel(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		lower, upper, digit := c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9'
		if i == 0 && !lower || !(lower || upper || digit) {
			return false
		}
	}
	return true
}

func hasLower(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 'a' && s[i] <= 'z' {
			return true
		}
	}
	return false
}

// refLint lists what every rule must find. keyIdx numbers the blocks that share a span key.
func refLint(d *Doc) []Find {
	var out []Find
	seen := map[string]int{}
	for _, t := range d.Types {
		key := t.key()
		blk := seen[key]
		seen[key]++
		add := func(rule string, el string, who ...string) {
			out = append(out, Find{Rule: rule, Who: who, El: el, Idx: blk})
		}
		if !t.Ext && t.Desc == "" {
			add("type-desc", key, t.Name)
		}
		if c := t.Name[0]; c >= 'a' && c <= 'z' {
			add("type-caps", key, t.Name)
		}
		for _, v := range t.Vals {
			el := key + "." + v.Name
			if v.Desc == "" {
				add("enum-desc", el, t.Name, v.Name)
			}
			if hasLower(v.Name) {
				add("enum-caps", el, t.Name, v.Name)
			}
		}
		for _, f := range t.Fields {
			el := key + "." + f.Name
			if f.Desc == "" {
				add("field-desc", el, t.Name, f.Name)
			}
			if !isLowerCamel(f.Name) {
				add("field-camel", el, t.Name, f.Name)
			}
			if t.Kind == kObject || t.Kind == kInterface {
				for _, a := range f.Args {
					if a.Desc == "" {
						add("args-desc", el+"."+a.Name, t.Name, f.Name, a.Name)
					}
				}
			}
			if strings.HasSuffix(f.Type.Base(), "Connection") {
				first, after, last, before := findArg(f.Args, "first"), findArg(f.Args, "after"), findArg(f.Args, "last"), findArg(f.Args, "before")
				fwd, bwd := first != nil && after != nil, last != nil && before != nil
				if !fwd && !bwd {
					add("relay-conn-args", el, f.Name)
				}
				bad := func(a *Arg, other bool) bool {
					return a != nil && (a.Type.Elem != nil || a.Type.Name != "Int" || other && a.Type.NonNull)
				}
				null := func(other bool) {
					out[len(out)-1].Null = 2
					if other {
						out[len(out)-1].Null = 1
					}
				}
				if bad(first, bwd) {
					add("relay-conn-args", el+".first", f.Name, "first")
					null(bwd)
				}
				if bad(last, fwd) {
					add("relay-conn-args", el+".last", f.Name, "last")
					null(fwd)
				}
			}
		}
		if !t.Ext && strings.HasSuffix(t.Name, "Connection") {
			if t.Kind != kObject {
				add("relay-conn-type", key, t.Name)
				continue
			}
			if e := t.field("edges"); e == nil {
				add("relay-conn-type", key, t.Name, "edges")
			} else if e.Type.Elem == nil {
				add("relay-conn-type", key+".edges", t.Name, "edges")
			}
			if e := t.field("pageInfo"); e == nil {
				add("relay-conn-type", key, t.Name, "pageInfo")
			} else if e.Type.String() != "PageInfo!" {
				add("relay-conn-type", key+".pageInfo", t.Name, "pageInfo")
			}
		}
	}
	return out
}

// place fills in where each expected error may be reported, from a one-file rendering.
func place(fs []Find, r *Rendered) []Find {
	text := r.Files[0].Text
	var out []Find
	for _, f := range fs {
		sp := r.Spans[f.El]
		var s Span
		// members of duplicate definitions: spans are listed in printing order per key; a key that is
		// not in every duplicate block has fewer spans, so take the one inside the block's own span
		owner := f.El
		if i := strings.IndexByte(f.El, '.'); i >= 0 {
			owner = f.El[:i]
		}
		blk := r.Spans[owner][f.Idx]
		ok := false
		for _, x := range sp {
			if x.Start >= blk.Start && x.End <= blk.End {
				s = x
				ok = true
			}
		}
		if !ok {
			hfail("no span for %s", f.El)
		}
		f.Start, f.End = s.Start, s.End
		f.Line, _ = lineCol(text, s.Start)
		f.LineE, _ = lineCol(text, s.End-1)
		out = append(out, f)
	}
	return out
}

// ---------------------------------------------------------------- generator

var (
	lintTypes  = []string{"Query", "User", "user", "apple", "zed", "aB", "_x", "Connection", "UserConnection", "userConnection", "PageInfo", "PostConnection", "UserConnectionX", "connection", "Userconnection", "A", "Z9", "z", "a", "_A", "type", "Role", "UserEdge", "PAGEINFO", "b", "y"}
	lintFields = []string{"id", "edges", "pageInfo", "fooBar", "foo_bar", "FooBar", "_x", "a", "Z", "f1", "nodes", "edge", "pageinfo", "Edges", "users", "x_", "x1Y2", "type", "aB_", "zZ", "first", "after", "posts", "__t"}
	lintArgs   = []string{"first", "after", "last", "before", "First", "id", "x", "firstN", "filter"}
	lintVals   = []string{"RED", "red", "Red", "R_1", "_", "r", "A1b", "GREEN", "BLUe", "X9", "aA", "Z_z", "_A1"}
	lintBases  = []string{"Int", "String", "UserConnection", "Connection", "PageInfo", "UserEdge", "userConnection", "Userconnection", "PageInfoX", "ID", "ConnectionX", "connection", "PostConnection"}
	lintDescs  = []string{"d", "Some text.", "#lint-disable type-desc", "# lint-disable field-desc", "line one\n#lint-disable type-desc, field-desc, args-desc, enum-desc\nline two", "#lint-disable-line enum-caps,enum-desc,field-desc,type-desc,args-desc", `with "quotes"`, "a # b", "#lint-enable type-desc", "caf\u00e9 \u2603", "x\n\ny", "#lint-", "{ type Fake }", "text \U0001F600", "0"}
)

type lintCfg struct {
	Relay int // percentage of documents that lean to relay names
	ASCII bool
	Descs int
	Big   bool
	Dups  bool
	Free  int // percentage of name draws that are of random structure
	Deep  int // how deep types may be wrapped, beyond the usual
}

type lintGen struct {
	*gen
	lc lintCfg
}

func (g *lintGen) desc(l string) string {
	if !g.pct(g.lc.Descs, l) {
		return ""
	}
	s := g.pick(lintDescs, l+"Text")
	if g.lc.ASCII {
		for _, r := range s {
			if r > 0x7e {
				return "ascii"
			}
		}
	}
	return s
}

var nameParts = []string{"a", "b", "A", "Z", "z", "foo", "BAR", "Bar", "x1", "X1", "q", "Y", "id", "R2d2", "m", "N"}

// free draws a name of random structure: parts of any case, digits and underscores.
func (g *lintGen) free(l string) string {
	s := ""
	switch g.n(0, 23, l+"Lead") {
	case 23, 22:
		s = "_"
	case 21:
		s = "__"
	case 20:
		s = "_0"
	case 19:
		return g.pick(oddNames, l+"Odd")
	case 18:
		s = strings.Repeat(g.pick([]string{"n", "N", "Long", "A_"}, l+"Long"), g.n(10, 150, l+"Len"))
	}
	for i := g.n(1, 4, l+"Parts"); i > 0; i-- {
		s += g.pick(nameParts, l+"Part")
		if i > 1 {
			s += g.pick([]string{"", "_", "_", "__", "9", "_0"}, l+"Sep")
		}
	}
	if g.n(0, 7, l+"Trail") == 7 {
		s += "_"
	}
	return s
}

// some draws n different names, from the pool or free ones, each with what suffix adds.
func (g *lintGen) some(pool []string, n int, l string, taken map[string]bool, suffix func(string) string) []string {
	if !g.pct(g.lc.Free, l+"Free") {
		return g.distinct(pool, n, l, taken)
	}
	p := append([]string{}, pool...)
	for i := 0; i < n; i++ {
		s := g.free(l)
		if suffix != nil {
			s = suffix(s)
		}
		p = append(p, s, s, s, s)
	}
	return g.distinct(p, n, l, taken)
}

func (g *lintGen) connSuffix(s string) string {
	switch g.n(0, 3, "suffix") {
	case 2:
		return s + "Connection"
	case 3:
		return s + g.pick([]string{"ConnectionX", "connection", "Connections", "_Connection", "Connection2"}, "suffixText")
	}
	return s
}

// uses draws directives for an element.
func (g *lintGen) dirsOn(p int, l string) []DirUse {
	if !g.pct(p, l+"Dirs") {
		return nil
	}
	switch g.n(0, 3, l+"DirKind") {
	case 0, 1:
		return []DirUse{g.deprecated()}
	case 2:
		return []DirUse{g.dirUse(g.pick(dirPool, l+"Dir"))}
	}
	return []DirUse{g.deprecated(), g.dirUse(g.pick(dirPool, l+"Dir"))}
}

func (g *lintGen) wrap(t *TypeRef, depth int) *TypeRef {
	t.NonNull = g.n(0, 2, "nn") == 2
	if depth > 0 && g.n(0, 3, "wrapIt") == 3 {
		return g.wrap(&TypeRef{Elem: t}, depth-1)
	}
	return t
}

func (g *lintGen) lintField(kind, name string, relay bool) *Field {
	f := &Field{Name: name, Desc: g.desc("fieldDesc")}
	base := g.pick(lintBases, "base")
	if name == "pageInfo" && g.n(0, 2, "pi") > 0 {
		base = "PageInfo"
	}
	if relay && g.n(0, 1, "conn") == 1 {
		base = g.pick([]string{"UserConnection", "Connection", "PostConnection", "userConnection"}, "connBase")
	}
	if g.pct(g.lc.Free/2, "freeBase") {
		base = g.connSuffix(g.free("base"))
	}
	f.Type = g.wrap(&TypeRef{Name: base}, 2+g.lc.Deep)
	if kind == kInput {
		if g.pct(15, "def") {
			f.Default = g.value(1)
		}
		return f
	}
	n := g.n(0, 2, "nArgs")
	pool := lintArgs
	if relay {
		n = g.n(0, 5, "nArgsR")
		pool = lintArgs[:6]
	}
	for _, an := range g.some(pool, n, "argName", nil, nil) {
		b := "Int"
		if g.n(0, 2, "argBase") == 2 {
			b = g.pick([]string{"String", "ID", "Float", "int", "UserConnection", "IntX", "BigInt"}, "argBaseN")
		}
		a := &Arg{Name: an, Desc: g.desc("argDesc"), Type: g.wrap(&TypeRef{Name: b}, 1+g.lc.Deep), Dirs: g.dirsOn(5, "arg")}
		if g.pct(10, "argDef") {
			a.Default = g.value(1)
		}
		f.Args = append(f.Args, a)
	}
	f.Dirs = g.dirsOn(12, "f")
	return f
}

func (g *lintGen) lintBody(t *Type, relay bool) {
	max := 4
	if g.lc.Big && g.pct(30, "bigType") {
		max = 25
	}
	switch t.Kind {
	case kObject, kInterface, kInput:
		pool := lintFields
		if relay && strings.HasSuffix(t.Name, "onnection") {
			pool = []string{"edges", "pageInfo", "edges", "pageInfo", "Edges", "pageinfo", "nodes", "edge"}
		}
		for _, n := range g.some(pool, g.n(0, max, "nFields"), "fieldName", nil, nil) {
			t.Fields = append(t.Fields, g.lintField(t.Kind, n, relay))
		}
		if t.Kind != kInput && g.pct(10, "impl") {
			t.Ifaces = []string{g.pick(lintTypes, "iface")}
		}
	case kEnum:
		for _, n := range g.some(lintVals, g.n(0, max, "nVals"), "valName", nil, func(s string) string {
			if s == "true" || s == "false" || s == "null" {
				return s + "_"
			}
			return s
		}) {
			t.Vals = append(t.Vals, &EnumVal{Name: n, Desc: g.desc("valDesc"), Dirs: g.dirsOn(15, "val")})
		}
	case kUnion:
		t.Members = g.distinct(lintTypes, g.n(0, 3, "nMembers"), "member", nil)
	}
	if g.pct(8, "tdirs") {
		t.Dirs = []DirUse{g.dirUse(g.pick(dirPool, "tdir"))}
	}
	if t.Ext && t.empty() {
		switch t.Kind {
		case kObject, kInterface, kInput:
			t.Fields = append(t.Fields, g.lintField(t.Kind, g.pick(lintFields, "fieldName"), relay))
		case kEnum:
			t.Vals = append(t.Vals, &EnumVal{Name: g.pick(lintVals, "valName"), Desc: g.desc("valDesc")})
		case kUnion:
			t.Members = []string{g.pick(lintTypes, "member")}
		default:
			t.Dirs = []DirUse{{Name: "key"}}
		}
	}
}

// genLintDoc draws a document to lint, in one file.
func genLintDoc(t *rapid.T, lc lintCfg) *Doc {
	g := &lintGen{&gen{t: t, cfg: GenCfg{ASCII: lc.ASCII}}, lc}
	d := &Doc{}
	relay := g.pct(lc.Relay, "relay")
	kinds := []string{kObject, kObject, kEnum, kInput, kInterface, kUnion, kScalar}
	if relay {
		kinds = []string{kObject, kObject, kObject, kInterface, kEnum, kUnion, kScalar, kInput}
	}
	max := 4
	if lc.Big && g.pct(20, "bigDoc") {
		max = 20
	}
	names := lintTypes
	if relay {
		names = []string{"UserConnection", "Query", "PostConnection", "Connection", "userConnection", "User", "Userconnection", "UserConnectionX", "PageInfo"}
	}
	taken := map[string]bool{}
	for i := g.n(0, max, "nTypes"); i > 0; i-- {
		ty := &Type{Kind: g.pick(kinds, "kind")}
		if lc.Dups && g.pct(6, "dup") {
			ty.Name = g.pick(names, "typeName")
		} else {
			ty.Name = g.some(names, 1, "typeName", taken, g.connSuffix)[0]
		}
		ty.Desc = g.desc("typeDesc")
		g.lintBody(ty, relay)
		d.Types = append(d.Types, ty)
	}
	for i := g.n(0, 4, "nExts") - 2; i > 0; i-- {
		ty := &Type{Ext: true, Kind: g.pick(kinds, "extKind"), Name: g.some(names, 1, "extName", nil, g.connSuffix)[0]}
		g.lintBody(ty, relay)
		d.Types = append(d.Types, ty)
	}
	if len(d.Types) > 1 && g.n(0, 2, "mix") == 2 {
		d.Types = rapid.Permutation(d.Types).Draw(t, "mixOrder")
	}
	if lc.Big && g.n(0, 999, "bulk") >= 996 {
		g.inflateLint(d, relay)
	}
	if g.pct(12, "dirDef") {
		gg := &gen{t: t, cfg: fullCfg()}
		gg.cfg.ASCII = lc.ASCII
		d.Dirs = []*DirDef{gg.dirDef("lim")}
	}
	if g.pct(12, "schemaBlk") {
		d.Schemas = []*SchemaBlk{{Ops: []RootOp{{"query", "Query"}}, Desc: g.desc("schemaDesc")}}
	}
	return d
}

// lintStyle draws a layout for a document to lint.
func lintStyle(t *rapid.T, label string) Style {
	if rapid.IntRange(0, 2).Draw(t, label+"Styled") == 0 {
		return plainStyle
	}
	return genStyle(t, label)
}

// elemPositions lists, per reported line and column, the elements the shared parser puts there.
func elemPositions(d *ast.SchemaDocument) map[[2]int]map[string]bool {
	m := map[[2]int]map[string]bool{}
	put := func(p *ast.Position, names ...string) {
		if p == nil {
			return
		}
		k := [2]int{p.Line, p.Column}
		if m[k] == nil {
			m[k] = map[string]bool{}
		}
		m[k][strings.Join(names, ".")] = true
	}
	typ := func(t *ast.Type, names ...string) {
		for ; t != nil; t = t.Elem {
			put(t.Position, names...)
		}
	}
	walk := func(l ast.DefinitionList, ext string) {
		for _, x := range l {
			key := ext + x.Name
			put(x.Position, key)
			for _, f := range x.Fields {
				put(f.Position, key, f.Name)
				typ(f.Type, key, f.Name)
				for _, a := range f.Arguments {
					put(a.Position, key, f.Name, a.Name)
					typ(a.Type, key, f.Name, a.Name)
				}
			}
			for _, v := range x.EnumValues {
				put(v.Position, key, v.Name)
			}
		}
	}
	walk(d.Definitions, "def:")
	walk(d.Extensions, "ext:")
	return m
}
